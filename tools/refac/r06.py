# ExtIter with get/split_at_checked style, and if-let chains
EDITS=[('src/extensions.rs', """        if self.exts.len() < TurtlsExts::HEADER_SIZE {
            return Some(Err(TurtlsAlert::DecodeError));
        }
        let len = u16::from_be_bytes([
            self.exts[TurtlsExts::HEADER_SIZE - 2],
            self.exts[TurtlsExts::HEADER_SIZE - 1],
        ]) as usize;
        if len > self.exts.len() - TurtlsExts::HEADER_SIZE {
            return Some(Err(TurtlsAlert::DecodeError));
        }
        let ext;
        (ext, self.exts) = self.exts.split_at(len + TurtlsExts::HEADER_SIZE);
        let ext_type = [ext[0], ext[1]];
        Some(Ok(ExtRef {
            ext_type,
            data: &ext[TurtlsExts::HEADER_SIZE..],
        }))
""", """        let Some(&[t0, t1, l0, l1]) = self.exts.get(..TurtlsExts::HEADER_SIZE) else {
            return Some(Err(TurtlsAlert::DecodeError));
        };
        let len = (l0 as usize) << 8 | l1 as usize;
        let rest = &self.exts[TurtlsExts::HEADER_SIZE..];
        let Some(data) = rest.get(..len) else {
            return Some(Err(TurtlsAlert::DecodeError));
        };
        self.exts = &rest[len..];
        Some(Ok(ExtRef {
            ext_type: [t0, t1],
            data,
        }))
""")]
