# write_raw with chunk helper
EDITS=[('src/record/write.rs', """        self.set_msg_type(msg_type);
        while self.wbuf.total_bytes < buf.len() {
            let record_size = std::cmp::min(buf.len() - self.wbuf.total_bytes, Self::MAX_LEN);
            if !self.wbuf.pending {
                self.wbuf.buf[Self::HEADER_SIZE..][..record_size]
                    .copy_from_slice(&buf[self.wbuf.total_bytes..][..record_size]);
                self.wbuf.len = record_size;
                self.finish_raw();
            }
            self.write_record()?;
            self.wbuf.total_bytes += record_size;
        }
""", """        self.set_msg_type(msg_type);
        loop {
            let left = &buf[self.wbuf.total_bytes..];
            if left.is_empty() {
                break;
            }
            let chunk = if left.len() > Self::MAX_LEN { &left[..Self::MAX_LEN] } else { left };
            if !self.wbuf.pending {
                self.wbuf.len = chunk.len();
                self.wbuf.buf[Self::HEADER_SIZE..Self::HEADER_SIZE + chunk.len()].copy_from_slice(chunk);
                self.finish_raw();
            }
            self.write_record()?;
            self.wbuf.total_bytes += chunk.len();
        }
"""), ('src/record/write.rs', """        while self.wbuf.record_bytes < self.wbuf.len + Self::HEADER_SIZE {
            let bytes_written = self
                .io
                .write(&self.wbuf.buf[self.wbuf.record_bytes..Self::HEADER_SIZE + self.wbuf.len])
                .ok_or(TurtlsError::WantWrite)?;
            self.wbuf.record_bytes += bytes_written as usize;
        }
""", """        let end = Self::HEADER_SIZE + self.wbuf.len;
        loop {
            if self.wbuf.record_bytes == end {
                break;
            }
            let Some(n) = self.io.write(&self.wbuf.buf[self.wbuf.record_bytes..end]) else {
                return Err(TurtlsError::WantWrite);
            };
            self.wbuf.record_bytes += n;
        }
""")]
