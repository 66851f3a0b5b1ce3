# get_raw with a helper that fills the buffer
EDITS=[('src/record/read.rs', """                    while *bytes_read < Self::HEADER_SIZE {
                        let Some(new_bytes) = self
                            .io
                            .read(&mut self.rbuf.buf[*bytes_read..Self::HEADER_SIZE])
                        else {
                            return Err(FullError::error(TurtlsError::WantRead));
                        };
                        *bytes_read += new_bytes;
                    }
""", """                    Self::fill(&self.io, &mut self.rbuf.buf[..Self::HEADER_SIZE], bytes_read)?;
"""), ('src/record/read.rs', """                    while *bytes_read < self.rbuf.len {
                        let Some(new_bytes) = self.io.read(
                            &mut self.rbuf.buf[Self::HEADER_SIZE + *bytes_read
                                ..Self::HEADER_SIZE + self.rbuf.len],
                        ) else {
                            return Err(FullError::error(TurtlsError::WantRead));
                        };
                        *bytes_read += new_bytes;
                    }
""", """                    let end = Self::HEADER_SIZE + self.rbuf.len;
                    Self::fill(&self.io, &mut self.rbuf.buf[Self::HEADER_SIZE..end], bytes_read)?;
"""), ('src/record/read.rs', """    /// Reads and decrypts a single record.
""", """    fn fill(io: &super::TurtlsIo, dst: &mut [u8], done: &mut usize) -> Result<(), FullError> {
        loop {
            if *done >= dst.len() {
                return Ok(());
            }
            match io.read(&mut dst[*done..]) {
                Some(n) => *done += n,
                None => return Err(FullError::error(TurtlsError::WantRead)),
            }
        }
    }

    /// Reads and decrypts a single record.
""")]
