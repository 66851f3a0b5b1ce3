# padding removal as a loop; tag split differently
EDITS=[('src/record/read.rs', """        let Some(padding) = self.rbuf.buf[Self::HEADER_SIZE..][..self.rbuf.len]
            .iter()
            .rev()
            .position(|&x| x != 0)
        else {
            return Err(TurtlsAlert::UnexpectedMessage);
        };

        self.rbuf.len -= padding;
        self.rbuf.buf[0] = self.rbuf.buf[Self::HEADER_SIZE + self.rbuf.len - 1];
        self.rbuf.len -= 1;
""", """        loop {
            if self.rbuf.len == 0 {
                return Err(TurtlsAlert::UnexpectedMessage);
            }
            self.rbuf.len -= 1;
            let last = self.rbuf.buf[Self::HEADER_SIZE + self.rbuf.len];
            if last != 0 {
                self.rbuf.buf[0] = last;
                break;
            }
        }
"""), ('src/record/read.rs', """        let (msg, tag) = msg.split_at_mut(msg.len() - TAG_SIZE);
        let tag = (tag as &[u8]).try_into().unwrap();
""", """        let msg_len = self.rbuf.len - TAG_SIZE;
        let mut tag_copy = [0u8; TAG_SIZE];
        tag_copy.copy_from_slice(&msg[msg_len..]);
        let tag = &tag_copy;
        let msg = &mut msg[..msg_len];
""")]
