# server hello parsed with a cursor
EDITS=[('src/server_hello.rs', """    let mut pos = size_of::<ProtocolVersion>() + RANDOM_BYTES_LEN;

    let leg_session_id_len = ser_hel[pos];

    if leg_session_id_len > 32 {
        return Err(TurtlsAlert::DecodeError);
    }
    if ser_hel.len() < MIN_LEN + leg_session_id_len as usize {
        return Err(TurtlsAlert::DecodeError);
    }
    pos += size_of_val(&leg_session_id_len) + leg_session_id_len as usize;

    unprot_state.ciphers.suites &= TurtlsCipherList::parse_singular(
        ser_hel[pos..][..size_of::<CipherSuite>()]
            .try_into()
            .unwrap(),
    )
    .suites;
    pos += size_of::<CipherSuite>();

    pos += 1;

    extensions::parse_ser_hel_exts(&ser_hel[pos..], unprot_state, global_state)
""", """    let (_, rest) = ser_hel.split_at(size_of::<ProtocolVersion>() + RANDOM_BYTES_LEN);
    let (id_len, rest) = rest.split_first().ok_or(TurtlsAlert::DecodeError)?;
    let id_len = usize::from(*id_len);
    if id_len > 32 || rest.len() < id_len + size_of::<CipherSuite>() + 1 + TurtlsExts::LEN_SIZE {
        return Err(TurtlsAlert::DecodeError);
    }
    let rest = &rest[id_len..];
    let selected = TurtlsCipherList::parse_singular([rest[0], rest[1]]);
    unprot_state.ciphers = TurtlsCipherList {
        suites: unprot_state.ciphers.suites & selected.suites,
    };
    let (_compression, rest) = rest[size_of::<CipherSuite>()..].split_at(1);
    extensions::parse_ser_hel_exts(rest, unprot_state, global_state)
""")]
