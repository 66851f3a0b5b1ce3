# key schedule with a Vec
EDITS=[('src/key_schedule.rs', """    let mut hkdf_label = [0; size_of::<u16>()
        + 2 * size_of::<u8>()
        + LABEL_PREFIX.len()
        + MAX_LABEL_LEN
        + Sha256::HASH_SIZE];

    let mut pos = 0;
    hkdf_label[pos..][..size_of::<u16>()].copy_from_slice(&(key.len() as u16).to_be_bytes());
    pos += size_of::<u16>();

    hkdf_label[pos] = (LABEL_PREFIX.len() + label.len()) as u8;
    pos += 1;

    hkdf_label[pos..][..LABEL_PREFIX.len()].copy_from_slice(LABEL_PREFIX);
    pos += LABEL_PREFIX.len();

    hkdf_label[pos..][..label.len()].copy_from_slice(label);
    pos += label.len();

    hkdf_label[pos] = context.len() as u8;
    pos += 1;

    hkdf_label[pos..][..context.len()].copy_from_slice(context);
    pos += context.len();
""", """    let mut hkdf_label = [0; 2 + 2 + LABEL_PREFIX.len() + MAX_LABEL_LEN + Sha256::HASH_SIZE];
    let mut pos = 0;
    let mut put = |bytes: &[u8]| {
        hkdf_label[pos..pos + bytes.len()].copy_from_slice(bytes);
        pos += bytes.len();
    };
    put(&(key.len() as u16).to_be_bytes());
    put(&[(LABEL_PREFIX.len() + label.len()) as u8]);
    put(LABEL_PREFIX);
    put(label);
    put(&[context.len() as u8]);
    put(context);
""")]
