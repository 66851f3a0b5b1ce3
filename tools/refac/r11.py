# turtls_connect restructured
EDITS=[('src/lib.rs', """                match ShakeState::new(&tls_conn.config) {
                    Ok(state) => {
                        tls_conn.state = TlsStatus::Shake(state);
                        tls_conn.gloabl_state.reset();
                    },
                    Err(err) => {
                        tls_conn.gloabl_state.error.turtls_error = err;
                        tls_conn.gloabl_state.rl.close_io();
                        return -1;
                    },
                }
                tls_conn.gloabl_state.secret =
                    hkdf::extract::<{ Sha256::HASH_SIZE }, { Sha256::BLOCK_SIZE }, Sha256>(
                        &[0; Sha256::HASH_SIZE],
                        &[0; Sha256::HASH_SIZE],
                    );
""", """                let state = match ShakeState::new(&tls_conn.config) {
                    Ok(state) => state,
                    Err(err) => {
                        tls_conn.gloabl_state.rl.close_io();
                        tls_conn.gloabl_state.error.turtls_error = err;
                        return -1;
                    },
                };
                let zeros = [0; Sha256::HASH_SIZE];
                tls_conn.gloabl_state.reset();
                tls_conn.gloabl_state.secret =
                    hkdf::extract::<{ Sha256::HASH_SIZE }, { Sha256::BLOCK_SIZE }, Sha256>(
                        &zeros, &zeros,
                    );
                tls_conn.state = TlsStatus::Shake(state);
""")]
