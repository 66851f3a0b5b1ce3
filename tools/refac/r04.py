# handshake errors through one helper; nested ifs
EDITS=[('src/handshake.rs', """                        .map_err(|err| {
                            match err.turtls_error {
                                TurtlsError::Tls => global_state.rl.close_raw(err.alert),
                                TurtlsError::TlsPeer => global_state.rl.close_io(),
                                _ => (),
                            }
                            global_state.error = err
                        })?;
                    let aead =
                        server_hello_client(shake_state.buf.data(), unprot_state, global_state)
                            .map_err(|alert| {
                                global_state.rl.close_raw(alert);
                                global_state.error = FullError::sending_alert(alert);
                            })?;
                    shake_state.state = MaybeProt::Prot {
                        next: ProtShakeMsg::EncryptedExtensions,
                        aead,
                    };
""", """                        .map_err(|err| {
                            if matches!(err.turtls_error, TurtlsError::Tls) {
                                global_state.rl.close_raw(err.alert);
                            } else if let TurtlsError::TlsPeer = err.turtls_error {
                                global_state.rl.close_io();
                            }
                            global_state.error = err
                        })?;
                    let result =
                        server_hello_client(shake_state.buf.data(), unprot_state, global_state);
                    match result {
                        Ok(aead) => {
                            shake_state.state = MaybeProt::Prot {
                                next: ProtShakeMsg::EncryptedExtensions,
                                aead,
                            };
                        },
                        Err(alert) => {
                            global_state.error = FullError::sending_alert(alert);
                            global_state.rl.close_raw(alert);
                            return Err(());
                        },
                    }
""")]
