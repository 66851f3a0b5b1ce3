NOTES = ('Every check re-extracts the type-checked MIR of /repo and of crylib from the working tree and decides its property by '
         'analysing it (abstract interpretation, typestate, dataflow); nothing of /repo is executed. See DESIGN.md.')
BASE = ('Sound over-approximation within the stated model up to the correctness of the analyser itself; assumes the extracted MIR, '
        'the models of std, crylib primitives as uninterpreted functions, and callbacks that obey their contract.')
NOTEST = 'No existing test executes the TLS library at all (all 94 tests are unit tests of crylib primitives)'
P = [
 dict(id='C08', title='Every ClientHello is well formed and states the configuration',
      statement='For every configuration with at least one supported cipher suite and group, the bytes the client sends first are exactly '
      'one well-formed TLS 1.3 ClientHello: every length field equals the length of what it covers, and nothing follows it. It carries '
      'exactly the supported cipher suites, groups, signature algorithms, server name and application protocols the configuration asks '
      'for, each extension once, TLS 1.3 as the only version, and a key share of the offered group. Flags the library does not know '
      'change nothing, and names or lists that do not fit are refused instead of being sent with wrong lengths.',
      over=['configurations', 'inputs', 'histories'],
      quant='every choice of suites, groups, signature algorithms and unknown flag bits, server names and protocol lists of every length '
      '(symbolic length and content, one of the two symbolic at a time), any randomness, first and later connections',
      why=NOTEST + '; lengths near 255, 16384 and 65535, unknown flag bits and multi-record hellos cannot be enumerated.',
      files=['src/client_hello.rs', 'src/extensions.rs', 'src/extensions/', 'src/cipher_suites.rs', 'src/handshake.rs', 'src/config.rs'],
      mech=['length of the extensions computed before they are written @ src/extensions.rs', 'hello serialiser @ src/client_hello.rs',
            'supported-bit masks @ src/cipher_suites.rs'],
      observe=['bytes passed to write_fn after turtls_connect'],
      tech='abstract interpretation of MIR with symbolic byte sequences, parsed by a ClientHello grammar', note=BASE),
 dict(id='C11', title='Errors, alerts and teardown of a connection agree',
      statement='When turtls_connect fails with a non-resumable error the transport has been closed exactly once, and nothing is read or '
      'written afterwards; after a resumable error it is still open and no alert was sent. A protocol error is reported to the peer by one '
      'fatal alert with the code that the application sees, an alert of the peer is not answered, and turtls_close sends close_notify '
      'and closes once, or does nothing when no connection is open.',
      over=['histories', 'fault_sequences', 'configurations'],
      quant='every sequence of new, configure, connect, close and free, every result of the write callback at every call, transports that '
      'fail at any point',
      why=NOTEST + '; the guarantee is about every interleaving of API calls and transport failures.',
      files=['src/lib.rs', 'src/handshake.rs', 'src/record.rs', 'src/record/write.rs', 'src/record/read.rs', 'src/error.rs'],
      mech=['close_io @ src/record.rs', 'alert and close @ src/record/write.rs', 'error reporting @ src/error.rs'],
      observe=['calls of write_fn, read_fn, close_fn', 'return values of turtls_connect, turtls_get_error, turtls_get_tls_error'],
      tech='typestate analysis of the transport over the most general client (abstract interpretation of MIR)', note=BASE),
 dict(id='C12', title='Interrupted writes are continued without loss or repetition',
      statement='When the write callback accepts only part of a record or fails, the next bytes handed to it are exactly the remaining '
      'bytes of that record, across any number of calls of turtls_connect. The client does not wait for the server before a record is '
      'completely written.',
      over=['fault_sequences', 'histories', 'configurations'],
      quant='every result of every call of the write callback (failure, any partial amount, all), every number of resumptions',
      why=NOTEST + '; the split points of writes are unbounded.',
      files=['src/record/write.rs', 'src/record.rs', 'src/handshake.rs', 'src/lib.rs'],
      mech=['position in the pending record @ src/record/write.rs', 'resumption of the handshake @ src/handshake.rs'],
      observe=['bytes passed to write_fn'],
      tech='abstract interpretation of MIR with ghost state for the record being written', note=BASE),
 dict(id='C13', title='A later connection of an object behaves like the first one',
      statement='Whatever happened on earlier connections of an object, and at whatever point they ended, the next connection starts afresh: '
      'its hello, its randomness, its records and its error reports satisfy the same guarantees as on a new object. No bytes, keys, errors or '
      'partial records of an earlier connection appear in it.',
      over=['histories', 'fault_sequences'],
      quant='every history of connections on one object that end by a failure or by turtls_close at any reachable point of '
      'sending the hello and receiving the messages up to the Certificate',
      why=NOTEST + '; histories of aborted connections are unbounded.',
      files=['src/lib.rs', 'src/state.rs', 'src/record.rs', 'src/handshake.rs'],
      mech=['reset on connect @ src/lib.rs', 'state reset @ src/state.rs'],
      observe=['bytes passed to write_fn on a second turtls_connect', 'error and alert reported'],
      tech='fixpoint over client histories (abstract interpretation of MIR), obligations re-checked in the fixpoint', note=BASE),
 dict(id='C14', title='The compiled interface agrees with the C header',
      statement='Every function, structure, constant and enumeration the C header declares has the same signature, layout and value in the '
      'compiled library, and every exported symbol is declared.',
      over=['programs'], quant='every C program that includes the header',
      why='Rust tests never compile the header; a mismatch is undefined behaviour in C callers only.',
      files=['include/turtls.h', 'src/config.rs', 'src/error.rs', 'src/alert.rs', 'src/record.rs', 'src/extensions.rs'],
      mech=['repr(C) types @ src/config.rs', 'extern "C" functions @ src/lib.rs'],
      observe=['layout, values and symbols seen by C'],
      tech='comparison of type layouts from the compiler with the C declarations', note='Exact for x86-64; trusts clang and rustc layouts.'),
 dict(id='C15', title='Alert codes and names follow the registry',
      statement='Each alert code of the protocol is decoded to the alert of that code, is encoded as that code, and has the name of the '
      'registry; any other byte is treated as unknown and is never decoded to a different alert. An alert received ends the connection '
      'and is the one reported to the application.',
      over=['inputs'], quant='every value of the code byte and every alert, received at every point of the handshake',
      why='No test reads the alert table; a swapped pair of entries compiles.',
      files=['src/alert.rs'], mech=['alert enumeration @ src/alert.rs', 'decoder @ src/alert.rs', 'names @ src/alert.rs'],
      observe=['turtls_get_tls_error', 'turtls_stringify_alert'],
      tech='abstract evaluation of the decoders for each byte value against the IANA registry', note=BASE),
 dict(id='C18', title='Secrets and randoms come from the operating system',
      statement='The random of every ClientHello is 32 bytes drawn from the operating system for this connection, and the private key behind its '
      'key share is another string drawn for this connection, not derived from the random. If the operating system gives no randomness, '
      'nothing is sent and an error is reported.',
      over=['inputs', 'histories', 'fault_sequences'],
      quant='every result of the random generator, every configuration, first and later connections',
      why='A test cannot see where bytes come from; output that looks random may be reused or predictable.',
      files=['src/client_hello.rs', 'src/state.rs', 'src/extensions/key_share.rs'],
      mech=['getrandom calls @ src/client_hello.rs, src/extensions/key_share.rs'],
      observe=['ClientHello.random', 'key_share'],
      tech='provenance dataflow through the symbolic byte sequences of the abstract interpreter', note=BASE),
 dict(id='C19', title='Whatever is written to the transport is whole well-formed records',
      statement='Every byte string handed to the write callback is one complete record, or the rest of one: a known content type, the legacy '
      'version, a length field equal to the number of bytes that follow, never empty and never longer than the protocol allows. Messages '
      'longer than a record are split into consecutive records.',
      over=['configurations', 'fault_sequences', 'histories'],
      quant='every configuration and message length, every sequence of API calls and write results',
      why=NOTEST + '; record boundaries depend on message lengths and partial writes.',
      files=['src/record.rs', 'src/record/write.rs'], mech=['record writer @ src/record/write.rs'],
      observe=['bytes passed to write_fn'],
      tech='abstract interpretation of MIR with symbolic byte sequences and length facts', note=BASE),
]

RD = BASE + (' The peer is modelled by message and record shapes with arbitrary field values (listed in DESIGN.md), delivered whole, in '
             'parts, or split over two records; arbitrary unstructured message bodies are outside the model.')
P += [
 dict(id='C01', title='No input makes the library abort or touch memory it must not',
      statement='Whatever the server sends, however the callbacks deliver it, and whatever the application configures, the exported functions '
      'return: no panic, arithmetic overflow, failed assertion, or access outside an object is reachable.',
      over=['inputs', 'histories', 'configurations', 'fault_sequences'],
      quant='every configuration, every result of the callbacks, every record and message of the shapes of the peer model',
      why=NOTEST + '; a panic in an extern "C" function aborts the application.',
      files=['src/lib.rs', 'src/handshake.rs', 'src/record.rs', 'src/record/', 'src/server_hello.rs', 'src/extensions/', 'src/aead.rs'],
      mech=['record reader @ src/record/read.rs', 'handshake buffer @ src/handshake.rs', 'extension iterator @ src/extensions.rs'],
      observe=['return of turtls_connect, turtls_close, turtls_free'],
      tech='abstract interpretation of MIR: every assertion and memory access is proved from relational facts', note=RD),
 dict(id='C02', title='Every protected record uses the key and nonce of its number',
      statement='The nonce of each record sealed or opened is the IV of that direction combined with the number of records already processed '
      'under that key, so no nonce is used twice under a key. The header of a protected record is authenticated with it, and exactly the sealed '
      'bytes are sent.',
      over=['histories', 'fault_sequences', 'inputs'],
      quant='every sequence of records in both directions, with partial writes, partial reads and resumptions',
      why=NOTEST + '; nonce reuse is invisible in functional tests that use the same code on both sides.',
      files=['src/aead.rs', 'src/record/write.rs', 'src/record/read.rs'],
      mech=['nonce counter @ src/aead.rs', 'record protection @ src/record/write.rs', 'deprotection @ src/record/read.rs'],
      observe=['bytes passed to write_fn'],
      tech='typestate with ghost record counters over symbolic nonce terms (abstract interpretation of MIR)', note=RD),
 dict(id='C04', title='Nothing unauthenticated is acted upon once keys are established',
      statement='Once keys are established, a record that is not protected, or whose authentication fails, ends the connection with a fatal '
      'alert (bad_record_mac for a failed tag), and nothing in it is used. What is opened is exactly the record received. Alerts the client '
      'sends are protected from then on.',
      over=['inputs', 'histories', 'fault_sequences'],
      quant='every record type, length and content at every point of the handshake, decryption failing at any record',
      why=NOTEST + '; an active attacker chooses which record to inject and when.',
      files=['src/record/read.rs', 'src/record/write.rs', 'src/aead.rs', 'src/handshake.rs'],
      mech=['deprotect @ src/record/read.rs', 'decryption result @ src/aead.rs'],
      observe=['turtls_connect result, alert written'],
      tech='typestate of incoming records (abstract interpretation of MIR)', note=RD),
 dict(id='C05', title='Only the expected handshake messages are accepted, in order',
      statement='In each state of the handshake exactly the message expected next is accepted; a message of another type is answered with '
      'unexpected_message, and malformed messages, empty records, unknown record types, records without content, unexpected '
      'application data and data that spans a key change end the connection with an alert. A change_cipher_spec record is skipped only '
      'during the handshake. The client sends no handshake message it must not send.',
      over=['inputs', 'histories'],
      quant='every message type and record type in every state, whole, split or coalesced',
      why=NOTEST + '; state machine attacks need sequences that no peer in a test sends.',
      files=['src/handshake.rs', 'src/record/read.rs', 'src/server_hello.rs', 'src/lib.rs'],
      mech=['expected message type @ src/handshake.rs', 'record type checks @ src/handshake.rs'],
      observe=['turtls_connect result, turtls_get_tls_error'],
      tech='typestate of the handshake against the RFC 8446 state machine (abstract interpretation of MIR)', note=RD),
 dict(id='C06', title='The transcript hash covers exactly the handshake messages',
      statement='The transcript is the concatenation of all handshake messages, each exactly as sent or received with its header, once, in '
      'order, and nothing else, however messages were split, coalesced or interrupted.',
      over=['histories', 'inputs', 'fault_sequences'],
      quant='every fragmentation into records and deliveries, every number of resumptions',
      why=NOTEST + '; a transcript that is wrong only after a resumption or for split messages fails only against real peers.',
      files=['src/handshake.rs', 'src/key_schedule.rs', 'src/client_hello.rs'],
      mech=['transcript updates @ src/handshake.rs', 'transcript hasher @ src/key_schedule.rs'],
      observe=['keys derived from the transcript'],
      tech='symbolic byte sequences compared with the ghost sequence of messages (abstract interpretation of MIR)', note=RD),
 dict(id='C07', title='Keys follow the TLS 1.3 key schedule',
      statement='Every secret is extracted or expanded from the inputs, labels, transcript and lengths the TLS 1.3 key schedule prescribes for the '
      'negotiated suite, and each direction is protected with the key and IV of its own traffic secret.',
      over=['inputs', 'configurations', 'histories'],
      quant='every supported suite, every shared secret and transcript',
      why=NOTEST + '; swapped directions or labels are symmetric errors that only interoperability shows.',
      files=['src/key_schedule.rs', 'src/aead.rs', 'src/server_hello.rs'],
      mech=['derivation of the secrets @ src/key_schedule.rs', 'keys per direction @ src/aead.rs'],
      observe=['protected records'],
      tech='matching of symbolic HKDF terms with the specified schedule (abstract interpretation of MIR)', note=RD),
 dict(id='C09', title='The negotiated parameters are ones the client offered',
      statement='The client goes on after a ServerHello only if it selects TLS 1.3, a cipher suite and a group the client offered, with one '
      'well-formed key share and no extension it did not ask for, and then uses exactly these. A ServerHello or EncryptedExtensions that is '
      'acceptable is not refused.',
      over=['inputs', 'configurations'],
      quant='every suite, version and group number, every shape of extension list of the peer model, every offer',
      why=NOTEST + '; downgrade needs a server that selects what was not offered.',
      files=['src/server_hello.rs', 'src/extensions.rs', 'src/extensions/', 'src/cipher_suites.rs', 'src/handshake.rs'],
      mech=['ServerHello parser @ src/server_hello.rs', 'extension parser @ src/extensions.rs'],
      observe=['turtls_connect result, suite of the following records'],
      tech='path-sensitive abstract interpretation of MIR over message shapes with symbolic fields', note=RD),
 dict(id='C10', title='The shared secret comes from a validated point and the own key',
      statement='The shared secret is the x coordinate of the private key of this connection times the point the server sent, as 32 bytes, and '
      'the point is used only after its coordinates were checked to be in range and on the curve.',
      over=['inputs', 'histories'],
      quant='every 64-byte key share, first and resumed calls',
      why=NOTEST + '; invalid-curve points and swapped coordinates need a special server.',
      files=['src/extensions/key_share.rs', 'src/server_hello.rs'],
      mech=['shared secret @ src/extensions/key_share.rs'],
      observe=['keys derived from it'],
      tech='provenance of the symbolic term that enters the key schedule (abstract interpretation of MIR)', note=RD),
 dict(id='C20', title='Record and message size limits are enforced',
      statement='A record longer than the protocol allows is answered with record_overflow before its content is read, handshake messages beyond '
      'the buffer limit are refused, and the read callback is never asked for bytes beyond the current record.',
      over=['inputs', 'fault_sequences'],
      quant='every length field, every split of deliveries',
      why=NOTEST + '; the boundary lengths and delivery splits are too many to sample.',
      files=['src/record/read.rs', 'src/handshake.rs', 'src/record.rs'],
      mech=['length limits @ src/record/read.rs', 'buffer limit @ src/handshake.rs'],
      observe=['amounts requested from read_fn', 'alert reported'],
      tech='relational facts about requested amounts and record lengths (abstract interpretation of MIR)', note=RD),
]

P += [
 dict(id='C16', title='Operations documented as constant-time do not depend on secrets',
      statement='Every arithmetic operation that is documented as constant-time takes the same branches and touches the same addresses for '
      'all values of its operands of the same length, in everything it calls. Only lengths and positions may influence control flow.',
      over=['inputs', 'programs'],
      quant='all values of the operands, every chain of calls below each documented function',
      why='Tests compare results, not control flow; a secret-dependent early exit gives the same results.',
      files=['crylib/src/big_int.rs', 'crylib/src/big_int/', 'crylib/src/finite_field/'],
      mech=['borrow and carry chains @ crylib/src/big_int/unsigned.rs', 'sign handling @ crylib/src/big_int/signed.rs',
            'modular addition and subtraction @ crylib/src/finite_field/field_element.rs'],
      observe=['timing of the public arithmetic functions'],
      tech='context-sensitive points-to and taint analysis of monomorphic MIR',
      note='Sound for the unoptimised MIR; what the optimiser or the processor make of it is not covered. Branches of which all but one '
      'way panics are preconditions and allowed.'),
 dict(id='C21', title='Certificates are taken apart exactly, malformed ones are refused',
      statement='The DER parser hands out exactly the contents of each element, for every definite length form, and stops with an error at '
      'a truncated or unknown element. The entries of a certificate message are exactly those in its list, and a certificate is '
      'accepted only if its outer structure is that of X.509.',
      over=['inputs'],
      quant='every class and tag the library knows, every length form up to five length bytes, cut at every header byte, arbitrary contents; '
      '33 structures of certificates',
      why=NOTEST + '; length forms and cut positions are too many to sample.',
      files=['src/certificates.rs', 'src/certificates/'],
      mech=['element iterator @ src/certificates/der.rs', 'entry iterator @ src/certificates.rs'],
      observe=['alert and outcome of a Certificate message'],
      tech='abstract interpretation of the parsers on symbolic inputs of each shape', note='Contents are symbolic; shapes are enumerated. '
      'Names, validity, extensions and signatures are not interpreted by the library and not covered.'),
 dict(id='C22', title='The application protocol reported is the one the server selected',
      statement='Once the client has accepted EncryptedExtensions with a protocol, turtls_app_proto gives exactly this name, nul-terminated; '
      'before that, and when the server selects none, it gives the empty string, also on an object used before. An answer with a malformed '
      'list, or with no or several names, is refused.',
      over=['inputs', 'histories'],
      quant='protocol names of 1, 3 and 255 arbitrary bytes, nine malformed answers, every point at which turtls_connect returns, first and '
      'later connections',
      why=NOTEST + '; a stale or truncated name needs a second connection or a name of a certain length.',
      files=['src/extensions/app_proto.rs', 'src/extensions.rs', 'src/state.rs'],
      mech=['parsing of the answer @ src/extensions/app_proto.rs', 'reset between connections @ src/state.rs'],
      observe=['the string turtls_app_proto returns'],
      tech='abstract interpretation of MIR with a structured peer; comparison of symbolic byte sequences',
      note='The name is not compared with those offered: the library does not do so (known limitation in DESIGN.md).'),
]
