"""The checks: property -> (function, rule, trusted base)."""
import abi, taint, tls

EXTRACT = 'rustc nightly and its MIR (extracted without optimisation by /verif/driver from the working tree)'
AI = ('the abstract interpreter of MIR in /verif/ai: its transfer functions, its models of std and its summaries of crylib '
      '(crylib is represented by uninterpreted functions except where it only moves bytes)')
CLIENT = ('the most general client drives the exported functions with valid pointers, not concurrently, and changes the '
          'configuration only while no handshake is under way')
IO = 'I/O callbacks return at most the amount they were asked for, and write nothing outside the buffer'

PEER = ('the peer sends records of the message shapes listed in DESIGN.md (ai/src/ideal.rs) with arbitrary field values; '
        'primitives of crylib are idealised: hashes, HKDF, AEAD and curve operations are uninterpreted')

CHECKS = {
    'C01': (tls.c01, 'Every assertion, index, slice, unwrap, cast of a length and pointer access reached by the most general client '
            'and peer is proved not to fail.', [EXTRACT, AI, CLIENT, IO, PEER]),
    'C02': (tls.c02, 'At every encryption and decryption the nonce is the IV of its key and direction XOR the number of records '
            'processed with that key, and the additional data is the record header; what is sent is what was sealed.',
            [EXTRACT, AI, CLIENT, IO, PEER]),
    'C04': (tls.c04, 'Typestate of each incoming record (protected, authenticated, failed) against what the client does next.',
            [EXTRACT, AI, CLIENT, IO, PEER]),
    'C05': (tls.c05, 'Typestate of the handshake: which message types and records are acceptable in each state, and that everything '
            'else ends the connection with an alert.', [EXTRACT, AI, CLIENT, IO, PEER]),
    'C06': (tls.c06, 'Every update of the transcript hash is the next handshake message exactly as sent or received.',
            [EXTRACT, AI, CLIENT, IO, PEER]),
    'C07': (tls.c07, 'Every HKDF call and every AEAD key is matched with the RFC 8446 key schedule over symbolic terms.',
            [EXTRACT, AI, CLIENT, IO, PEER]),
    'C09': (tls.c09, 'For every shape of ServerHello the client goes on exactly if it is acceptable, with the suite selected by it.',
            [EXTRACT, AI, CLIENT, IO, PEER]),
    'C10': (tls.c10, 'The term that enters the key schedule is the x coordinate of private key times the validated point of the peer.',
            [EXTRACT, AI, CLIENT, IO, PEER]),
    'C20': (tls.c20, 'Every read request is bounded by the record being read, and records and messages beyond the limits are refused.',
            [EXTRACT, AI, CLIENT, IO, PEER]),
    'C08': (tls.c08, 'The ClientHello the client hands to the transport is computed as a symbolic byte sequence and parsed by '
            'the grammar of RFC 8446; obligations: every length field, every extension once, contents equal to the configuration.',
            [EXTRACT, AI, CLIENT, IO]),
    'C11': (tls.c11, 'Typestate of the transport (open, alerted, closed) against what the exported functions report, on every path '
            'of the most general client.', [EXTRACT, AI, CLIENT, IO]),
    'C12': (tls.c12, 'On every path where the write callback accepts less than it was given, the next write must be the remaining '
            'bytes, and no read comes before them.', [EXTRACT, AI, CLIENT, IO]),
    'C13': (tls.c13, 'Every obligation of the first connection of an object is also discharged in the fixpoint over arbitrary '
            'histories of earlier connections, aborted at any point.', [EXTRACT, AI, CLIENT, IO]),
    'C14': (abi.check, 'The layouts, values and signatures of the compiled interface agree with include/turtls.h.',
            [EXTRACT, 'the C declarations as read by clang', 'x86-64 System V layout']),
    'C15': (tls.c15, 'The alert functions are evaluated for every value of the code byte and compared to the IANA registry; '
            'on every path on which an alert of the peer arrives, the error reported is that alert.',
            [EXTRACT, AI, CLIENT, PEER]),
    'C18': (tls.c18, 'Dataflow of the bytes obtained from the operating system into the fields of the ClientHello.',
            [EXTRACT, AI, CLIENT, 'getrandom fills the slice with random bytes or fails']),
    'C19': (tls.c19, 'Every byte sequence handed to the write callback is one whole record: type, version, length.',
            [EXTRACT, AI, CLIENT, IO]),
    'C22': (tls.c22, 'On every path on which turtls_connect returns, the string behind turtls_app_proto is compared with the '
            'application protocol of the EncryptedExtensions received in this connection; malformed answers are refused.',
            [EXTRACT, AI, CLIENT, PEER]),
    'C16': (taint.check, 'No branch, memory address, variable division or early-exit comparison depends on the value of a number in '
            'the operations of crylib documented as constant-time, and in what they call.',
            ['rustc nightly and its MIR (unoptimised, monomorphic: what the optimiser does is not covered)',
             'the points-to and taint analysis in /verif/lib/taint.py']),
    'C21': (tls.c21, 'Each parser is evaluated on symbolic inputs of every header form (DER element lengths, certificate list entries, '
            'certificate structures); the outcome and the slices handed out are compared with the encoding rules.',
            [EXTRACT, 'the abstract interpreter of MIR in /verif/ai']),
}
