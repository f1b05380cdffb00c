"""Writes properties.jsonl and MANIFEST.json from one table:  python3 tools/meta.py

A property is claimed exactly when sa/rules/<id>.py exists; otherwise it is listed under not_applicable.
"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, technique=None, level='other', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, na=na))


PATH = 'path-sensitive abstract interpretation of LLVM IR, every path of every public function'
NOTE = ('Static rule over every path of the current source; loops are generalised, not unrolled; callees are inlined or taken from '
        'computed summaries and hand-written models of the crypto primitives. Trusts clang -O0 IR and the primitive models in sa/prims.py.')
S = 'src/protocol/'

p('C01', 'No nonce is ever used twice with one key',
  'For any one key installed in a cipher object, no two encryptions ever use the same nonce and the reserved last nonce value is never used; every operation, in any order and whether it succeeds or fails, leaves the nonce the same or higher unless a new key is installed, which restarts it at zero. '
  'Each backend feeds the complete 64-bit nonce into the primitive in the byte order Noise assigns to that cipher.',
  ['histories', 'inputs', 'configurations'], 'all call sequences on cipher, symmetric and handshake objects; all nonce values; all backends',
  'tests walk a few nonces from zero; the wrap at 2^64-1 and sequences that set, fail and retry are unreachable by sampling',
  [S + 'cipherstate.c', S + 'symmetricstate.c', 'src/backend'],
  [('nonce check and increment', S + 'cipherstate.c noise_cipherstate_encrypt_with_ad'), ('set_nonce refuses to go back', S + 'cipherstate.c noise_cipherstate_set_nonce')],
  PATH + '; bit-level reading of the IV each backend builds')
p('C02', 'Failed decryption releases nothing and changes no state',
  'When a message does not authenticate, decryption reports an error, no unauthenticated plaintext is left in any caller buffer or released as payload, and the cipher nonce, the transcript hash and the reported length stay as they were. '
  'Plaintext is released only after the whole ciphertext, associated data and MAC have been compared.',
  ['inputs', 'configurations', 'histories'], 'all ciphertexts, lengths and associated data; every backend in every build configuration',
  'tests flip a few bits; they cannot cover each forged input nor see what buffers hold after the failure',
  [S + 'cipherstate.c', S + 'symmetricstate.c', S + 'handshakestate.c', 'src/backend'],
  [('verify before decrypt', 'src/backend/ref/cipher-aesgcm.c, cipher-chachapoly.c'), ('payload copied after authentication', S + 'handshakestate.c noise_handshakestate_read')],
  PATH + ' with typestate of the MAC verification')
p('C03', 'No read or write outside a buffer or past the 65535-byte message limit',
  'Every protocol, protobuf and certificate or key utility operation reads and writes only inside the buffers and objects its arguments describe, whatever lengths, message contents and object states it is given. '
  'An operation that lacks room for its output, including the MAC, fails instead of writing past it; sizes and positions of buffer and protobuf objects stay within their capacity, and no payload larger than 65535 bytes including the MAC reaches a cipher.',
  ['inputs', 'configurations'], 'all argument lengths, buffer capacities, algorithm sizes and message contents',
  'tests use well sized buffers and cannot try every length relation; an overrun by one needs an exact boundary',
  [S + 'cipherstate.c', S + 'symmetricstate.c', S + 'handshakestate.c', S + 'hashstate.c', S + 'util.c', 'src/protobufs/protobufs.c', 'src/keys', 'include/noise/protocol/buffer.h'],
  [('size checks', S + 'cipherstate.c'), ('room checks per token', S + 'handshakestate.c')],
  PATH + ' with linear offset/length relations')
p('C04', 'Handshake phases: right action order, terminal failure, one split',
  'A handshake message can be written or read only when it is that side\'s turn, the direction flips after each message, and the handshake becomes splittable only after the last pattern token. '
  'Any error while processing a message moves the handshake to a failed state from which no message can be processed and no split obtained; fallback is possible only from the phases the specification allows, and a split happens at most once.',
  ['histories', 'inputs', 'fault_sequences'], 'all sequences of API calls on a handshake object, with any call failing',
  'tests drive the expected order; the wrong orders and failures midway form an unbounded set of histories',
  [S + 'handshakestate.c'],
  [('action field', S + 'handshakestate.c')],
  PATH + '; typestate of the handshake action')
p('C05', 'No internal failure is ever reported as success',
  'Whenever an operation inside a library call fails, such as a key exchange, encryption, authentication, allocation, I/O or nested parse, the enclosing public call reports an error. '
  'Only failures that are explicitly recovered from may be followed by success.',
  ['fault_sequences', 'inputs', 'histories', 'configurations'], 'every fallible internal call failing in every public function',
  'the tests never make most internal calls fail',
  ['src/protocol', 'src/keys', 'src/protobufs', 'src/backend'],
  [('error checks at each call', 'every .c file')],
  PATH + ', forking every fallible call into success and failure')
p('C06', 'Each handshake token performs exactly its key exchange and mixing',
  'For every token, the writer and the reader of a handshake message perform the operations Noise assigns to it, with the key pair the role selects, and in the same order on the transcript: a key sent by one side is hashed or encrypted exactly as the other side hashes or decrypts it, and each shared secret is computed from the pair of keys the token names and mixed into the chaining key. '
  'Pre-shared key handshakes additionally mix every ephemeral into the chaining key.',
  ['inputs', 'configurations', 'histories'], 'all tokens, roles, algorithms and key states',
  'test vectors exercise listed patterns with fixed keys; the two implementations agreeing with each other on a wrong operation would go unnoticed outside those vectors',
  [S + 'handshakestate.c', S + 'symmetricstate.c'],
  [('token interpreter', S + 'handshakestate.c noise_handshakestate_write, noise_handshakestate_read')],
  PATH + '; the sequence of transcript events per token compared with the Noise specification')
p('C07', 'Pattern tables conform to the Noise specification',
  'For every handshake pattern name the library accepts, the message pattern it executes, the pre-message keys it requires and the role requirements it enforces are those of the Noise specification: initiator and responder alternate, keys are sent before they are used, every DH uses keys both sides own, and flags agree with the tokens. '
  'Deriving the fallback variant yields the specified pattern.',
  ['configurations', 'inputs'], 'all pattern identifiers and modifiers',
  'a test vector exists for only some patterns and does not establish the validity rules',
  [S + 'patterns.c', S + 'names.c', S + 'handshakestate.c'],
  [('pattern tables', S + 'patterns.c'), ('requirements derivation', S + 'handshakestate.c')],
  'evaluation of the constant tables in the IR against an independently written copy of the specification')
p('C08', 'A handshake starts only with its required keys and hashes its prelude in order',
  'Starting a handshake succeeds only if every key, pre-shared key and remote key the pattern requires for the role has been supplied, and is refused otherwise without changing the transcript. '
  'On success the prologue, the pre-shared key and the pre-message public keys have been mixed in the order the specification fixes, initiator keys first on both sides.',
  ['histories', 'inputs', 'configurations'], 'all subsets of supplied keys, roles and patterns',
  'tests supply the right keys for the listed patterns; missing-key combinations are exponential',
  [S + 'handshakestate.c'],
  [('start', S + 'handshakestate.c noise_handshakestate_start')],
  PATH + '; ordered event trace per path compared with the specification')
p('C09', 'Split gives each direction its own key and can happen only once',
  'A successful split gives the initiator\'s sending cipher the same key as the responder\'s receiving cipher and conversely, the two directions never share a key, and both start with nonce zero. '
  'The symmetric state gives up its cipher, so it cannot encrypt, decrypt, mix a key or be split again.',
  ['histories', 'inputs', 'configurations'], 'both roles, one-way and two-way patterns, omitted outputs',
  'tests compare two sides driven by the same code and check a few vectors',
  [S + 'symmetricstate.c', S + 'handshakestate.c'],
  [('split', S + 'symmetricstate.c noise_symmetricstate_split'), ('role swap', S + 'handshakestate.c noise_handshakestate_split')],
  PATH + '; provenance of the key bytes given to each cipher')
p('C10', 'The transcript commits to every message and only after success',
  'Every handshake payload and encrypted key is authenticated with the current transcript hash as associated data, and the transcript then absorbs exactly the ciphertext that was sent or received. '
  'A failed encryption or decryption leaves the transcript unchanged.',
  ['histories', 'inputs', 'fault_sequences'], 'all payloads, keyed and unkeyed states, and failures',
  'two sides running the same wrong code agree with each other; vectors cover few states',
  [S + 'symmetricstate.c'],
  [('encrypt_and_hash, decrypt_and_hash', S + 'symmetricstate.c')],
  PATH + '; provenance of associated data and hash input')
p('C11', 'Secret temporaries are erased on every exit',
  'Keys, shared secrets, plaintext blocks, hash blocks and other secret intermediate values placed in local storage by a library call are erased, in a way the compiler may not remove, before that call returns, on success and on every error.',
  ['inputs', 'fault_sequences', 'configurations'], 'every exit path of every function that holds secrets in locals',
  'stack residue is invisible to functional tests and error exits are not taken',
  ['src/protocol', 'src/backend', 'src/crypto', 'src/keys'],
  [('noise_clean', S + 'util.c')],
  PATH + ' with taint of secret bytes in frame memory')
p('C12', 'Freeing or clearing an object erases all of its secrets and sub-objects',
  'Releasing an object destroys every sub-object it owns exactly once and erases all of its memory before giving it back, whatever backend built it. '
  'Clearing a key erases every private byte and makes the key absent.',
  ['histories', 'configurations'], 'all object kinds, states and backends',
  'freed memory cannot be inspected by a portable test',
  ['src/protocol', 'src/backend', 'src/protobufs', 'src/keys'],
  [('noise_free', S + 'util.c'), ('destroy slots', 'src/backend')],
  PATH + '; effect analysis of destructors')
p('C13', 'Ownership survives any allocation failure',
  'If memory runs out, or any step fails, at any point of any library call, the call reports the failure, leaks nothing, frees nothing twice, leaves no dangling pointer and sets its output pointers to null. '
  'On success every object has exactly one owner.',
  ['fault_sequences', 'configurations'], 'each allocation and fallible step failing in every function',
  'the tests never make an allocation fail',
  ['src/protocol', 'src/backend', 'src/keys', 'src/protobufs'],
  [('cleanup on failure', 'every constructor')],
  PATH + ' with heap ownership and failing allocations')
p('C14', 'Null arguments are rejected, never dereferenced',
  'Every public function given a null pointer for a required argument, or a buffer without data, returns the invalid-parameter error (or its neutral value or nothing where it returns no error code) without dereferencing it and without changing any state. Only the raw memory helpers (clean, equality, zero test) and the array helpers of generated code take their pointers unchecked.',
  ['inputs'], 'every pointer parameter of every public function being null, in every combination',
  'tests pass null in some argument positions only',
  ['src/protocol', 'src/keys', 'src/protobufs'],
  [('argument checks', 'every public function')],
  PATH + ' with null facts on parameters and loaded pointers')
p('C15', 'Invalid lengths, roles and identifiers are rejected without side effects',
  'Setting keys, pre-shared keys, prologues, roles or identifiers with a wrong length or in a phase that does not allow them returns the documented error and leaves the object as it was. '
  'A signing key that is refused leaves the old key or none. A stored length always equals the size of the data stored with it.',
  ['inputs', 'histories'], 'all lengths, identifiers and object states',
  'tests try one or two wrong lengths each',
  [S + 'dhstate.c', S + 'handshakestate.c', S + 'signstate.c', S + 'cipherstate.c', S + 'hashstate.c'],
  [('length checks', S + 'dhstate.c')],
  PATH + '; frame conditions on failing exits')
p('C16', 'Secrets are compared and handled without secret-dependent branches',
  'MAC tags, keys and null-key tests are compared by code whose control flow and memory access pattern does not depend on the secret bytes, and every comparison covers the whole length and is right about it. '
  'In the protocol core, the backends and the primitives no branch depends on the bytes of a key, message or digest, only on the outcome of such a whole comparison, and no table other than those of the reference AES is indexed by them; whether a public key is null does not change the course of a shared-key calculation.',
  ['inputs', 'configurations'], 'all secret values',
  'timing cannot be judged by functional tests',
  [S + 'util.c', 'src/backend', 'src/crypto'],
  [('noise_is_equal, noise_is_zero', S + 'util.c')],
  'interprocedural taint analysis (SSA, fixed point over the call graph) of branch conditions, addresses and compares; abstract interpretation of the comparison helpers')
p('C17', 'Null and invalid public keys are handled as Noise requires',
  'For an algorithm that has a null public key (the all-zero key of Curve25519 and Curve448), a null key never contributes a computed secret: a calculation with it yields the all-zero shared secret, and it can be set only where the algorithm allows it. '
  'An ephemeral or hybrid key received in a handshake that is null fails the handshake, and an invalid peer key makes the operation fail.',
  ['inputs', 'configurations'], 'all public keys, every DH algorithm and backend',
  'tests try the all-zero key in a few places',
  [S + 'dhstate.c', S + 'handshakestate.c', 'src/backend'],
  [('null key checks', S + 'dhstate.c'), ('ephemeral check', S + 'handshakestate.c')],
  PATH)
p('C18', 'Random values come from the system generator and are rekeyed',
  'Every key or padding byte produced by the library comes from the operating system\'s generator or from the library\'s generator seeded from it; a failure of the system source is never silently turned into predictable output. '
  'The generator object replaces its key after use so that earlier output cannot be reconstructed.',
  ['fault_sequences', 'histories', 'configurations'], 'all request sizes, failures of the system source, and all build configurations',
  'random output cannot be distinguished from predictable output by a test and source failures do not occur',
  [S + 'randstate.c', S + 'rand_os.c', S + 'dhstate.c'],
  [('system source', S + 'rand_os.c'), ('rekey', S + 'randstate.c')],
  PATH)
p('C19', 'Identifiers, names and error strings map one to one',
  'Every algorithm, pattern and modifier has one identifier and one name, conversions in both directions agree for every identifier and every string, unknown names and identifiers are refused, and every error code has its own message. '
  'A protocol name is accepted if and only if it formats back to itself.',
  ['inputs', 'configurations'], 'all identifiers, names and categories',
  'tests list the names they know',
  [S + 'names.c', S + 'errors.c', S + 'internal.h', 'include/noise/protocol/constants.h'],
  [('name table', S + 'names.c'), ('error table', S + 'errors.c')],
  'evaluation of the constant tables in the IR against the public constants')
p('C20', 'Every backend object is coherent with its algorithm',
  'Whatever backend the build selects, the object created for an algorithm reports the identifier, key, hash, block, MAC and signature lengths that the Noise specification gives it, has every operation filled in, and those descriptions never change during its life. '
  'Every algorithm identifier the build supports creates an object of that algorithm and no other.',
  ['configurations', 'histories'], 'all algorithms, backends and build configurations',
  'the tests run in one configuration at a time and check a few lengths',
  ['src/backend', S + 'cipherstate.c', S + 'hashstate.c', S + 'dhstate.c', S + 'signstate.c'],
  [('constructors', 'src/backend')],
  PATH + ' of every constructor, plus a who-writes query on descriptor fields')
p('C21', 'The protobuf codec stays inside its buffer',
  'Reading and writing protobuf data, of any content and nesting, touches only bytes inside the caller\'s buffer, strings and arrays; the position never passes the end of the buffer. '
  'A length, nested element or string that claims more than what remains is an error, the end of a nested element is accepted only at the place its length promised, and arrays of repeated fields grow before they are filled.',
  ['inputs'], 'all byte strings, tags, lengths and nesting',
  'tests decode well formed data and a few truncations',
  ['src/protobufs/protobufs.c'],
  [('position and limit checks', 'src/protobufs/protobufs.c')],
  PATH + ' with linear position/limit relations')
p('C22', 'Protobuf values are coded exactly, text is validated and errors stick',
  'Once a protobuf operation has failed, every later operation on that buffer fails and so does the whole; a successful write produces exactly the shortest encoding of its tag and value. '
  'A successful read consumed exactly such an encoding and returns its value, reduced to the type; wrong tags or wire types, truncated values and strings that are not well-formed UTF-8 without NUL are errors. Peeking agrees with reading.',
  ['inputs', 'histories'], 'all byte strings and sequences of operations',
  'the sequence space is unbounded and tests stop at the first error',
  ['src/protobufs/protobufs.c', 'src/keys/certificate.c'],
  [('error latch', 'src/protobufs/protobufs.c')],
  PATH)
p('C23', 'Certificate and key readers and writers follow the published schema',
  'For each message of the published certificate schema, the writer emits exactly the present fields with their declared tags and types and stored values, repeated ones in order; the reader stores each declared field, appends repeated ones and skips unknown tags, up to the end of the element it opened. '
  'The has, get, set, clear, count, add and insert accessors of a field act on the storage of that field alone.',
  ['inputs', 'programs'], 'all messages and fields of the schema',
  'tests check a few fields; generated code may drift from the schema unnoticed',
  ['src/keys/certificate.c', 'doc/noise-certificate.proto'],
  [('generated readers and writers', 'src/keys/certificate.c')],
  'per-path trace of tag operations compared with the parsed schema')
p('C24', 'Encrypted private keys are well protected and fully validated',
  'A saved private key is encrypted under a key derived from the passphrase with a fresh salt and at least the minimum iteration count, and only under supported algorithms. '
  'On loading, the parameters are validated before use, a key is returned only if decryption authenticated, and all derived secrets are erased.',
  ['inputs', 'fault_sequences'], 'all passphrases, file contents and algorithm names',
  'tests round-trip one key',
  ['src/keys/loader.c', S + 'hashstate.c'],
  [('key derivation and cipher selection', 'src/keys/loader.c')],
  PATH)
p('C25', 'Saving and loading files tells the truth about I/O',
  'Saving reports success only if every byte was written and the file was closed without error; loading reports success only if the whole file was read. '
  'Every opened file is closed on every path.',
  ['fault_sequences'], 'every I/O call failing or being short',
  'the tests never make I/O fail',
  ['src/keys/certificate.c', 'src/keys/loader.c'],
  [('file helpers', 'src/keys')],
  PATH + ' with failing I/O models')
p('C26', 'HMAC, HKDF and PBKDF2 have their specified structure',
  'The keyed hash, key derivation and password functions combine the hash exactly as their specifications say: long keys are hashed first, inner and outer pads are applied over the whole block, each output chains from the previous one with its counter byte, and requested output lengths are honoured.',
  ['inputs', 'configurations'], 'all key, data and output lengths and all hash algorithms',
  'published vectors cover particular lengths',
  [S + 'hashstate.c'],
  [('hmac, hkdf, pbkdf2', S + 'hashstate.c')],
  PATH + '; ordered event trace compared with the specification')
p('C27', 'Incremental hashing consumes every byte exactly once',
  'However the input of a hash or MAC is divided into pieces, each byte is absorbed exactly once and in order, the block position never leaves its block and the message length is exact; the start value, the padding of the last block and the byte order of the digest are those of the specification.',
  ['inputs', 'histories', 'configurations'], 'all input lengths and divisions',
  'tests use a few lengths and splits, none of them long',
  ['src/crypto/sha2', 'src/crypto/blake2', 'src/crypto/donna', 'src/crypto/ghash', 'src/backend/ref', 'src/backend/sodium'],
  [('update, finish, reset', 'src/crypto/sha2, src/crypto/blake2'), ('poly1305', 'src/crypto/donna/poly1305-donna.c'), ('ghash', 'src/crypto/ghash/ghash.c')],
  PATH + ' with linear cursor relations for update, once for each block position for finish')
p('C90', 'Cryptographic primitives compute their published functions',
  'Every cipher, hash, key exchange and signature primitive computes exactly the function its specification defines, for every input.',
  ['inputs'], 'all inputs of every primitive', 'vectors cover single points',
  ['src/crypto', 'src/backend'], [('primitives', 'src/crypto')],
  na='numeric equality of cryptographic functions over all inputs is a value property; no dataflow, typestate or syntax argument bounds it, and deciding it would need a solver or a proof')
p('C91', 'Two honest parties always complete a handshake and agree on keys',
  'For every supported protocol name, an initiator and a responder with matching configuration finish the handshake and each decrypts what the other sends.',
  ['configurations', 'inputs', 'histories'], 'all protocol names, keys and payloads', 'vectors sample the names and keys',
  [S + 'handshakestate.c'], [('handshake', S + 'handshakestate.c')],
  na='agreement of the computed secrets needs the algebra of the DH functions and the values of two executions; the structural halves of it are claimed as C06, C07, C08, C09 and C10')
p('C92', 'Encoding then decoding a certificate or key file returns an equal object',
  'Any certificate, chain or private key object written out and read back compares equal to the original.',
  ['inputs'], 'all objects', 'tests round-trip a few objects',
  ['src/protobufs', 'src/keys'], [('codec', 'src/protobufs')],
  na='equality of object contents across an encode and a decode relates runtime values of two unbounded recursive runs; the structural part (same tags and types both ways) is C23')
p('C93', 'Execution time and cache use do not depend on secrets on real hardware',
  'Running time, power and cache footprint of every operation are independent of secret data on the machines the library runs on.',
  ['inputs'], 'all secret values on any machine', 'timing noise hides it',
  ['src/crypto'], [('primitives', 'src/crypto')],
  na='depends on hardware and on compiler output; the source-level part (comparison helpers without secret-dependent control flow) is C16')

TODO = 'planned; no check is registered yet, so nothing is claimed'


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps({
                'id': x['id'], 'title': x['title'], 'statement': x['statement'],
                'quantifier': {'over': x['over'], 'text': x['text']}, 'why_tests_cant': x['why'],
                'anchors': {'files': x['files'], 'mechanism': [{'name': a, 'where': b} for a, b in x['mech']], 'hook_needed': None}}) + '\n')
    checks, na = [], []
    for x in P:
        i = x['id']
        if os.path.exists(os.path.join(HERE, 'sa', 'rules', i.lower() + '.py')):
            checks.append({'property': i, 'quick_cmd': 'python3 -m sa.run %s quick' % i, 'thorough_cmd': 'python3 -m sa.run %s thorough' % i,
                           'technique': 'static analysis: ' + x['technique'], 'level': x['level'], 'level_note': x['note'] or NOTE})
        else:
            na.append({'property': i, 'reason': x['na'] or TODO})
    m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa', 'checks': checks, 'not_applicable': na,
         'notes': 'All checks compile /repo\'s current sources to LLVM IR in a scratch directory and run nothing from /repo; see DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    bad = [x['id'] for x in P if len(x['title']) > 80 or x['statement'].count('. ') > 2]
    print('%d properties, %d checks, %d not applicable; too long: %s' % (len(P), len(checks), len(na), bad))


main()
