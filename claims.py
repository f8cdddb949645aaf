NA = {}
TRUST = ' Trusted: clang\'s C-to-IR translation, the engine in /verif/vx, Z3/cvc5, OpenSSL\'s SHA-2, the libc models.'
claim('C01', 'proof', DED, 'xmss[mt]_core_sign_open equals RFC 8391 verification for every input length and content, for all 33 (n,h,d) shapes with the hash family symbolic; the public wrappers for all 77 OIDs. Hash, chain, L-tree and root functions by contract, each discharged on the real code. SHAKE by contract (C08).' + TRUST)
claim('C06', 'proof', DED, 'gen_chain, expand_seed, wots_pkgen, wots_sign, wots_pk_from_sig for all inputs, w in {4,16,256}, n in {24,32,64}; round trip and checksum lemmas over the specification.' + TRUST)
claim('C07', 'proof', DED, 'prf, prf_keygen, thash_f, thash_h, hash_message for all inputs and message lengths, all seven (hash, n) combinations.' + TRUST)
claim('C10', 'proof', DED, 'every load and store of opening within its object for every smlen and content, inputs unmodified, buffer cleared on failure, all 33 shapes. Concrete ASan runs in addition.' + TRUST)
claim('C14', 'proof', DED, 'all setters, address serialisation, ull_to_bytes for lengths 0..127, bytes_to_ull for lengths 0..8.' + TRUST)
claim('C09', 'proof', DED, 'xmss_parse_oid and xmssmt_parse_oid for all 2^32 OIDs in both builds, the name lookups for every assigned name and for strings that are none of them, the public wrappers for unknown OIDs.' + TRUST)
claim('C02', 'proof', DED, 'Reference implementation: signing equals the specification, opening equals the specification, and the lemma that opening a specified signature recomputes the key root, for all 33 shapes and every usable index. Fast implementation: bounded (key life cycles of small trees), see C05.' + TRUST)
claim('C03', 'proof', DED, 'Reference signing for every key, index (also beyond the last) and message, all 33 shapes; wrappers for all OIDs. Fast implementation: refusal and erasure for every unusable index and every state, all 33 shapes; index advance and the last signatures from the state invariant around tree boundaries (C05), otherwise bounded (complete key life cycles of small trees).' + TRUST)
claim('C04', 'proof', DED, 'xmss[mt]_core_sign byte for byte for every key, index, message and length, all 33 shapes; treehash by a loop invariant over all 2^h leaves, wots and hash functions by contract; wrappers for all OIDs.' + TRUST)
claim('C11', 'proof', DED, 'Reference key generation and seeded key generation for every random string, all 33 shapes, in both implementations (the fast one also establishes the traversal state invariant, and leaves no byte of the key undetermined); wrappers for all OIDs in both builds.' + TRUST)
claim('C12', 'proof', DED, 'randombytes for every request length below 2^63, every sequence of open/read results, first and later calls, with inferred and then proved loop invariants (filled prefix F, pointer and remaining length in step with F). open/read/sleep by assumed POSIX contracts.' + TRUST)
claim('C08', 'proof', DED, 'Both SHAKEs, every input length and every output length, the Keccak permutation against FIPS 202 as bit-exact terms, absorb/squeeze/pad loops by inferred and proved fold invariants.' + ' Trusted: clang\'s C-to-IR translation, the engine in /verif/vx, Z3/cvc5, the libc models.')
claim('C13', 'proof', DED, 'main of ui/sign.c, XMSS and XMSSMT builds, every outcome of every file operation and of signing, all OIDs (pk and sk OID equal and different), every message length below 2^48, with ghost state for the file position, what is stored and what is flushed. xmss[mt]_sign by contract; stdio by C-standard contracts with arbitrary failures. Concrete fault injection into the compiled tool in addition.' + ' Trusted: clang\'s C-to-IR translation, the engine in /verif/vx, Z3/cvc5, the stdio models.')
claim('C05', 'other', DED, 'Deductive: fast key generation establishes the closed-form traversal invariant INV(0), all 33 shapes, every seed; signing from INV(idx) yields the specified signature and INV(idx+1) for windows of idx around tree and layer boundaries, the digits above the window symbolic; hash functions by contract. Bounded, labelled so: the remaining indices, by running the real traversal code with hash functions replaced by node labels over every index to exhaustion for H up to 20 and windows for H = 40, 60.' + TRUST)
claim('C15', 'proof', DED, 'Storing and loading the state gives back every field and every node for every content, all 33 shapes and several bds_k, and changes nothing else of the key (wrapper including the real xmss_core_fast.c); declared length equals what the state needs; key generation and signing windows with every access inside its region. Field ranges of reachable states assumed.' + TRUST)
claim('C16', 'proof', DED, 'Assigns clauses of all functions of both programs (no object with static storage is written but the random device descriptor; only external functions with contracts are called); results equal functions of the arguments (sign, open, key generation, wrappers), nothing undefined is used. Concrete interleaved and concurrent runs in addition, also under ThreadSanitizer.' + TRUST)
