"""What each check runs: harness, build variants, shards, and how it counts."""
def U(h, v, extra=(), link=()):
    return (h, v, tuple(extra), tuple(link))
def S(h, v, extra=(), link=(), **kw):
    d = dict(unit=U(h, v, extra, link)); d.update(kw); return d

SODIUM = "libsodium, OpenSSL and GMP are trusted; OpenSSL/GMP are the independent references"
SHARED_FILE = "the harness observes executions it drives; nothing is claimed about inputs it did not draw"
CHECKS = {}
def add(pid, **kw):
    kw.setdefault("level", "exploration")
    kw.setdefault("assumptions", [SODIUM, SHARED_FILE])
    CHECKS[pid] = kw

add("C01", stages=[S("h_c01.cpp", "asan"), S("h_c01.cpp", "release", env={"VH_HUGE": "1"}), S("h_c01.cpp", "nolock", shards=2)],
    rule="A case is one message length (or array size, or call history); non-trivial when the ciphertext was produced, compared with the independent layout and decrypted back. Distinct = distinct length/array size/history script.",
    require={"reborn_steps": 4000, "string_roundtrips": 100, "array_roundtrips": 50, "history_decrypts": 20, "in_place": 500})
add("C02", stages=[S("h_c02.cpp", "asan"), S("h_c02.cpp", "release", shards=4, env={"VH_HUGE": "1"})],
    rule="A case is one modified ciphertext handed to decrypt; non-trivial when it differs from every genuine ciphertext of the key. Distinct = distinct (kind of modification, position, length).",
    require={"reborn_steps": 4000, "bitflip": 1000, "neighbour_key": 256, "array_bitflips": 1000})

add("C04", stages=[S(("h_c04.cpp", "golden_aez.c"), "asan"), S(("h_c04.cpp", "golden_aez.c"), "release", env={"VH_HUGE": "1"}), S(("h_c04.cpp", "golden_aez.c"), "debug", shards=2)],
    technique="reference monitor (frozen cipher) and exhaustive small-domain bijection monitor under ASan/UBSan",
    note="exhaustive for 1- and 2-byte domains of the drawn keys, sampled beyond; the reference is a frozen copy of the cipher",
    rule="A case is one (length, input) pair pushed through every entry point and compared with the frozen reference, or one complete small domain. Distinct = distinct (length, input) or domain/key.",
    require={"reborn_steps": 4000, "too_long": 2, "domains_1byte": 8, "domains_2byte": 2, "u32": 100, "u64": 100})

WRAP = tuple("-Wl,--wrap=" + x for x in ("sodium_malloc", "sodium_allocarray", "sodium_free",
        "sodium_mprotect_noaccess", "sodium_mprotect_readonly", "sodium_mprotect_readwrite"))
add("C05", stages=[S("h_c05.cpp", "asan", link=WRAP), S("h_c05.cpp", "release", link=WRAP, env={"VH_HUGE": "1"})],
    technique="reference monitor (OpenSSL HMAC-BLAKE2b) on all overloads and derived keys, under ASan/UBSan",
    note="held for the drawn keys, 120 output sizes and all boundary input lengths; derived keys are read from the observed secure allocations and through use",
    rule="A case is one (output size, input length) with a fresh key, evaluated through every overload and key derivation and compared with the reference.",
    require={"reborn_steps": 4000, "derived_keys": 500, "block_repeat_checks": 50, "array_calls": 50, "array_sizes": 250})
add("C06", stages=[S("h_c06.cpp", "asan"), S("h_c06.cpp", "release", env={"VH_HUGE": "1"})],
    technique="reference monitor (RFC 2104 over OpenSSL digests), canaried outputs, under ASan/UBSan",
    note="69 key-size/hash instantiations, dense message lengths, every truncation",
    rule="A case is one (hash, key size, message length) with fresh key; every output length 0..64 is compared with the prefix of the reference.",
    require={"reborn_steps": 3000, "truncations": 5000, "refusals": 500})
add("C07", stages=[S("h_c07.cpp", "asan"), S("h_c07.cpp", "release", env={"VH_HUGE": "1"})],
    technique="reference monitor (OpenSSL BLAKE2b/SHA-512), canaried outputs, under ASan/UBSan",
    note="dense lengths, boundary lengths up to 1 MiB (16 MiB thorough), every truncation for short inputs",
    rule="A case is one input (length, content) hashed through every overload, overlap and truncation.",
    require={"truncations": 5000, "refusals": 100, "overlaps": 1000, "overlaps_truncated": 1000})
add("C08", stages=[S("h_c08.cpp", "asan", link=WRAP), S("h_c08.cpp", "release", link=WRAP, env={"VH_HUGE": "1"})],
    technique="reference monitor (independent ChaCha20) over offsets, lengths and derived keys, under ASan/UBSan",
    note="dense small offsets/lengths, sampled offsets up to 2^62; derived keys read from observed secure allocations and through use",
    rule="A case is one (offset, length) slice or (key size, count, key offset) derivation read through every access path.",
    require={"reborn_steps": 3000, "straddling": 1000, "inside_one_block": 100, "large_offsets": 100, "derived_keys": 1000, "consumed_checks": 1000})
add("C09", stages=[S("h_c09.cpp", "asan"), S("h_c09.cpp", "release", env={"VH_HUGE": "1"})],
    technique="reference-model monitor (independent binary-tree derivation) on every evaluation and callback, under ASan/UBSan",
    note="exhaustive ranges and nested ranges of small trees, sampled chains of up to 6 constrainings for every height 2..64 and 8 output sizes",
    rule="A case is one (output size, height, chain of ranges); every leaf or probed leaf/sub-range is compared with the model. Distinct = distinct (size, height, chain).",
    require={"reborn_steps": 4000, "leaf_evals": 20000, "range_evals": 5000, "chains_tall": 100, "nested": 500, "assembled": 500, "wide_leaves": 300000})
add("C10", stages=[S("h_c10.cpp", "asan", link=WRAP), S("h_c10.cpp", "release", link=WRAP), S("h_c10.cpp", "asanrel", link=WRAP, shards=4)],
    technique="hostile out-of-range queries with a no-callback monitor, and a monitor of the held key material (decoded export and live protected memory), under ASan/UBSan",
    note="all ranges of small trees, sampled chains for every height 2..64; material is compared with the independent tree model",
    rule="A case is one (output size, height, chain of ranges) whose exported and in-memory material was checked and which was probed with every class of outside query.",
    require={"reborn_steps": 5000, "outside_evals": 50000, "outside_ranges": 100000, "materials": 1000, "elements": 5000, "held_keys": 1000, "bad_heights": 1000, "restored": 50, "refused_assemblies": 2000})
add("C11", stages=[S(("h_c11.cpp", "golden_aez.c"), "asan"), S(("h_c11.cpp", "golden_aez.c"), "release", shards=4, env={"VH_HUGE": "1"}), S(("h_c11.cpp", "golden_aez.c"), "nolock", shards=4)],
    technique="reference monitor: independent decoder/encoder of wrapped blobs and predicted outputs of every restored object, under ASan/UBSan",
    note="29 object kinds, every tree height, chains of up to 4 re-wrappings, blobs sealed by an independent implementation; RSA keys of several exponents",
    rule="A case is one (object kind, secret and state, wrapping key) wrapped, decoded, unwrapped, chained and probed; distinct = distinct (kind, secret).",
    require={"reborn_steps": 5000, "probes": 2000, "foreign_blobs": 300, "chain_steps": 500, "tall_objects": 400, "kind_TdpInverse": 10, "empty_objects": 3})
add("C12", stages=[S(("h_c12.cpp", "golden_aez.c"), "asan"), S(("h_c12.cpp", "golden_aez.c"), "release", shards=4, env={"VH_HUGE": "1"})],
    technique="mutation stress on wrapped blobs with a rejection and blob-unmodified monitor, all kind pairs, under ASan/UBSan",
    note="all bits of short blobs (IV and tag bits always), all truncations, splices, 256 neighbour keys per blob, all ordered pairs of 30 kinds; not a proof of unforgeability",
    rule="A case is one wrapped blob put through every mutation, or one ordered pair of kinds; every mutant must be rejected and left unmodified.",
    require={"content_extended": 500, "tall_blobs": 4, "content_truncated": 500, "reborn_steps": 5000, "bitflip": 10000, "truncated": 2000, "pairs": 1500, "pairs_crossed": 1500, "neighbour_key": 2000, "type_byte": 5000, "splice": 500, "swap": 300})
add("C13", stages=[S("h_c13.cpp", "asan"), S("h_c13.cpp", "release", env={"VH_HUGE": "1"}, shards=4)],
    technique="reference monitor (GMP modular exponentiation, own DER/PEM encoder) over call histories, under ASan/UBSan",
    note="fresh 2048-bit keys of 8 public exponents and generated keys; boundary, non-coprime and out-of-domain messages; copies, moves, re-imports",
    rule="A case is one (key, message, operation) of a random session, compared with GMP through every overload.",
    require={"root_values": 100, "marathon_inverts": 500, "reborn_steps": 80, "evals_checked": 500, "inverts_checked": 100, "outside_values": 80, "copies": 80, "reimports": 80, "moves": 80, "bad_sizes": 300, "generated_keys": 4})
add("C14", stages=[S("h_c14.cpp", "asan"), S("h_c14.cpp", "release", shards=4)],
    technique="reference monitor (GMP iterated exponentiation) over orders, pool sizes, copies, under ASan/UBSan",
    note="orders 0..40 and sampled to 2^32-1; pools of sampled sizes up to 255, every order of small ones; several public exponents",
    rule="A case is one (key, message, order) inverted in one call, or one (pool, order) evaluation, through every overload.",
    require={"reborn_steps": 80, "invert_mults": 500, "stepwise": 80, "large_orders": 200, "pool_evals": 1000, "refused_orders": 300, "pool_copies": 60, "pools": 100})
add("C15", stages=[S("h_c15.cpp", "asan"), S("h_c15.cpp", "release", shards=4)],
    technique="reference monitor (OpenSSL PRF reduced with GMP), domain and spread monitor of samples, under ASan/UBSan",
    note="every overload on four object kinds, seeds of length 0..300 and up to 5000; samples checked for range, repetition, spread and evenness over moduli where short draws would be biased",
    rule="A case is one (modulus, PRF key, seed) generated through every overload and object kind.",
    require={"even_draws": 20000, "chosen_draws": 50, "zero_bytes_elements": 50, "generations": 5000, "samples": 3000, "inverted": 50})
add("C17", stages=[S("h_c17.cpp", "asan"), S("h_c17.cpp", "release", env={"VH_HUGE": "1"}, shards=4)],
    technique="reference monitor (own Edwards-curve arithmetic over GMP, OpenSSL BLAKE2b) over random insert/remove/union/copy histories, under ASan/UBSan",
    note="every value after every step of random histories over several live objects; all classes of invalid encodings; the Elligator map is libsodium's (trusted)",
    rule="A case is one multiset reached by a history, one element length, or one imported byte string; each is compared with the model. Distinct = distinct multiset (per harness universe), length or byte string.",
    require={"insertions": 1000, "removals": 1000, "unions": 500, "self_unions": 100, "self_differences": 50, "reimports": 200, "lists": 50, "imports_valid": 300, "imports_invalid": 300, "distinct_multisets": 1000})
add("C22", stages=[S("h_c22.cpp", "asan", env={"ASAN_OPTIONS": "detect_leaks=1"}), S("h_c22.cpp", "release", shards=4), S("h_c22.cpp", "debug", shards=2)],
    technique="differential monitor against GMP on every operation, destination aliasing and number representation, under ASan/UBSan/LeakSanitizer",
    note="operands up to 8500 bits of random, extreme-limb and near-equal shapes, all small values, all radices; not exhaustive",
    rule="A case is one operation on one pair of operands; distinct = distinct (operation, operand sizes and signs, aliasing).",
    require={"add_mpi": 3000, "divisions_long": 1000, "divisions_hard": 2000, "exponentiations": 2000, "exponentiations_cached": 500, "inversions": 1000, "inversions_even_modulus": 20, "texts_read": 3000, "texts_invalid": 300, "shifts": 5000, "exp_undefined": 50, "inverse_undefined": 100})
add("C23", stages=[S("h_c23.cpp", "asan", env={"ASAN_OPTIONS": "detect_leaks=1"}), S("h_c23.cpp", "release", shards=4)],
    technique="oracle monitor (GMP predicates, OpenSSL key check) on generated keys, corrupted keys and primality answers, under ASan/UBSan/LeakSanitizer",
    note="keys of 128..1024 bits with 8 exponents and full 2048-bit pairs; corruptions of every component; adversarial composites only where the test's error bound is negligible",
    rule="A case is one generated key pair with its corruptions, or one number put to the primality test. Distinct = distinct (size, exponent), modulus or number.",
    require={"poor_generated": 1, "strong_liars": 200, "generated": 100, "tdp_keys": 8, "corruptions": 2000, "primes_tested": 1000, "composites_tested": 3000, "openssl_checked": 20, "uses": 300, "rng_failures": 20, "copies_after_use": 50})
add("C24", stages=[S("h_c24.cpp", "asan", env={"ASAN_OPTIONS": "detect_leaks=1"}), S("h_c24.cpp", "release", shards=4)],
    technique="differential monitor against own encoders and OpenSSL on codecs and key files, exact-size guard-paged buffers, under ASan/UBSan/LeakSanitizer",
    note="dense lengths of Base64/PEM/DER, hostile texts against a reference decoder, keys of 256..2048 bits in every supported format in both directions; not exhaustive",
    rule="A case is one byte string or text through the Base64 codec, one DER element, one PEM block or one RSA key in one format. Distinct = distinct (form, size).",
    require={"b64_encoded": 200, "b64_decoded": 1000, "b64_malformed": 3000, "b64_small": 2000, "der_integers": 2000, "der_lengths": 500, "der_bitstrings": 500, "pem_read": 200, "pem_cuts": 1000, "keys_read": 500, "der_keys": 400, "pem_keys": 400, "openssl_reads": 50, "openssl_writes": 30, "malformed_keys": 500})
add("C25", stages=[S("h_c25.cpp", "asan"), S("h_c25.cpp", "release", shards=4, env={"VH_HUGE": "1"})],
    technique="reference monitor (naive search) with both buffers against unreadable pages, under ASan/UBSan",
    note="all texts/patterns over 2- and 3-letter alphabets up to the bound, structured near-miss searches beyond; not a proof for all lengths",
    rule="A case is one (text, pattern length) with all its patterns, or one structured (text, pattern) pair. Distinct = distinct text, or distinct pair of lengths.",
    require={"found": 20000, "absent": 20000, "found_later": 5000, "structured": 10000, "needles": 1000, "exhaustive_texts": 1000})
add("C16", stages=[S("h_c16.cpp", "asan", env={"ASAN_OPTIONS": "detect_leaks=1"}), S("h_c16.cpp", "release", shards=4),
                   S("h_c16.cpp", "fuzz", extra=("-DVH_FUZZ",), env={"ASAN_OPTIONS": "detect_leaks=1"}, shards=4)],
    technique="hostile and coverage-guided (libFuzzer) key texts under ASan/UBSan/LeakSanitizer; accepted objects checked with GMP against the numbers an own reader finds in the text",
    note="damaged, truncated, re-encoded, inconsistent and foreign keys of 128..3072 bits in six formats; not exhaustive. Inversion is required to work only for keys whose factors are prime",
    rule="A case is one text handed to the loaders (C interface and public classes). Distinct = distinct (format, size, kind of damage).",
    require={"c_loads": 10000, "c_accepted_private": 200, "c_accepted_public": 500, "api_loads": 800, "api_accepted_private": 50, "api_accepted_public": 50, "api_accepted_pool": 50, "api_refused": 500, "other_sizes": 8, "fuzzed": 20000, "cut_headers": 3000, "algorithms": 500})
SODIUM_CALLS = """crypto_generichash
    crypto_generichash_init
    crypto_generichash_update
    crypto_generichash_final
    crypto_generichash_blake2b
    crypto_generichash_blake2b_salt_personal
    crypto_generichash_blake2b_init
    crypto_generichash_blake2b_init_salt_personal
    crypto_generichash_blake2b_update
    crypto_generichash_blake2b_final
    crypto_hash_sha512
    crypto_hash_sha512_init
    crypto_hash_sha512_update
    crypto_hash_sha512_final
    crypto_stream_chacha20
    crypto_stream_chacha20_xor
    crypto_stream_chacha20_xor_ic
    crypto_stream_chacha20_ietf
    crypto_stream_chacha20_ietf_xor
    crypto_stream_chacha20_ietf_xor_ic
    crypto_aead_chacha20poly1305_ietf_encrypt
    crypto_aead_chacha20poly1305_ietf_decrypt
    crypto_aead_chacha20poly1305_ietf_encrypt_detached
    crypto_aead_chacha20poly1305_ietf_decrypt_detached""".split()
WIPE = tuple("-Wl,--wrap=" + x for x in SODIUM_CALLS)
add("C19", stages=[S(("h_c19.cpp", "golden_aez.c"), v, link=WIPE, shards=2, env={"LD_BIND_NOW": "1"}) for v in ("plain", "release", "debug", "clang", "nolock")],
    technique="memory-residue monitor: interposed allocator keeps what released blocks contained and operations run on a watched stack; both are searched for the secrets an oracle computes",
    note="ordinary heap for every operation, stack for cipher, PRF, MAC, PRG, wrapping and private trapdoor operations (generation included), in five build variants (-O0, -O1, -O3, clang, no memory locking); registers and swap are not observed",
    rule="A case is one operation on objects with fresh secrets, after which every released and live heap block and the stack were searched. Distinct = distinct (operation kind, size parameters).",
    require={"static_bytes": 100000, "ops": 10000, "released_blocks": 10000, "live_blocks": 5000, "stacks": 5000, "op_wrap": 500, "op_unwrap (forged)": 500, "op_Cipher decrypt (forged)": 200, "op_RCPrf constrain": 200, "op_TdpInverse invert": 10, "stacks_trapdoor": 100, "generations": 8})
add("C18", stages=[S(("h_c18.cpp", "golden_aez.c"), "asan", extra=("-DVH_NOSCAN",), link=WRAP),
                   S(("h_c18.cpp", "golden_aez.c"), "plain", link=WRAP, env={"LD_BIND_NOW": "1"}, shards=4),
                   S(("h_c18.cpp", "golden_aez.c"), "release", link=WRAP, env={"LD_BIND_NOW": "1", "VH_HUGE": "1"}, shards=4),
                   S(("h_c18.cpp", "golden_aez.c"), "nolock", link=WRAP, env={"LD_BIND_NOW": "1"}, shards=2)],
    technique="page-protection monitor (kernel memory map of every live secure block between calls), key-value and release monitor, search of ordinary memory, over random call histories; ASan/UBSan",
    note="random sessions over 24 kinds of key objects with failing calls, moves and erasures; single thread; protection needs the memory-lock build, the other clauses are also observed without it",
    rule="A case is one session or one swept kind; after every call every live secure block is checked.",
    require={"unusual_done": 100, "unusual_refused": 100, "sessions": 300, "quiescent_points": 10000, "protections_read": 30000, "contents_compared": 30000, "failing_calls": 500, "moves": 500, "dead_uses": 2000, "memory_scans": 500, "kinds_swept": 48, "buffers_erased": 500, "handed_over": 2000})

add("C03", stages=[S("h_c03.cpp", "asan", link=WRAP), S("h_c03.cpp", "plain", link=WRAP), S("h_c03.cpp", "release", link=WRAP, shards=4, env={"VH_HUGE": "1"}),
                   S("h_c03.cpp", "nolock", link=WRAP), S("h_c03.cpp", "debug", link=WRAP, shards=4), S("h_c03.cpp", "clang", link=WRAP, shards=4)],
    technique="observed and controlled random generator: byte accounting, replay, single-byte influence, spread and never-again monitors; threads and fork on the system generator; six build variants",
    note="every producer of random values; shows that values are exactly as fresh as the generator's output, whose own quality (libsodium, kernel) is trusted",
    rule="A case is one producer of random values (or buffer length, or key size) with all its draws. Distinct = distinct producer, length or generated key.",
    require={"flips": 5000, "spread_values": 5000, "values_never_seen_before": 5000, "thread_values": 1000, "child_values": 60, "key_pairs": 8, "small_key_pairs": 100, "buffer_lengths": 1000, "large_buffers": 20})

VALGRIND = {"VH_RUNNER": "valgrind -q --error-exitcode=99 --leak-check=full --errors-for-leak-kinds=definite --show-leak-kinds=definite --num-callers=20", "VH_STEPS": "2500"}
LEAK = {"ASAN_OPTIONS": "detect_leaks=1"}
add("C20", stages=[S(("h_c20.cpp", "golden_aez.c"), "asan", link=WRAP, env=LEAK), S(("h_c20.cpp", "golden_aez.c"), "asanrel", link=WRAP, env=LEAK, shards=4),
                   S(("h_c20.cpp", "golden_aez.c"), "release", link=WRAP, shards=4),
                   S(("h_c20.cpp", "golden_aez.c"), "plain", link=WRAP, shards=6, env=VALGRIND, timeout=250)],
    technique="hostile random sessions over every public operation under ASan/UBSan/LeakSanitizer and valgrind memcheck (uninitialised values), with read-only inputs and exact outputs against guard pages",
    note="random arguments and histories; not exhaustive",
    rule="A case is one operation that was seen to return, or seen to throw, under the sanitizers. Evaluations count those; calls_returned and calls_thrown count the calls.",
    require={"calls_returned": 20000, "calls_thrown": 5000, "guarded_inputs": 5000, "guarded_outputs": 3000, "moves": 500, "clearances": 20, "dead_keys_given": 300, "restarts": 6})

add("C21", stages=[S(("h_c21.cpp", "golden_aez.c"), "tsan", shards=4), S(("h_c21.cpp", "golden_aez.c"), "release", shards=4), S(("h_c21.cpp", "golden_aez.c"), "nolock", shards=2), S(("h_c21.cpp", "golden_aez.c"), "asan", shards=2)],
    technique="ThreadSanitizer on concurrent deterministic workloads, and comparison of every thread's results with a single-threaded repetition",
    note="17 workloads over all kinds of objects, 2-10 threads, in step and apart, first uses in threads; interleavings are sampled by the scheduler, libsodium itself is not instrumented",
    rule="A case is one workload with one seed run in a thread among others and repeated alone. Distinct = distinct (workload, seed).",
    require={"results_compared": 2000, "overlapping_operations": 500, "rounds_in_step": 8, "rounds_apart": 4})

HEAP = tuple("-Wl,--wrap=" + x for x in ("malloc", "calloc", "realloc", "free"))
add("C27", stages=[S(("h_c27.cpp", "golden_aez.c"), "asan", link=WRAP + HEAP, env=LEAK), S(("h_c27.cpp", "golden_aez.c"), "release", link=WRAP + HEAP, shards=4),
                   S(("h_c27.cpp", "golden_aez.c"), "nolock", link=WRAP + HEAP, shards=4)],
    technique="fault injection: every allocation of an operation (operator new, C heap, protected memory) and every change of the protection of key memory fails in turn; outcome, locking, retry and memory-account monitors under ASan/UBSan",
    note="all allocation sites of short operations, the first, the last and sampled ones of long RSA operations; one failure at a time; allocations inside libsodium and libstdc++'s exception machinery are not failed",
    rule="A case is one operation with its k-th allocation failing. Distinct = distinct (operation, k).",
    require={"faults": 5000, "reported": 4000, "retries": 4000, "fault_cpp": 1000, "fault_c": 2000, "fault_secure": 500, "protections_read": 1000, "protection_faults": 5000, "fault_lock": 3000, "fault_unlock": 2000})

add("C26", stages=[S(("h_c26.cpp", "fakerelic/relic.c"), "asan", extra=("-DVH_PPKE",), env=LEAK), S(("h_c26.cpp", "fakerelic/relic.c"), "release", extra=("-DVH_PPKE",), shards=4),
                   S(("h_c26.cpp", "fakerelic/relic.c"), "clang", extra=("-DVH_PPKE",), shards=2)],
    technique="model monitor (set of punctured tags) over random histories of punctures, encryptions and decryptions of the scheme's own code on a stand-in pairing group, under ASan/UBSan",
    note="the pairing library is absent: its groups are replaced by an algebraically equivalent stand-in, so correctness of the scheme's code is observed, hardness is not; keys with missing or foreign shares must not decrypt",
    rule="A case is one ciphertext tried against one key state of one session, or one pair of scalars through all group operations.",
    assumptions=[SODIUM, SHARED_FILE, "the real pairing library implements groups with the algebra of the stand-in"],
    require={"sessions": 60, "punctures": 300, "decrypted": 500, "refused": 100, "useless_keys": 300, "relabelled": 200, "apart_together": 30, "decrypted_together": 500, "refused_together": 100, "public_encryptions": 300, "scalars": 2000, "elements": 1000, "reserved_tags": 60, "long_histories": 2, "late_decryptions": 50, "punctures_left_out": 20, "counts": 100})

START = tuple("-Wl,--wrap=" + x for x in ("sodium_init", "sodium_runtime_has_aesni", "sodium_runtime_has_neon"))
add("C28", stages=[S(("h_c28.cpp", "golden_aez.c"), "asan", link=START, env=LEAK), S(("h_c28.cpp", "golden_aez.c"), "release", link=START, shards=4),
                   S(("h_c28.cpp", "golden_aez.c"), "nolock", link=START, shards=2), S(("h_c28.cpp", "golden_aez.c"), "clang", link=START, shards=2),
                   S(("h_c28.cpp", "golden_aez.c", "fakerelic/relic.c"), "asan", link=START, extra=("-DVH_PPKE",), env=LEAK, shards=2)],
    technique="history monitor over random sequences of initialisations and clean-ups with faults injected into libsodium's start and its report of the processor; results of objects of every kind against independent oracles, under ASan/UBSan/LSan",
    note="sequences of hundreds of starts and stops per process, objects living across them; absence of the instructions is what libsodium is made to report, the processor here has them",
    rule="A case is one use of one object in one period between initialisations, or one call while the permutation is unavailable. Distinct = distinct (kind, number of restarts survived).",
    require={"starts": 300, "stops": 100, "failed_starts": 20, "uses": 5000, "uses_of_older_objects": 2000, "refused": 2000, "periods_without_aes": 200, "permutations": 1000, "misuses": 50, "early": 8})

T = {
 "C01": "reference monitor on API calls (OpenSSL recomputation) under ASan/UBSan",
 "C02": "mutation stress with rejection monitor under ASan/UBSan",
}
NOTE = {
 "C01": "held on the observed executions: every length up to the bound, arrays, histories; assumes OpenSSL is right",
 "C02": "every bit, truncation, extension and splice of the observed ciphertexts; not a proof of unforgeability",
}
# the same monitors on a clang -O2 build of the library
for _i in ("C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C22", "C23", "C24", "C25"):
    _s = CHECKS[_i]["stages"]
    if not any(x["unit"][1] == "clang" for x in _s):
        _h, _v, _x, _l = _s[0]["unit"]
        _s.append(S(_h, "clang", extra=_x, link=_l, shards=2))
for _i in CHECKS:
    CHECKS[_i].setdefault("technique", T.get(_i))
    CHECKS[_i].setdefault("note", NOTE.get(_i))
NOT_APPLICABLE = {}
FIX_COMMITS = []
