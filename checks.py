"""The registered checks: which workloads, under which instrumentation, decide each property."""
import os
SAN = ["-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
FLAVORS = {
    "plain": {"cxx": ["-O2", "-g0"]},
    "asan": {"cxx": SAN, "limit_scale": 3,
             "env": {"ASAN_OPTIONS": "halt_on_error=1:detect_leaks=0:exitcode=77:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=0",
                     "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:exitcode=78"}},
    "tsan": {"cxx": ["-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-fsanitize=thread"], "limit_scale": 4,
             "env": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=76:second_deadlock_stack=1"}},
    "memcheck": {"cxx": ["-O2", "-gline-tables-only"], "limit_scale": 5,
                 "wrap": ["valgrind", "-q", "--tool=memcheck", "--vgdb=no", "--exit-on-first-error=yes", "--error-exitcode=79",
                          "--leak-check=no", "--log-file=%LOG%.%p", "--child-silent-after-fork=yes"]},
}
FLAVORS["evolve"] = dict(FLAVORS["asan"], cxx=SAN + ["-fsanitize-coverage=inline-8bit-counters,trace-cmp",
    "-fsanitize-coverage-ignorelist=" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "coverage.ignore")])
FLAVORS["cover"] = {"cxx": ["-O2", "-g0"] + FLAVORS["evolve"]["cxx"][-2:]}   # without sanitizers, for slow operations
FLAVORS["native"] = {"cxx": FLAVORS["memcheck"]["cxx"]}   # memcheck's program, run directly
for _o in ("O1", "O3", "Os"):
    FLAVORS["memcheck-" + _o] = dict(FLAVORS["memcheck"], cxx=["-" + _o, "-gline-tables-only"])
CHECKS = {}
CHECKS_EXTRA = {}  # further sources of a workload


def check(prop, runs, rule, technique, note, assumptions=(), level="exploration"):
    CHECKS[prop] = {"runs": runs, "rule": rule, "technique": technique, "level_note": note,
                    "assumptions": list(assumptions), "level": level}


def run(harness, flavor="plain", **kw):
    d = {"harness": harness, "flavor": flavor}
    d.update(kw)
    return d


check("C01", [run("c01_digests")],
      "Messages of generated content and length fed in generated pieces (all lengths up to four blocks, random longer ones up to 16 MiB, "
      "messages past 2^32 bytes for one hash of each implementation and past 2^29 for the others); a case is one message, distinct by hash, length within the block, number of pieces and first cut.",
      "differential runtime monitor against OpenSSL digests",
      "Every observed digest equals OpenSSL's on the workload; trusts OpenSSL.")
check("C02", [run("c02_histories")],
      "Random histories of add/read/copy/assign/construct/drop over sets of hash objects of one type, read back against the accumulated bytes "
      "through OpenSSL; distinct by hash, position in the block and the last operations.",
      "history monitor over hash objects with an OpenSSL-backed model", "All reads of all observed histories agree with the model; trusts OpenSSL.")
check("C03", [run("c03_named")],
      "Messages in pieces through every accepted name, single additions of 16 to 64 MiB and past 2^32 bytes; mutated names, and all names one edit away from an accepted one, that must be refused; distinct by name and length within the block, or by refused name.",
      "differential runtime monitor against OpenSSL", "Holds on all observed names and messages; trusts OpenSSL.")
check("C04", [run("c04_crc")],
      "Random data in random pieces, all two-byte messages, long messages, and data that forces the 32 bits of state to special values before further pieces; distinct by length, alignment, number of pieces and forced state.",
      "differential runtime monitor against a bitwise CRC model", "Holds on all observed messages.")
check("C05", [run("c05_hmac")],
      "All key lengths up to three blocks and random longer ones with random messages, keys and texts of every order of size to 64 MiB, keys and texts that share or overlap memory, for all ten hashes; distinct by hash, key-length class and lengths within the block.",
      "differential runtime monitor against OpenSSL HMAC", "Holds on all observed inputs; trusts OpenSSL.")
check("C06", [run("c06_hkdf")],
      "Random extract/expand/label inputs (all output sizes up to 255 hash lengths) and whole TLS 1.3 key schedules with key updates, also starting from given secrets of every form with contexts of other sizes than a hash's and with inputs that share memory; distinct by hash, output blocks, label and context size, or role.",
      "differential runtime monitor against an RFC 5869/8446 reference on OpenSSL HMAC", "Holds on all observed schedules; trusts OpenSSL's HMAC and the reference schedule.")
check("C07", [run("c07_aes")],
      "Random, single-bit and structured keys and blocks through both entry points, and every wrong key size up to 600 bytes and larger ones in guard-paged buffers; distinct by first key and block byte, alignment, or size.",
      "differential runtime monitor against OpenSSL AES, guard pages", "Holds on all observed blocks and key sizes; trusts OpenSSL.")
check("C08", [run("c08_gcm")],
      "Message sequences with random keys, IV sizes, texts and associated data; message numbers around every bit boundary of the 64-bit counter; objects copied, moved and assigned in the middle of a sequence; counter blocks solved (in GF(2^128)) to wrap; 70000-message sequences; inputs past 2^32 bits; keys related to recent ones; texts and associated data sharing memory. "
      "Distinct by key size, IV size class, lengths within the block, message number.",
      "differential runtime monitor against an SP 800-38D model (itself checked against OpenSSL)", "Holds on all observed messages; trusts OpenSSL's AES/GCM.",
      ["message numbers beyond 2^17 are reached by setting the object's counter when that member exists and is seen to behave as the message number"])
check("C09", [run("c09_gcm_auth")],
      "A channel with an adversary who flips, truncates, extends, moves boundaries, splices, replays and reorders; every single bit and prefix of a message, and channels at message numbers around the bit boundaries of the counter; associated data of every order of size past 2^20; objects copied, moved and assigned in between; distinct by attack and lengths within the block.",
      "history monitor of an AEAD channel against a model of what must be accepted", "Every observed presentation was judged correctly.",
      ["every Decrypt call, also a failing one, consumes one position of the sequence", "a random forgery is accepted with probability 2^-128"])
check("C10", [run("c10_ctr")],
      "Message sequences with IVs biased to counter wraps, message numbers around bit boundaries, long messages, objects copied, moved and assigned in between, and all wrong sizes; distinct by key size, length, message number and low IV bytes.",
      "differential runtime monitor against a CTR model on OpenSSL AES", "Holds on all observed messages; trusts OpenSSL's AES.")
check("C11", [run("c11_chacha")],
      "Streams in random pieces through both directions, streams past 2^24 blocks, objects copied, moved or assigned in between, and all wrong sizes; distinct by offset in the block and piece length.",
      "differential runtime monitor against OpenSSL ChaCha20", "Holds on all observed streams; trusts OpenSSL.")
check("C12", [run("c12_x25519")],
      "Structured and random scalars with low-order, non-canonical, top-bit, small, limb-pattern and ladder-edge coordinates, key agreements with generated keys and the RFC's iteration; distinct by kind of coordinate and the scalar's and coordinate's special bits.",
      "differential runtime monitor against OpenSSL X25519, cross-checked by a GMP ladder", "Holds on all observed inputs; trusts OpenSSL/GMP.")
check("C13", [run("c13_field")],
      "All pairs of edge representations, random pairs biased to multiples of p, the 256-bit limit and limb patterns, operation chains, and operands that are one object, each followed by GMP; distinct by region of both operands, carry/borrow and low bits, or recent operations.",
      "differential runtime monitor against GMP", "Holds on all observed operand pairs; trusts GMP.")
check("C14", [run("c14_bignum")],
      "All operations on related and limb-patterned operands of eleven widths, conversions and slices between widths, reductions by moduli of all sizes, all pairs of limb patterns of one to three limbs, and one object used in several places of an expression; distinct by width, operand bit lengths and carry/borrow/equality.",
      "differential runtime monitor against GMP, guard pages", "Holds on all observed operands; trusts GMP.",
      ["widths that are a multiple of 32 bits (the representation's word size)"])
check("C15", [run("c15_mont")],
      "Edge and random odd moduli of nine widths with operands below and above the modulus (also such that the Montgomery form is an edge value), small exponents, powers of two up to the width and full-width ones, all small moduli and operands, and families of related moduli used in turn through fresh, copied and assigned objects; distinct by width, bit lengths, wrap and low bits.",
      "differential runtime monitor against GMP", "Holds on all observed moduli and operands; trusts GMP.")
check("C16", [run("c16_prime")],
      "All integers of windows from zero, around powers of two and at random; primes of special form; strong pseudoprimes to up to 110 (thorough: 140) leading prime bases, Carmichael numbers, squares, close products; generated primes of 32 to 1024 bits (thorough: 2048), plain and strict, also from an injected random source. Distinct by kind, bit length and low byte.",
      "runtime monitor of verdicts against GMP and against composites constructed by their factors", "Every observed verdict and generated prime was right; trusts GMP's primality test (exact below 2^64).",
      ["widths that are a multiple of 32 bits, up to 4096"])
check("C17", [run("c17_rsa")],
      "Messages (0, 1, n-1, multiples of the factors, powers of two, random) through both operations of 51 pooled keys of 512-4096 bits in widths that fit exactly or leave room, fresh small keys of 4 to 500 bits with arbitrary exponents, and private exponents other than the least (shorter, and longer than the modulus), and families of related keys used in turn; distinct by width and bit lengths of modulus, exponent and message.",
      "differential runtime monitor against GMP", "Holds on all observed keys and messages; trusts GMP.")
CHECKS_EXTRA["c17_rsa"] = ["rsabox"]
check("C18", [run("c18_sign")],
      "Signatures by keys of 512-4096 bits (byte-aligned and not; small, usual and huge public exponents, also private exponents of every multiple that fits) over generated messages in six schemes, half aimed at leading zero bytes; messages of every order of size to 16 MiB through key objects; produced here, by OpenSSL and by the reference signer. Distinct by signer, scheme, key size, width and message size class.",
      "interoperability monitor against OpenSSL and an RFC 8017 reference", "Every observed signature had modulus length and was accepted by all verifiers; trusts GMP/OpenSSL.")
CHECKS_EXTRA["c19_evolve"] = ["evolve", "rsabox"]
check("C19", [run("c19_forge"), run("c19_evolve", "cover")],
      "Modified, resized, shifted, special-valued, wrong-scheme and wrong-key signatures, also under keys sharing the modulus, exponent or low bits; every kind of wrong v1.5 block and PSS encoding signed with the real private key, and every single byte of the block changed; cube roots for e=3; keys too small for the scheme, of every such size; all 65536 scheme numbers; encodings evolved by the coverage they reach in the verifier. Distinct by attack, scheme and key size.",
      "runtime monitor of verdicts against an RFC 8017 reference verifier under an adversarial workload, guard pages", "Every observed verdict agreed with the reference verifier.")
check("C20", [run("c20_encodings")],
      "Blocks of all sizes from the minimum (and below it) for ten hashes and messages across all DER length forms, to past 2^32 bytes; masks up to past 2^16 hash blocks; PSS encodings and recovered salts for salt lengths 0 to 200 and all sizes from the minimum; inputs related to recent ones or sharing memory. Distinct by hash and sizes.",
      "differential runtime monitor against an RFC 8017 reference", "Holds on all observed inputs; trusts OpenSSL's digests.")
CHECKS_EXTRA["c18_sign"] = CHECKS_EXTRA["c19_forge"] = ["rsabox"]
check("C21", [run("c21_base64")],
      "Byte strings of every length up to 1000 and random longer ones up to 2^26 bytes (thorough: past 2^31) in all alphabets and options, all two-byte strings, arbitrary and corrupted texts through the decoder; distinct by options and length.",
      "differential runtime monitor against a bit-level reference and OpenSSL, guard pages", "Holds on all observed data and texts.")
check("C22", [run("c22_parse")],
      "Certificates built from random descriptions (v1/v3, serials up to 160 bits, names of 13 attributes in three string types, both time types over 0000-9999, RSA keys of 512-4096 bits and other key types, extensions) in DER, PEM and bundles; NUL and other control bytes in names, common names up to 16 KiB, host names of all fashions and up to 200 relatives of each (none may match), several PEM items in one text, bundles of up to 2500 certificates; every month boundary from 1950 to 2150; 51 private keys. Distinct by form, version, key kind, time types, serial length, attributes and year.",
      "differential runtime monitor: parser against the generating description, which OpenSSL's parser cross-checks; guard pages", "Holds on all observed certificates and keys.",
      ["names use the supported attributes once each, as PrintableString, UTF8String or IA5String", "RSA exponents of at least 17 (smaller ones are refused with an exception)"])
check("C24", [run("c24_trust")],
      "Random PKIs: chains of depth 0-4 with one of twelve faults at any link, shuffled, with noise, missing links and boundary times; impostors of roots and intermediates; several certificates of one name, valid and not; names that differ in one byte, case or order; times to past 2^32 seconds; histories of one store with replaced roots (other keys, other validity); cycles; random certificate graphs; crowds of up to 140 certificates and chains of up to 70. After each verdict the trust store is compared with what it held. Distinct by scenario, list size, fault and verdict.",
      "runtime monitor of verdicts against a chain model on a GMP/OpenSSL signature reference", "Every observed verdict agreed with the model and the store never changed.",
      ["trusted roots have distinct subject names", "names are compared as the parser's text form"])
CHECKS_EXTRA["c23_evolve"] = ["evolve"]
check("C23", [run("c23_hostile", "asan"), run("c23_evolve", "evolve")],
      "Structure-aware mutations (tags, lengths, elements, integers, dates, bodies), all truncations, odd and oversized key values, mutated PEM texts and bundles, starting from built and system certificates; whatever parses is verified, asked for trust and used. Inputs lie in exactly sized allocations or before an inaccessible page. Distinct by kind of input and mutation, outcome and size.",
      "AddressSanitizer + UndefinedBehaviorSanitizer, guard pages and a CPU-time watchdog under structure-aware hostile input", "No observed input caused a memory error, undefined behaviour, a non-standard exception or a run past the CPU limit.")
check("C25", [run("c25_random")],
      "Buffers of all four widths and every length up to 330 against inaccessible pages and canaries; large buffers of every order of size up to 4 MiB; mixed consumption histories in one stream, in threads, in forked processes (same memory) and in executed ones (also with clocks, process id and addresses frozen), up to eight compared position by position; Berlekamp-Massey on 44000-bit sequences; ranks over GF(2) of the places and bits of buffers; 32-bit birthdays, bit, pair and distance frequencies; relations of well-known generators in several views of the output; the first values of 2^18 threads and 2^24 values of one. Distinct by width and length, or by population.",
      "runtime monitors over recorded random streams (coverage of every bit, distinctness across processes, linear complexity, frequencies), guard pages",
      "No observed stream repeated, stuck, correlated or was continued identically from a copied process state; statistical limits are set for false alarms below one in ten million runs.",
      ["unpredictability is judged by copied process state, linear complexity and statistics, not by proof"])
check("C26", [run("c26_threads", "tsan")],
      "Fresh processes in which 2-8 threads start together and call 50 operations covering the whole interface on objects of their own (each operation against itself with different and with the same inputs, copies of one object, and random mixtures with random pauses; small and large inputs); every result is compared with the same call made alone afterwards. Distinct by the pair of operations that met.",
      "ThreadSanitizer plus a result monitor (concurrent against sequential) over a whole-interface workload",
      "No data race was reported and no result differed in the observed interleavings.",
      ["the process-wide trust store and the test injection list (testValues) are shared objects and not used concurrently"])
CHECKS_EXTRA["c26_threads"] = ["apiall", "api_hash", "api_num", "api_x509", "rsabox"]
check("C28", [run("c28_memory", "asan"), run("c28_memory", "memcheck", scale={"quick": 0.2, "thorough": 0.05}), run("c28_memory", "native")],
      "Calls of 52 operations covering the whole interface with random, empty, unaligned, boundary-length and large inputs in exactly sized buffers, every length up to a few blocks for the sized ones, in random sequences; each call repeated with fresh heap memory and stack filled with different patterns and buffers at other offsets. Distinct by operation, result length and buffer offset.",
      "AddressSanitizer + UndefinedBehaviorSanitizer; memcheck with definedness checks on results; filling, counting allocator with result comparison",
      "No memory error, undefined behaviour, leak, changed input or dependence on prior memory was observed.")
CHECKS_EXTRA["c28_memory"] = ["apiall", "api_hash", "api_num", "api_x509", "rsabox"]
check("C27", [run("c27_secrets", "memcheck")] + [run("c27_secrets", "memcheck-" + o, tier="thorough", scale={"thorough": 0.2}) for o in ("O1", "O3", "Os")],
      "Secret keys, texts, messages, scalars and exponents (random and structured; RSA in widths to 4096 bits) through every listed primitive, marked undefined; memcheck reports any branch or address derived from them, and the outputs are seen to depend on them. Distinct by primitive, sizes and verdict.",
      "memcheck with secrets marked undefined (taint tracking of branches and addresses in the optimised machine code)",
      "No branch or address depended on a secret in the observed executions of the code compiled by clang 18 at -O2 (thorough: also -O1, -O3, -Os).",
      ["counter blocks of GCM and CTR are public", "the instrumented code is what this compiler makes of the sources"])
