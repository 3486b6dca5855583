#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Every digest equals its standard's value, however the message is fed",
  "For every message, MD5, SHA-1, SHA-224/256/384/512 and SHA3-224/256/384/512 return exactly the digest their standards define. "
  "The result depends only on the concatenation of the bytes added, never on how they were split over calls, on their alignment, or on the message being very long (past 2^29 or 2^32 bytes).",
  ["inputs", "histories"], "all messages of 0 to several GiB, all ways to split them into successive additions (including empty ones)",
  "The tests hash a dozen short literals, mostly in one call; block-boundary lengths, split positions inside a block and 64-bit length fields are unbounded and never sampled.",
  ["src/md5.cpp", "src/sha1.cpp", "src/sha2.cpp", "src/sha3.cpp", "include/caligo/md5.h", "include/caligo/sha1.h", "include/caligo/sha2.h", "include/caligo/sha3.h"],
  [("partial-block buffering in add()", "src/sha2.cpp, src/sha1.cpp, src/md5.cpp add()"), ("padding and length encoding", "operator std::array in each source"), ("round functions", "processChunk() in each source")],
  ["digest returned by the hash object"])

p("C02", "Reading a digest never disturbs it; copies and textual forms agree",
  "Reading a hash object's digest at any moment returns the digest of everything added so far and leaves the object unchanged, so it can be read again or fed further data with the right result. "
  "A copy of a hash object evolves independently of the original, and the binary digest, the array accessor, the lower-case hexadecimal text and construction from several pieces at once all denote the same digest with the documented size.",
  ["histories"], "all interleavings of add, read (any form), copy and assign on any number of objects of every hash type including CRC-32",
  "The tests read a digest once at the end; histories that read early, continue, copy mid-block or use the text form of truncated hashes are not explored.",
  ["include/caligo/md5.h", "include/caligo/sha1.h", "include/caligo/sha2.h", "include/caligo/sha3.h", "include/caligo/crc.h", "src/md5.cpp", "src/sha1.cpp", "src/sha2.cpp", "src/sha3.cpp", "src/crc.cpp"],
  [("finalisation works on a copy of the object", "operator std::array() const in each source"), ("hex conversion", "operator std::string() const in each source")],
  ["digest/hex returned by the object", "the object's later digests"],
  [("chunk buffer, chaining state, message length", "bytes not yet compressed, compression state, total length", "each hash header")])

p("C03", "A hash selected by name at run time is exactly the named hash",
  "A hash created from a name (md5, sha/sha1, sha224..sha512 and sha2-224..sha2-512, sha3-224..sha3-512) behaves as that algorithm in digest, text, size and identifier, for any data in any pieces. "
  "Every other name is rejected with an exception.",
  ["inputs", "configurations"], "all name strings, all messages and splits",
  "No test instantiates the run-time selected hash at all.",
  ["src/hash.cpp", "include/caligo/hash.h"],
  [("name dispatch", "src/hash.cpp Hash::Impl::Impl"), ("forwarding to the selected implementation", "src/hash.cpp std::visit calls")],
  ["digest, text, size, identifier and exceptions of the run-time hash"])

p("C04", "CRC-32 equals the IEEE 802.3 checksum for any data in any pieces",
  "For every byte sequence, fed in any pieces, the CRC-32 object yields the IEEE 802.3 (zlib) checksum in big-endian byte order.",
  ["inputs", "histories"], "all byte sequences and all splits",
  "Tests check three literals in one call each; a wrong table entry or a state kept wrongly between calls needs other data.",
  ["src/crc.cpp", "include/caligo/crc.h"], [("256-entry table and byte-wise update", "src/crc.cpp")], ["CRC32 digest and text"])

p("C05", "HMAC is RFC 2104 HMAC for every hash, key and message",
  "For every supported hash, every key of any length (empty, shorter than, equal to or longer than the hash's block) and every message, HMAC returns the RFC 2104 / FIPS 198 value.",
  ["inputs", "configurations"], "all hashes x all keys x all messages",
  "One test vector with SHA-256 and a 20-byte key exists; block sizes of other hashes and long keys are not sampled.",
  ["include/caligo/hkdf.h"], [("key padding/reduction to one hash block", "include/caligo/hkdf.h HMAC"), ("inner and outer hash", "include/caligo/hkdf.h HMAC")], ["HMAC result"])

p("C06", "HKDF and the TLS 1.3 key schedule match RFC 5869 and RFC 8446",
  "For every input, HKDF extract and expand return the RFC 5869 values, and label expansion, handshake and master secrets, client/server handshake and application traffic secrets, traffic keys and IVs, finished keys, updated secrets, exporter and resumption secrets are exactly those of RFC 8446 section 7. "
  "In particular every output has the requested length and distinct roles (client/server, handshake/application) get their own label.",
  ["inputs", "configurations"], "all secrets, salts, labels up to 249 bytes, contexts up to 255 bytes, output lengths up to 255 hash lengths, SHA-256 and SHA-384 (and other hashes), AES-128 and AES-256",
  "Tests run one published handshake trace with one hash; output lengths over several blocks, other hashes and the update/exporter/resumption secrets are never exercised.",
  ["include/caligo/hkdf.h", "include/caligo/key_iv_pair.h"], [("expand loop", "HKDF_Expand"), ("label construction", "HKDF_Expand_Label"), ("schedule", "secret<>, HKDF_HandshakeSecret, HKDF_MasterSecret, HKDF_UpdateSecret, exporter_master, resumption_master")], ["derived bytes"])

p("C07", "AES-128/256 block encryption is FIPS 197; wrong key sizes are refused",
  "For every 16-byte block and every key of the right size, AES-128 and AES-256 return the FIPS 197 ciphertext block. "
  "A key of any other size is refused with an exception and is never silently padded, truncated or read out of bounds.",
  ["inputs"], "all 2^128 / 2^256 keys, all blocks, all key lengths",
  "Two known-answer vectors exist; wrong-size keys are not tested and are undefined behaviour if not refused.",
  ["src/aes.cpp", "include/caligo/aes.h"], [("key schedule", "src/aes.cpp AesKeySchedule constructors"), ("rounds", "include/caligo/aes.h AesEncrypt")], ["cipher block", "exception"])

p("C08", "GCM encryption is SP 800-38D with a fresh nonce for every message",
  "For every key, IV of 8, 12 or more bytes, plaintext and associated data, the n-th message encrypted by an object equals AES-GCM of NIST SP 800-38D with the message number n (from 0) XORed, as a big-endian 64-bit value, into bytes 4 to 11 of the 12-byte nonce (for other IV sizes, of the derived initial counter block). "
  "Ciphertexts have the plaintext's length and the counter never repeats or wraps early, so no two messages share a nonce.",
  ["inputs", "histories"], "all keys, IV lengths, plaintext and AAD lengths, message histories including message numbers beyond 2^8, 2^16 and 2^32 and counter-block carries",
  "Tests use a handful of NIST vectors with message number zero; message sequences, counter carries, long data and unusual lengths are not reached.",
  ["include/caligo/gcm.h", "include/caligo/ghash.h", "include/caligo/aes.h"],
  [("per-message nonce", "include/caligo/gcm.h Encrypt"), ("32-bit block counter", "ctr_inc"), ("GHASH", "ghash, include/caligo/ghash.h"), ("IV hashing", "GCM constructor")], ["ciphertext and tag"],
  [("message_counter", "number of messages processed", "include/caligo/gcm.h")])

p("C09", "GCM decryption accepts exactly the authentic message expected next",
  "Decryption succeeds and returns the original plaintext if and only if ciphertext, associated data, tag, key, IV and position in the message sequence are exactly those produced by the encryptor. "
  "Any flipped bit, truncation, extension, moved boundary between data and associated data, replay or reordering is reported as not authentic, and authentic messages presented in order are always accepted. Every decryption attempt, also a failing one, uses up one position of the sequence.",
  ["inputs", "histories"], "all messages and all modifications, replays, drops and reorderings of the sequence",
  "Tests check a few vectors and no modification of a message; authenticity quantifies over all modifications.",
  ["include/caligo/gcm.h"], [("tag recomputation and comparison", "Decrypt, calculate_tag"), ("sequence number in nonce", "message_counter")], ["accept/reject flag and plaintext"],
  [("message_counter", "sequence position", "include/caligo/gcm.h")])

p("C10", "AES-CTR produces the counter-mode keystream and decrypts its own output",
  "For every 16-byte IV, the i-th block (from 1) of the n-th message (from 0) processed by a CTR object is XORed with the AES encryption of the IV with n XORed big-endian into bytes 4 to 11 and its last 32 bits advanced by i modulo 2^32. "
  "Decryption by a second object with the same key and IV restores every message in order, of any length, and any other key or IV size is refused with an exception.",
  ["inputs", "histories"], "all keys, IVs, message lengths and message sequences",
  "No test uses counter mode at all.",
  ["include/caligo/ctr.h"], [("keystream generation", "CTR::GenerateKeystream"), ("counter increment", "CTR::ctr_inc")], ["data transformed in place", "exception"],
  [("message_counter", "messages processed", "include/caligo/ctr.h")])

p("C11", "ChaCha20 output is RFC 8439's keystream at every offset of the stream",
  "For every 32-byte key and 12-byte nonce, successive encrypt or decrypt calls of any sizes on one object XOR the data with consecutive bytes of the RFC 8439 ChaCha20 keystream starting at block counter 1. "
  "Splitting data over calls never changes the result, and any other key or nonce size is refused with an exception.",
  ["inputs", "histories"], "all keys, nonces, stream lengths over many blocks and all splits into calls",
  "Tests use two short streams in one call each.",
  ["include/caligo/chacha20.h"], [("block function", "GenerateBlock"), ("buffer offset carried between calls", "Encrypt/Decrypt")], ["data transformed in place", "exception"],
  [("buffer/offset/state[12]", "keystream position", "include/caligo/chacha20.h")])

p("C12", "X25519 computes the RFC 7748 function for every scalar and u-coordinate",
  "For every 32-byte scalar and every 32-byte u-coordinate (including non-canonical values, values with the top bit set, and low-order points) the result is the RFC 7748 X25519 output in canonical form. "
  "Hence two parties always derive the same shared secret, and the private-key generator always returns a correctly clamped scalar.",
  ["inputs"], "all 2^256 scalars x all 2^256 u-coordinates",
  "Three RFC vectors are tested (one is disabled); carry and reduction corner cases have negligible probability under random sampling of literals.",
  ["include/caligo/x25519.h"], [("Montgomery ladder", "X25519"), ("field arithmetic", "ec_value"), ("clamping", "ec_value::normalize")], ["returned u-coordinate"])

p("C13", "Curve25519 field arithmetic is exact modulo 2^255-19 for all 256-bit operands",
  "Addition, subtraction, multiplication (by a field element and by a 32-bit factor), squaring, inversion, reduction and comparisons of field elements agree with integer arithmetic modulo 2^255-19 for every pair of 256-bit representations, reduced or not. "
  "Full reduction always yields the canonical representative, and equality, inequality and ordering compare residues, not representations.",
  ["inputs"], "all pairs of 256-bit operands, in particular those near multiples of the modulus and of 2^256",
  "Tests sample about twenty literal operand pairs; the failing cases of carry handling have probability around 2^-200 for random operands.",
  ["include/caligo/x25519.h", "include/caligo/bignum.h"], [("carry folding by 38", "ec_value operators"), ("conditional subtraction", "ec_value::applyModulus")], ["field element results"])

p("C14", "Fixed-width big integers agree with integer arithmetic modulo 2^width",
  "Addition and subtraction (with their carry/borrow), multiplication, squaring, word and bit shifts, bit access, slicing, width conversion, byte import/export, comparison, conditional swap, text form and reduction by a non-zero modulus agree with exact integer arithmetic for every operand. "
  "The carry or borrow reported is set exactly when the exact result does not fit.",
  ["inputs", "configurations"], "all operands of widths that are multiples of 32 bits; any non-zero modulus no wider than the operand",
  "A few literals at one width are tested; carries through all words and moduli with leading zero bits are not.",
  ["include/caligo/bignum.h"], [("schoolbook arithmetic", "bignum operators"), ("shift-subtract reduction", "bignum::naive_reduce")], ["big integer results"])

p("C15", "Montgomery arithmetic equals modular arithmetic for every odd modulus",
  "For every odd modulus and every operand (also operands not smaller than the modulus), converting into Montgomery form, adding, multiplying, squaring, raising to any exponent and converting back gives the canonical residue that exact modular arithmetic gives.",
  ["inputs", "configurations"], "all odd moduli greater than 1 of any magnitude within the width, all operands and exponents",
  "Tests use one modulus and expressions whose value is one; additions that carry, exponents other than 65537 and residues equal to zero are not sampled.",
  ["include/caligo/mont.h"], [("REDC and its final subtraction", "MontgomeryState::REDC"), ("set-up of R^2 mod N and -1/N", "MontgomeryState constructor"), ("exponentiation", "MontgomeryValue::exp")], ["converted-back results"])

p("C16", "Primality testing never misjudges; generated primes are prime and full width",
  "Every prime is recognised as prime and every composite, including Carmichael numbers, strong pseudoprimes to small bases, squares and products of close primes, is reported composite. "
  "Generated random primes are prime, odd and have exactly the requested bit length (with the two top bits set in the strict variant).",
  ["inputs", "histories"], "all integers of widths that are multiples of 32 bits up to 4096; all random streams feeding the generator",
  "Tests sample about fifteen integers and products of generated primes.",
  ["include/caligo/random_prime.h", "include/caligo/mont.h"], [("Miller-Rabin with 1000 bases", "miller_rabin_is_probably_prime"), ("candidate shaping", "random_prime")], ["primality verdict, generated prime"])

p("C17", "RSA encryption and decryption are exact and inverse for every key size",
  "For every RSA key whose modulus fits the chosen width (also when it has fewer bits than the width) and every message smaller than the modulus, the public operation returns m^e mod n and the private operation c^d mod n exactly, for any public exponent. "
  "Hence each undoes the other.",
  ["inputs", "configurations"], "all keys up to the template width, all public exponents, all messages including 0, 1 and n-1",
  "Four literal keys with one message each are tested.",
  ["include/caligo/rsa.h", "include/caligo/mont.h"], [("modular exponentiation", "rsaep / rsadp")], ["big integer results"])

p("C18", "RSA signatures made verify, interoperate, and always have modulus length",
  "For every RSA key, message and scheme (PKCS#1 v1.5 and PSS with SHA-256/384/512) a produced signature has exactly the modulus length in bytes, is accepted by the matching public key here and by an independent RFC 8017 verifier, and signatures produced by an independent RFC 8017 signer (PSS with salt as long as the hash) are accepted here. "
  "For PKCS#1 v1.5 the signed octets are the message wrapped as the contents of a DER SEQUENCE; signatures are big-endian octet strings.",
  ["inputs", "configurations"], "all keys (modulus sizes 1024 to 4096 bits, also not a multiple of 8), messages, salts and schemes",
  "Tests verify seven literal PSS signatures with one salt; signatures with leading zero bytes, other moduli, PKCS#1 signing and the key-object signing interface are untested.",
  ["include/caligo/rsa.h", "include/caligo/pkcs1.h", "src/X509Certificate.cpp"], [("encoding", "PKCS1, generatePssData, getSalt"), ("sign/verify", "rsa_public_key, rsa_private_key, RsaPubkey, RsaPrivateKey")], ["signature octets, verdicts"])

p("C19", "RSA verification rejects everything but the valid signature",
  "A signature is accepted only if it is a valid RFC 8017 signature, of exactly modulus length and numerically below the modulus, by that key over exactly that message under exactly that scheme. "
  "Modified, truncated, extended, zero, oversized, wrong-scheme, wrong-salt-length or badly padded signatures (including forged paddings for small exponents) are rejected without crash, hang or exception.",
  ["inputs"], "all byte strings of any length presented as signatures, all messages and keys",
  "No test presents an invalid signature.",
  ["include/caligo/rsa.h", "include/caligo/pkcs1.h", "src/X509Certificate.cpp"], [("comparison with the recomputed encoding", "validatePkcs1_5Signature, validatePssSignature"), ("length and range checks", "include/caligo/rsa.h")], ["verdict"])

p("C20", "PKCS#1 v1.5 blocks, digest identifiers, MGF1 and PSS encodings follow RFC 8017",
  "For every hash, message and sufficient target size the PKCS#1 v1.5 encoded block is 00 01 FF..FF 00, the RFC 8017 DigestInfo of that hash, and the digest of the DER-wrapped message, of exactly the requested size, and the published digest identifiers are the standard DER prefixes. "
  "MGF1 masks, PSS encodings and recovered salts equal RFC 8017's for all seeds, lengths and salts.",
  ["inputs", "configurations"], "all hashes, message lengths across all DER length forms, target sizes, seeds and mask lengths",
  "Only complete signatures over short literals are tested; identifiers of other hashes, DER length forms and mask counters past one byte are not.",
  ["include/caligo/pkcs1.h", "include/caligo/rsa.h", "include/caligo/sha2.h", "include/caligo/sha3.h", "src/sha3.cpp"], [("encoding", "PKCS1"), ("mask generation", "MGF1::MGF"), ("PSS encoding", "generatePssData"), ("identifiers", "getAsn1Id of each hash")], ["encoded octets"])

p("C21", "Base64 encodes per RFC 4648 and decoding inverts every variant",
  "For every byte string and every option (line breaks, omitted padding, each alphabet) the encoding is the RFC 4648 text in that alphabet, broken after every 76 characters and ended by a newline when line breaks are requested. "
  "Decoding any such text returns the original bytes, and decoding arbitrary text ignores characters outside the alphabets without failing.",
  ["inputs", "configurations"], "all byte strings, all option combinations, all texts",
  "One 43-byte string is round-tripped with default options.",
  ["src/base64.cpp", "include/caligo/base64.h"], [("encoder", "base64"), ("decoder table", "base64d")], ["text, decoded bytes"])

p("C22", "Parsed X.509 certificates and RSA keys carry exactly what was encoded",
  "For every well-formed v1 or v3 RSA certificate (DER or PEM) the parser reports the encoded serial number (up to 20 octets), issuer and subject names, validity instants as Unix seconds for any UTCTime or GeneralizedTime (clamped at 1970), common name and public key; certificates with non-RSA keys parse with no usable key. "
  "A PEM bundle yields every certificate once in order, a PKCS#1 RSA private key parsed from DER or PEM is the encoded key, and a certificate applies to exactly its common name.",
  ["inputs", "configurations"], "all field values and orders of names made of the thirteen supported attributes, dates from 1950 to 9999, bundle sizes and key sizes up to 4096 bits",
  "Two certificates (the same one in two formats) are parsed; other dates, serial sizes, names, bundles and private keys are not.",
  ["src/X509Certificate.cpp", "include/caligo/X509Certificate.h", "include/caligo/Asn1.h"], [("DER reader", "asn1_view::read"), ("field parsers", "parseDer<> specialisations"), ("bundle splitting", "parseCertificatesPem"), ("private key", "parsePrivateKey")], ["fields of the parsed certificate, signatures made with the parsed key"])

p("C23", "Hostile certificate and key input never corrupts memory, hangs or crashes",
  "For every byte string given as DER or PEM certificate, certificate bundle or private key, parsing terminates promptly with a certificate/key, an empty result or a standard exception, never reading outside the input or looping. "
  "Verifying or evaluating trust for whatever was parsed is equally safe.",
  ["inputs"], "all byte strings, in particular truncated, over-long, nested or inconsistent encodings and degenerate keys",
  "Tests parse only well-formed input.",
  ["src/X509Certificate.cpp", "include/caligo/Asn1.h", "src/Truststore.cpp", "src/base64.cpp"], [("bounds in the DER reader", "asn1_view"), ("shape checks", "parseCertificate, parseDer<>, x509certificate::verify")], ["termination, exceptions, sanitizer reports"])

p("C24", "Trust is granted exactly to certificates chaining to a trusted root",
  "A presented list of certificates is trusted exactly when its first certificate is within its validity period at the given time and is linked, through presented certificates used as issuers by subject name, to a certificate in the trust store, where every link has a valid issuer signature over the certificate as presented and a validity period nested in its issuer's. "
  "No presented certificate ever displaces a trusted certificate of the same name, and the order of the other presented certificates and irrelevant extra certificates do not change the outcome.",
  ["inputs", "configurations"], "all sets of presented certificates (also several of one name), all trust stores (one root per name; adding another of that name replaces it) and histories of one store, all orders, all times, all tamperings of any link",
  "No test evaluates trust at all; only one self-signed verification is tested.",
  ["src/Truststore.cpp", "src/X509Certificate.cpp"], [("fixpoint over presented certificates", "Truststore::trust"), ("link check", "x509certificate::verify")], ["trust verdict"],
  [("trusted_certs", "roots by subject", "include/caligo/Truststore.h")])

p("C25", "Random output fills its target, is unpredictable and does not repeat",
  "Every element of a requested random buffer of any element width and length is freshly generated and nothing outside the buffer is touched. "
  "Streams of different threads and processes (also forked ones, which share all earlier memory) differ, values do not repeat, all bit positions vary, and no output determines later ones; generated X25519 keys are distinct.",
  ["inputs", "histories", "schedules"], "all buffer widths and lengths, all processes, all consumption histories",
  "Tests check that ten values differ.",
  ["include/caligo/random.h", "src/random.cpp", "include/caligo/bignum.h"], [("value source", "generate_random_value"), ("buffer filling", "generate_random overloads")], ["generated buffers across processes"])

p("C26", "Independent objects can be used concurrently from different threads",
  "Threads that each use their own objects (hashes, ciphers, AEAD, big integers, RSA, X25519, base64, certificate parsing, random generation) get the results they would get alone and cause no data race, for every interleaving.",
  ["schedules"], "all interleavings of any number of threads using independent objects",
  "No test starts a thread.",
  ["include/caligo/random.h", "src/random.cpp", "include/caligo/gcm.h", "include/caligo/ghash.h", "src/md5.cpp", "src/X509Certificate.cpp"], [("absence of shared mutable state", "whole library (README, Multithreading)")], ["results per thread, race reports"])

p("C27", "Secret keys and data never steer branches or memory addresses",
  "In AES, GCM (including tag verification), CTR, ChaCha20, the SHA-2 and SHA-3 hashes, HMAC/HKDF, X25519 and the RSA private-key operation, control flow and accessed addresses do not depend on the values of secret keys, plaintexts, scalars or private exponents. "
  "Only lengths, counter blocks, public keys and results meant to be public (a verdict, a ciphertext, a signature) may influence them.",
  ["inputs"], "all secret values; the machine code produced by the project's build flags",
  "A functional test cannot observe control flow or addresses.",
  ["src/aes.cpp", "include/caligo/aes.h", "include/caligo/gcm.h", "include/caligo/ghash.h", "include/caligo/chacha20.h", "include/caligo/x25519.h", "include/caligo/bignum.h", "include/caligo/mont.h", "include/caligo/rsa.h", "src/sha2.cpp", "src/sha3.cpp", "include/caligo/hkdf.h"],
  [("AES instructions instead of tables", "src/aes.cpp"), ("constant-time swap and select", "ctime_swap, MontgomeryValue::exp"), ("branch-free tag comparison", "GCM::Decrypt")], ["branch conditions and addresses derived from poisoned secrets"])

p("C28", "No operation misuses memory, relies on garbage or has undefined behaviour",
  "For every input, every public operation of the library reads and writes only the caller's buffers and its own storage, never uses uninitialised data to compute a result, leaks nothing, and executes no undefined behaviour; identical inputs always give identical results regardless of prior memory contents, buffer alignment or position.",
  ["inputs", "histories"], "all inputs and call sequences of the public interface (empty, unaligned, boundary-length, page-end buffers)",
  "The tests run without sanitizers on a few literals; an overrun of a few bytes usually goes unnoticed.",
  ["src", "include/caligo"], [("size checks and fixed-size buffers", "all sources")], ["sanitizer and memory-checker reports, results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
