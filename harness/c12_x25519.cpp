// C12: X25519 against OpenSSL (for what it computes) and a GMP Montgomery ladder (for everything).
#include "num.h"
#include "refs.h"
#include <caligo/x25519.h>
#include <openssl/evp.h>
using namespace vf;
using Caligo::ec_value;

static const Z P = pow2(255) - 19;
static bytes le(const Z& z) { bytes b = toBytesBE(z, 32); std::reverse(b.begin(), b.end()); return b; }
static Z unle(bytes b) { std::reverse(b.begin(), b.end()); return fromBytesBE(b); }

// RFC 7748 section 5, on integers.
static bytes model(const bytes& k, const bytes& u) {
  bytes kk = k, uu = u;
  kk[0] &= 248; kk[31] &= 127; kk[31] |= 64; uu[31] &= 127;
  Z K = unle(kk), x1 = modp(unle(uu), P), x2 = 1, z2 = 0, x3 = x1, z3 = 1;
  bool swap = false;
  for (int t = 254; t >= 0; t--) {
    bool kt = mpz_tstbit(K.get_mpz_t(), t);
    if (swap != kt) { std::swap(x2, x3); std::swap(z2, z3); }
    swap = kt;
    Z A = x2 + z2, AA = modp(A * A, P), B = x2 - z2, BB = modp(B * B, P), E = AA - BB, C = x3 + z3, D = x3 - z3, DA = D * A, CB = C * B;
    x3 = modp((DA + CB) * (DA + CB), P); z3 = modp(x1 * modp((DA - CB) * (DA - CB), P), P); x2 = modp(AA * BB, P); z2 = modp(E * (AA + 121665 * E), P);
  }
  if (swap) { std::swap(x2, x3); std::swap(z2, z3); }
  return le(modp(x2 * powm(z2, P - 2, P), P));
}
static bytes openssl(const bytes& k, const bytes& u) {   // empty when it refuses (all-zero result)
  EVP_PKEY* a = EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, k.data(), 32);
  EVP_PKEY* b = EVP_PKEY_new_raw_public_key(EVP_PKEY_X25519, nullptr, u.data(), 32);
  EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(a, nullptr);
  bytes o(32); size_t n = 32;
  bool ok = EVP_PKEY_derive_init(c) > 0 && EVP_PKEY_derive_set_peer(c, b) > 0 && EVP_PKEY_derive(c, o.data(), &n) > 0;
  EVP_PKEY_CTX_free(c); EVP_PKEY_free(a); EVP_PKEY_free(b);
  if (!ok) o.clear();
  return o;
}
static bytes caligo(const bytes& k, const bytes& u) {
  ec_value kk{Caligo::bignum<256>(cspan(k))}, uu{Caligo::bignum<256>(cspan(u))};
  bytes k0 = kk.as_bytes(), u0 = uu.as_bytes();
  bytes o = Caligo::X25519(kk, uu).as_bytes();
  require(kk.as_bytes() == k0 && uu.as_bytes() == u0, "x25519-input-modified", [&] { return hex(k); });
  return o;
}
static void one(const bytes& k, const bytes& u, const std::string& c) {
  auto ctx = [&] { return c + " scalar=" + hex(k) + " u=" + hex(u); };
  bytes want = openssl(k, u);
  if (want.empty()) { want = bytes(32, 0); count("all-zero results"); }
  require_same(caligo(k, u), want, "x25519", ctx);
  observed(c + "/" + std::to_string(k[0] & 7) + "/" + std::to_string(k[31] >> 6) + "/" + std::to_string(u[31] >> 7) + "/" + std::to_string(u[0]));
  count(c);
  sample([&] { return ctx() + " -> " + hex(want); });
}
static bytes scalar(Rng& r) {
  switch (r.below(6)) {
    case 0: return r.data(32);
    case 1: return le(mod2(pow2(r.below(256)) + Z((long)r.below(5) - 2) + pow2(256), 256));
    case 2: return le(number(r, 256));
    case 3: { Z q = pow2(252) + Z("27742317777372353535851937790883648493"); return le(mod2(q * Z((long)r.below(16)) + Z((long)r.below(17) - 8) + pow2(256), 256)); }
    default: return r.raw(32);
  }
}
static Z coordinate(Rng& r, std::string& c) {
  static const std::vector<Z> low = {Z(0), Z(1), P - 1, P, P + 1, Z("325606250916557431795983626356110631294008115727848805560023387167927233504"), Z("39382357235489614581723060781553021112529911719440698176882885853963445705823"),
                                     2 * P - 1, 2 * P, 2 * P + 1};
  switch (r.below(9)) {
    case 0: c = "low order"; return mod2(r.pick(low) + (r.chance(1, 3) ? pow2(255) : Z(0)), 256);
    case 1: c = "non-canonical"; return mod2(P + Z((long)r.below(19)) + (r.chance(1, 2) ? pow2(255) : Z(0)), 256);
    case 2: c = "top bit set"; return uniform(r, 255) + pow2(255);
    case 3: c = "near 2^256"; return pow2(256) - 1 - Z((unsigned long)r.below(50));
    case 4: c = "small"; return Z((unsigned long)r.below(40));
    case 5: c = "limb pattern"; return number(r, 256);
    case 6: {  // the ladder's first steps then see edge values: (2u)^2 or 4u or u-1 close to 0, p or a limb boundary
      c = "edge inside the ladder";
      Z t = modp(r.chance(1, 2) ? Z((long)r.below(41) - 20) : number(r, 255), P);
      if (r.chance(1, 2)) return modp(t * powm(Z(4), P - 2, P), P);
      for (;; t = modp(t + 1, P)) {   // a square root modulo p, p = 5 (mod 8)
        Z x = powm(t, (P + 3) / 8, P);
        if (modp(x * x - t, P) != 0) x = modp(x * powm(Z(2), (P - 1) / 4, P), P);
        if (modp(x * x - t, P) == 0) return modp(x * powm(Z(2), P - 2, P), P);
      }
    }
    default: c = "random"; return uniform(r, 256);
  }
}
static void inputs(Rng& r, uint64_t) {
  for (int k = 0; k < 150; k++) { std::string c; Z u = coordinate(r, c); one(scalar(r), le(u), c); }
}
// The reference itself is cross-checked with the integer ladder.
static void crosscheck(Rng& r, uint64_t) {
  for (int k = 0; k < 20; k++) {
    std::string c; bytes s = scalar(r), u = le(coordinate(r, c)), w = openssl(s, u);
    if (w.empty()) w = bytes(32, 0);
    if (w != model(s, u)) { fprintf(stderr, "references disagree on scalar=%s u=%s\n", hex(s).c_str(), hex(u).c_str()); _exit(98); }
    one(s, u, "cross-checked");
  }
}
// Key agreement with generated keys, iterated.
static void agreement(Rng& r, uint64_t) {
  bytes base(32, 0); base[0] = 9;
  std::set<bytes> seen;
  for (int k = 0; k < 60; k++) {
    bytes a = ec_value::random_private_key().as_bytes(), b = ec_value::random_private_key().as_bytes();
    for (auto& x : {a, b}) {
      require((x[0] & 7) == 0 && (x[31] & 0x80) == 0 && (x[31] & 0x40), "x25519-key-not-clamped", [&] { return hex(x); });
      require(seen.insert(x).second, "x25519-key-repeated", [&] { return hex(x); });
    }
    bytes A = caligo(a, base), B = caligo(b, base), s1 = caligo(a, B), s2 = caligo(b, A);
    require_same(s1, s2, "x25519-agreement", [&] { return "a=" + hex(a) + " b=" + hex(b); });
    require_same(s1, openssl(a, openssl(b, base)), "x25519", [&] { return "a=" + hex(a) + " b=" + hex(b); });
    observed("agreement/" + hex(a, 2)); count("agreements");
  }
  // generated keys are clamped whatever the random source delivers
  for (uint64_t fill : {0ull, ~0ull, 0x5555555555555555ull, (unsigned long long)r.u64()}) {
    for (int k = 0; k < 16; k++) Caligo::testValues.push_back(fill);
    bytes x = ec_value::random_private_key().as_bytes();
    Caligo::testValues.clear();
    require((x[0] & 7) == 0 && (x[31] & 0x80) == 0 && (x[31] & 0x40), "x25519-key-not-clamped", [&] { return hex(x) + " from a constant source"; });
    observed("clamp/" + std::to_string(fill)); count("clamped keys");
  }
  bytes k = base, u = base;
  for (int n = 0; n < 200; n++) { bytes t = caligo(k, u); require_same(t, openssl(k, u), "x25519", [&] { return "iteration " + std::to_string(n) + " scalar=" + hex(k) + " u=" + hex(u); }); u = k; k = t; observed(""); }
}
VF_MAIN({ {"crosscheck", 8, 100, crosscheck}, {"agreement", 24, 200, agreement}, {"inputs", 900, 60000, inputs} })
