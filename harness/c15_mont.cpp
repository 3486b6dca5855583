// C15: Montgomery arithmetic against GMP.
#include "num.h"
#include <caligo/mont.h>
using namespace vf;
using namespace Caligo;

template <size_t K> static Z modulus(Rng& r) {
  Z m;
  switch (r.below(8)) {
    case 0: m = Z(1 + 2 * (unsigned long)r.below(16)); break;
    case 1: m = pow2(K) - 1 - 2 * Z((unsigned long)r.below(20)); break;
    case 2: m = pow2(r.below(K)) + (r.chance(1, 2) ? 1 : -1); break;
    case 3: m = pow2(K - 1) + Z((unsigned long)r.below(50)); break;
    case 4: m = uniform(r, r.below(K) + 1); break;
    default: m = number(r, K);
  }
  m = mod2(m, K);
  mpz_setbit(m.get_mpz_t(), 0);
  return m;
}
template <size_t K> static Z operand(Rng& r, const Z& n) {
  switch (r.below(8)) {
    case 0: return mod2(n + Z((long)r.below(5) - 2) + pow2(K), K);
    case 1: return mod2(n * Z((unsigned long)r.below(4)), K);
    case 2: return Z((unsigned long)r.below(3));
    case 3: return pow2(K) - 1 - Z((unsigned long)r.below(3));
    case 4: return modp(number(r, K), n);
    case 5: { // chosen so that the Montgomery form itself is an edge value
      Z want = r.chance(1, 2) ? modp(Z((long)r.below(9) - 4), n) : modp(number(r, K), n), ri, R = pow2(K);
      if (n == 1) return Z(0);
      mpz_invert(ri.get_mpz_t(), R.get_mpz_t(), n.get_mpz_t());
      return modp(want * ri, n);
    }
    default: return number(r, K);
  }
}
template <size_t K> static void values(Rng& r, int moduli, int pairs, int exps) {
  for (int i = 0; i < moduli; i++) {
    Z n = modulus<K>(r);
    MontgomeryState<K> st(fromZ<K>(n));
    for (int j = 0; j < pairs; j++) {
      Z za = operand<K>(r, n), zb = r.chance(1, 5) ? modp(-za, n) : operand<K>(r, n);
      MontgomeryValue<K> a(st, fromZ<K>(za)), b(st, fromZ<K>(zb));
      auto ctx = [&] { return "K=" + std::to_string(K) + " n=" + str(n) + " a=" + str(za) + " b=" + str(zb); };
      auto is = [&](const char* op, const MontgomeryValue<K>& v, const Z& want) {
        Z got = toZ((bignum<K>)v);
        require(got == modp(want, n), std::string("mont-") + op, [&] { return ctx() + " got=" + str(got) + " want=" + str(modp(want, n)); });
      };
      is("convert", a, za); is("convert", b, zb); is("add", a + b, za + zb); is("add", a + a, za + za); is("mul", a * b, za * zb); is("square", a.square(), za * za);
      is("compound", (a + b) * (a + b) + a.square() * b, (za + zb) * (za + zb) + za * za * zb);
      is("compound", ((a * b) + b).square(), (za * zb + zb) * (za * zb + zb));
      uint32_t e = r.chance(1, 5) ? (1u << r.below(32)) + (uint32_t)r.below(3) - 1 : r.chance(1, 4) ? (uint32_t)r.below(20) : r.chance(1, 4) ? 65537 : r.chance(1, 4) ? 0xffffffffu >> r.below(3) : r.u32() >> r.below(32);
      if (j < exps) {
        is("exp32", a.exp(e), powm(za, Z((unsigned long)e), n));
        Z ze = r.chance(1, 4) ? Z((unsigned long)r.below(4)) : number(r, K);
        Z got = toZ((bignum<K>)a.exp(fromZ<K>(ze)));
        require(got == powm(za, ze, n) % n, "mont-exp", [&] { return ctx() + " exponent=" + str(ze) + " got=" + str(got); });
        is("exp", b.exp(fromZ<K>(ze)) * a, powm(zb, ze, n) * za);
        count("exponentiations", 3);
        observed("exp/" + std::to_string(K) + "/" + std::to_string(mpz_sizeinbase(ze.get_mpz_t(), 2)) + "/" + std::to_string(e & 15), 3);
      }
      { auto t = a; t = t * t; is("assigned", t, za * za); t = a; t = t + t; is("assigned", t, za + za); t = b; t = a * t; is("assigned", t, za * zb); t = a; t = t.square(); is("assigned", t, za * za); auto& q = t; t = q; is("assigned", t, za * za); is("mul", a * a, za * za); }
      is("unchanged", a, za); is("unchanged", b, zb);
      // values used through the reduction directly
      Z big = modp(za, n) * pow2(K) + operand<K>(r, n);   // below n * 2^K unless n = 1
      if (big < n * pow2(K)) {
        Z got = toZ(st.REDC(fromZ<2 * K>(big))), R = pow2(K), ri;
        if (n > 1) mpz_invert(ri.get_mpz_t(), R.get_mpz_t(), n.get_mpz_t());
        require(got == modp(big * ri, n), "mont-redc", [&] { return ctx() + " v=" + str(big) + " got=" + str(got); });
        count("reductions");
      }
      observed(std::to_string(K) + "/" + std::to_string(mpz_sizeinbase(n.get_mpz_t(), 2)) + "/" + (za >= n ? "A" : "a") + (zb >= n ? "B" : "b") + "/" + (modp(za, n) + modp(zb, n) >= n ? "w" : "-") + "/" + str(mod2(za, 4)), 10);
    }
    count("moduli of width " + std::to_string(K));
  }
}
// Several moduli at once that agree in part (low or high words, all but one word or bit), used in turn.
template <size_t K> static void family(Rng& r) {
  std::vector<Z> ns{modulus<K>(r)}; std::vector<MontgomeryState<K>> st; std::vector<std::vector<std::pair<Z, MontgomeryValue<K>>>> vs;
  for (int i = 0; i < 5; i++) {
    Z n = r.pick(ns); size_t w = 32 * r.below(K / 32), h = r.range(1, K);
    switch (r.below(5)) {
      case 0: n = ((number(r, K) >> h) << h) + mod2(n, h); break;                           // low bits in common
      case 1: n = ((n >> h) << h) + mod2(number(r, K), h); break;                           // high bits
      case 2: n ^= Z((unsigned long)r.u32()) << w; break;                                   // all but a word
      case 3: n ^= pow2(r.below(K)); break;                                                 // all but a bit
      default: break;                                                                       // the same again
    }
    n = mod2(n, K); mpz_setbit(n.get_mpz_t(), 0); ns.push_back(n);
  }
  st.reserve(ns.size()); vs.resize(ns.size());
  for (auto& n : ns) st.emplace_back(fromZ<K>(n));
  Z common = number(r, K);
  for (int j = 0; j < 18; j++) {
    size_t i = j < (int)ns.size() ? (size_t)j : r.below(ns.size()); Z za = j < 12 ? common : operand<K>(r, ns[i]);
    MontgomeryValue<K> a(st[i], fromZ<K>(za));
    auto is = [&](const char* op, const MontgomeryValue<K>& v, const Z& want) { Z got = toZ((bignum<K>)v); require(got == modp(want, ns[i]), std::string("mont-") + op, [&] { return "K=" + std::to_string(K) + " n=" + str(ns[i]) + " a=" + str(za) + " got=" + str(got) + " among related moduli"; }); };
    is("convert", a, za); is("mul", a * a, za * za); is("add", a + a, 2 * za);
    uint32_t e = (uint32_t)r.range(2, 70000); if (K <= 512) is("exp32", a.exp(e), powm(za, Z((unsigned long)e), ns[i]));
    if (K <= 256) { Z ze = number(r, K); is("exp", a.exp(fromZ<K>(ze)), powm(za, ze, ns[i]) % ns[i]); }
    for (auto& [zb, b] : vs[i]) is("mul", a * b, za * zb);
    vs[i].push_back({za, a});
    observed("family/" + std::to_string(K) + "/" + std::to_string(i) + "/" + str(mod2(ns[i], 8)), 4); count("operations among related moduli", 4);
  }
}
static void families(Rng& r, uint64_t i) { family<32>(r); family<64>(r); family<96>(r); family<128>(r); family<256>(r); family<512>(r); if (i % 4 == 0) family<1024>(r); if (i % 16 == 0) family<2048>(r); }
static void small(Rng& r, uint64_t) { values<32>(r, 200, 6, 3); values<64>(r, 100, 6, 3); values<96>(r, 60, 5, 2); values<128>(r, 60, 5, 2); values<160>(r, 30, 5, 2); values<256>(r, 12, 5, 1); }
static void large(Rng& r, uint64_t i) { if (i % 3 == 0) values<512>(r, 3, 12, 1); else if (i % 3 == 1) values<1024>(r, 1, 15, 1); else values<2048>(r, 1, 20, i % 12 == 2);
  sample([&] { return "arithmetic modulo e.g. n=" + str(modulus<160>(r)); }); }
// All odd moduli below 64 with all operands below 128, and all small exponents; a full residue check of the 32-bit width.
static void exhaustive(Rng& r, uint64_t) {
  for (unsigned n = 1; n < 64; n += 2) {
    MontgomeryState<32> st{bignum<32>(n)};
    std::vector<MontgomeryValue<32>> v;
    for (unsigned a = 0; a < 128; a++) v.emplace_back(st, bignum<32>(a));
    for (unsigned a = 0; a < 128; a++) {
      for (unsigned b = 0; b < 128; b++) {
        auto ctx = [&] { return "n=" + std::to_string(n) + " a=" + std::to_string(a) + " b=" + std::to_string(b); };
        require(((bignum<32>)(v[a] + v[b])).v[0] == (a + b) % n, "mont-add", ctx);
        require(((bignum<32>)(v[a] * v[b])).v[0] == (a * b) % n, "mont-mul", ctx);
        observed("", 2);
      }
      uint32_t e = r.u32();
      require(toZ((bignum<32>)v[a].exp(e)) == powm(Z(a), Z((unsigned long)e), Z(n)), "mont-exp32", [&] { return "n=" + std::to_string(n) + " a=" + std::to_string(a) + " e=" + std::to_string(e); });
      for (unsigned b = a % 4; b < 32; b += 4) for (int o = -1; o < 2; o++) {
        uint32_t x = (1u << b) + (uint32_t)o;
        require(toZ((bignum<32>)v[a].exp(x)) == powm(Z(a), Z((unsigned long)x), Z(n)), "mont-exp32", [&] { return "n=" + std::to_string(n) + " a=" + std::to_string(a) + " e=" + std::to_string(x); });
        require(toZ((bignum<32>)v[a].exp(bignum<32>(x))) == powm(Z(a), Z((unsigned long)x), Z(n)), "mont-exp", [&] { return "n=" + std::to_string(n) + " a=" + std::to_string(a) + " e=" + std::to_string(x); });
        observed("", 2);
      }
      unsigned p = 1 % n;
      for (uint32_t x = 0; x < 12; x++, p = p * a % n) require(((bignum<32>)v[a].exp(x)).v[0] == p && ((bignum<32>)v[a].exp(bignum<32>(x))).v[0] == p, "mont-exp32", [&] { return "n=" + std::to_string(n) + " a=" + std::to_string(a) + " e=" + std::to_string(x); });
      observed("small/" + std::to_string(n) + "/" + std::to_string(a), 25);
    }
  }
}
VF_MAIN({ {"families", 96, 3000, families}, {"exhaustive", 1, 4, exhaustive}, {"large", 216, 3600, large}, {"small", 640, 12000, small} })
