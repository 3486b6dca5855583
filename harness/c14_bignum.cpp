// C14: fixed-width integers against GMP.
#include "num.h"
#include <sstream>
using namespace vf;
using Caligo::bignum;

static Z sized(Rng& r, size_t bits, const Z& other) {   // related operands hit carries, equality and comparison edges
  switch (r.below(10)) {
    case 0: return other;
    case 1: return mod2(other + 1, bits);
    case 2: return mod2(other - 1 + pow2(bits), bits);
    case 3: return mod2(pow2(bits) - other, bits);
    case 4: return mod2(pow2(bits) - 1 - other, bits);
    case 5: { Z z = other; mpz_combit(z.get_mpz_t(), r.below(bits)); return mod2(z, bits); }
    default: return number(r, bits);
  }
}
template <size_t B> struct T {
  using N = bignum<B>;
  static constexpr size_t W = N::N, FULL = 32 * W;
  static void same(const char* op, const Z& got, const Z& want, const std::function<std::string()>& ctx) {
    require(got == want, "bignum-" + std::string(op), [&] { return "width " + std::to_string(B) + " " + ctx() + " got=" + str(got) + " want=" + str(want); });
  }
  static void truth(const char* op, bool got, bool want, const std::function<std::string()>& ctx) {
    require(got == want, "bignum-" + std::string(op), [&] { return "width " + std::to_string(B) + " " + ctx() + " got=" + std::to_string(got) + " want=" + std::to_string(want); });
  }
  static void one(Rng& r) {
    Z za = number(r, B), zb = sized(r, B, za);
    const N a = fromZ<B>(za), b = fromZ<B>(zb);
    auto ctx = [&] { return "a=" + str(za) + " b=" + str(zb); };
    {
      auto [c, s] = a + b; same("add", toZ(s), mod2(za + zb, B), ctx); truth("carry", c, za + zb >= pow2(B), ctx);
      N t = a; truth("carry", t.add(b.v), za + zb >= pow2(B), ctx); same("add", toZ(t), mod2(za + zb, B), ctx);
      N u = a; truth("carry", u.add(u.v), 2 * za >= pow2(B), ctx); same("double", toZ(u), mod2(2 * za, B), ctx);
    }
    {
      auto [c, s] = a - b; same("sub", toZ(s), mod2(za - zb + pow2(B), B), ctx); truth("borrow", c, za < zb, ctx);
      N t = a; truth("borrow", t.sub(b.v), za < zb, ctx); same("sub", toZ(t), mod2(za - zb + pow2(B), B), ctx);
      N u = a; truth("borrow", u.sub(u.v), false, ctx); same("sub-self", toZ(u), Z(0), ctx);
    }
    { same("mul", toZ(a * b), za * zb, ctx); same("square", toZ(a.square()), za * za, ctx); }
    uint32_t f = r.chance(1, 3) ? 0xffffffffu - (uint32_t)r.below(2) : r.u32() >> r.below(32);
    same("mul32", toZ(a * f), za * Z((unsigned long)f), [&] { return ctx() + " f=" + std::to_string(f); });
    truth("equal", a == b, za == zb, ctx); truth("unequal", a != b, za != zb, ctx);
    truth("less", a < b, za < zb, ctx); truth("less", b < a, zb < za, ctx); truth("less", a < a, false, ctx); truth("equal", a == N(a), true, ctx);
    same("xor", toZ(a ^ b), za ^ zb, ctx);
    { N t = a; t ^= b; same("xor", toZ(t), za ^ zb, ctx); t = a; t &= b; same("and", toZ(t), za & zb, ctx); t = a; t.neg(); same("complement", toZ(t), pow2(B) - 1 - za, ctx); }
    { N t = a; t.shr1(); same("shr1", toZ(t), za >> 1, ctx); }
    { size_t w = r.below(W + 1); N t = a; t.shl_word(w); same("shl_word", toZ(t), mod2(za << (32 * w), B), [&] { return ctx() + " words=" + std::to_string(w); }); }
    for (size_t n : {(size_t)0, B - 1, r.below(B), r.below(B), 32 * r.below(W), 32 * r.below(W) + 31}) {
      auto c2 = [&] { return ctx() + " bit=" + std::to_string(n); };
      truth("bit", a.bit(n), mpz_tstbit(za.get_mpz_t(), n), c2);
      require(a.bit(n) == 0 || a.bit(n) == 1, "bignum-bit", c2);
      Z s = za, c = za; mpz_setbit(s.get_mpz_t(), n); mpz_clrbit(c.get_mpz_t(), n);
      N t = a; t.set_bit(n); same("set_bit", toZ(t), s, c2); t = a; t.clear_bit(n); same("clear_bit", toZ(t), c, c2);
    }
    for (bool sw : {false, true}) { N x = a, y = b; ctime_swap(sw, x, y); same("swap", toZ(x), sw ? zb : za, ctx); same("swap", toZ(y), sw ? za : zb, ctx); }
    {
      bytes le = a.as_bytes(); bytes be(le.rbegin(), le.rend());
      require(le.size() == 4 * W, "bignum-export", ctx); same("export", fromBytesBE(be), za, ctx);
      size_t n = r.chance(1, 4) ? r.below(4 * W + 10) : r.below(4 * W + 1);
      bytes in = r.data(n); bytes rev(in.rbegin(), in.rend());
      Guarded g(in, r.chance(1, 2));
      same("import", toZ(N(g.get())), mod2(fromBytesBE(rev), B), [&] { return "bytes=" + hex(in, 600); });
    }
    {
      uint32_t big[W]; for (size_t i = 0; i < W; i++) big[i] = a.v[W - 1 - i];
      same("import-words", toZ(N(std::span<const uint32_t>(big, W))), za, ctx);
      same("small", toZ(N(f)), Z((unsigned long)f), ctx);
      N t = a; t = f; same("small", toZ(t), Z((unsigned long)f), ctx);
      if constexpr (W >= 3) same("literal", toZ(N{1, f, 0x80000000u}), (((Z(1) << 32) + Z((unsigned long)f)) << 32) + Z(0x80000000ul), ctx);
      for (size_t i = 0; i < W; i++) require(a[i] == a.v[i], "bignum-index", ctx);
    }
    {
      std::string w; char buf[16];
      for (size_t i = 0; i < W; i++) { Z l = mod2(za >> (32 * (W - 1 - i)), 32); snprintf(buf, sizeof buf, "%08lX", l.get_ui()); if (i) w += ' '; w += buf; }
      require(to_string(a) == w, "bignum-text", [&] { return ctx() + " text=" + to_string(a); });
      if (r.chance(1, 4)) { std::ostringstream os; os << a; require(os.str() == w, "bignum-text", ctx); }
    }
    {   // one object in several places
      auto [c, s] = a + a; same("add-itself", toZ(s), mod2(2 * za, B), ctx); truth("carry", c, 2 * za >= pow2(B), ctx);
      auto [c2, s2] = a - a; same("sub-itself", toZ(s2), Z(0), ctx); truth("borrow", c2, false, ctx);
      same("mul-itself", toZ(a * a), za * za, ctx); same("xor-itself", toZ(a ^ a), Z(0), ctx); truth("equal", a == a, true, ctx);
      N t = a; t ^= t; same("xor-itself", toZ(t), Z(0), ctx); t = a; t &= t; same("and-itself", toZ(t), za, ctx); N& tt = t; t = tt; same("assign-itself", toZ(t), za, ctx);
      for (bool sw : {false, true}) { t = a; ctime_swap(sw, t, t); same("swap-itself", toZ(t), za, ctx); t = a; t = ctime_select(sw, t, b); same("select", toZ(t), sw ? za : zb, ctx); t = b; t = ctime_select(sw, a, t); same("select", toZ(t), sw ? za : zb, ctx); same("select-itself", toZ(ctime_select(sw, a, a)), za, ctx); }
      t = a; t = (t + b).second; t = (t - a).second; same("assigned", toZ(t), zb, ctx); t = a; t = (b - t).second; same("assigned", toZ(t), mod2(zb - za + pow2(B), B), ctx); t = b; t = a ^ t; same("assigned", toZ(t), za ^ zb, ctx);
      N z = a; z.add(b.v); z.sub(b.v); same("add-sub", toZ(z), za, ctx);
    }
    require(toZ(a) == za && toZ(b) == zb, "bignum-operand-modified", ctx);
    observed(std::to_string(B) + (za + zb >= pow2(B) ? "/c" : "/-") + (za < zb ? "b" : "-") + (za == zb ? "e" : "-") + "/" +
             std::to_string(mpz_sizeinbase(za.get_mpz_t(), 2)) + "/" + std::to_string(mpz_sizeinbase(zb.get_mpz_t(), 2) % 32), 40);
    count("width " + std::to_string(B));
  }
  static void many(Rng& r, int n) { for (int i = 0; i < n; i++) one(r); }
};
template <size_t B, size_t K> static void convert(Rng& r, int n) {
  for (int i = 0; i < n; i++) {
    Z za = number(r, B);
    bignum<B> a = fromZ<B>(za);
    auto ctx = [&] { return std::to_string(B) + "->" + std::to_string(K) + " a=" + str(za); };
    require(toZ(bignum<K>(a)) == mod2(za, K), "bignum-convert", ctx);
    bignum<K> k = number(r, 8).get_ui(); k = a; require(toZ(k) == mod2(za, K), "bignum-convert", ctx);
    if constexpr (K <= B) {
      size_t at = 32 * r.below((B - K) / 32 + 1);
      require(toZ(a.template slice<K>(at)) == mod2(za >> at, K), "bignum-slice", [&] { return ctx() + " at=" + std::to_string(at); });
    }
    observed("convert/" + std::to_string(B) + "/" + std::to_string(K) + "/" + std::to_string(mpz_sizeinbase(za.get_mpz_t(), 2)), 3);
  }
}
template <size_t B, size_t K> static void reduce(Rng& r, int n) {   // also B = 2K+1, as Montgomery set-up uses it
  constexpr size_t BW = 32 * bignum<B>::N;
  for (int i = 0; i < n; i++) {
    Z zm = number(r, K); if (zm == 0) zm = 1 + number(r, K - 1);
    Z za;
    switch (r.below(6)) {
      case 0: za = zm * number(r, BW - mpz_sizeinbase(zm.get_mpz_t(), 2)) ; break;               // multiples and neighbours
      case 1: za = zm * number(r, BW - mpz_sizeinbase(zm.get_mpz_t(), 2)) + zm - 1; break;
      case 2: za = pow2(r.below(BW)); break;
      case 3: za = pow2(BW) - 1 - number(r, 4); break;
      default: za = number(r, BW);
    }
    za = mod2(za, BW);
    bignum<B> a = fromZ<B>(za); bignum<K> m = fromZ<K>(zm);
    Z got = toZ(a.template naive_reduce<K>(m));
    require(got == modp(za, zm), "bignum-reduce", [&] { return std::to_string(B) + " by " + std::to_string(K) + " a=" + str(za) + " modulus=" + str(zm) + " got=" + str(got) + " want=" + str(modp(za, zm)); });
    observed("reduce/" + std::to_string(B) + "/" + std::to_string(mpz_sizeinbase(za.get_mpz_t(), 2)) + "/" + std::to_string(mpz_sizeinbase(zm.get_mpz_t(), 2)));
    count("reductions");
  }
}
static void ops(Rng& r, uint64_t) {
  T<32>::many(r, 150); T<64>::many(r, 150); T<96>::many(r, 150); T<128>::many(r, 100); T<160>::many(r, 100); T<256>::many(r, 100);
  T<288>::many(r, 60); T<512>::many(r, 60); T<1024>::many(r, 30); T<2048>::many(r, 15); T<4096>::many(r, 4); T<8192>::many(r, 2); if (r.chance(1, 4)) T<16384>::many(r, 2);
  sample([&] { return "all operations on e.g. a=" + str(number(r, 256)) + " (256 bits)"; });
}
static void conv(Rng& r, uint64_t) {
  convert<32, 64>(r, 40); convert<64, 32>(r, 40); convert<96, 64>(r, 40); convert<64, 96>(r, 40); convert<256, 160>(r, 40); convert<160, 256>(r, 40);
  convert<512, 256>(r, 40); convert<256, 512>(r, 40); convert<4096, 2048>(r, 20); convert<2048, 4096>(r, 20); convert<256, 256>(r, 40);
  reduce<32, 32>(r, 60); reduce<64, 32>(r, 60); reduce<65, 32>(r, 60); reduce<96, 64>(r, 40); reduce<128, 64>(r, 40); reduce<193, 96>(r, 40);
  reduce<256, 256>(r, 20); reduce<512, 256>(r, 10); reduce<513, 256>(r, 10); reduce<1024, 160>(r, 5); reduce<2049, 1024>(r, 2);
}
// Every pair of 4-bit-per-limb patterns of two- and three-limb numbers: carry chains in all positions.
template <size_t B> static void patterns(Rng&) {
  static const uint32_t alpha[] = {0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff};
  constexpr size_t W = bignum<B>::N;
  size_t total = 1; for (size_t i = 0; i < W; i++) total *= 6;
  for (size_t x = 0; x < total; x++) for (size_t y = 0; y < total; y++) {
    bignum<B> a, b; size_t p = x, q = y;
    for (size_t i = 0; i < W; i++, p /= 6, q /= 6) { a.v[i] = alpha[p % 6]; b.v[i] = alpha[q % 6]; }
    Z za = toZ(a), zb = toZ(b);
    auto ctx = [&] { return "width " + std::to_string(B) + " a=" + str(za) + " b=" + str(zb); };
    auto [c, s] = a + b; require(toZ(s) == mod2(za + zb, B) && c == (za + zb >= pow2(B)), "bignum-add", ctx);
    auto [d, t] = a - b; require(toZ(t) == mod2(za - zb + pow2(B), B) && d == (za < zb), "bignum-sub", ctx);
    require(toZ(a * b) == za * zb, "bignum-mul", ctx);
    require((a < b) == (za < zb) && (a == b) == (za == zb), "bignum-compare", ctx);
    if (y && zb != 0) { if (x % 7 == y % 7) require(toZ(a.template naive_reduce<B>(b)) == modp(za, zb), "bignum-reduce", ctx); }
    observed(x == y ? "" : "pattern/" + std::to_string(B) + "/" + std::to_string(x) + "/" + std::to_string(y), 5);
  }
  count("limb pattern sweeps");
}
static void sweep(Rng& r, uint64_t i) { if (i % 3 == 0) patterns<32>(r); else if (i % 3 == 1) patterns<64>(r); else patterns<96>(r); }
VF_MAIN({ {"patterns", 3, 3, sweep}, {"convert", 360, 6000, conv}, {"operations", 1250, 25000, ops} })
