// C17: the RSA primitives against GMP.
#include "rsabox.h"
#include <caligo/rsa.h>
using namespace vf;

static Z message(Rng& r, const Key& k) {
  switch (r.below(8)) {
    case 0: return Z((unsigned long)r.below(3)) % k.n;
    case 1: return k.n - 1 - Z((unsigned long)r.below(3)) % k.n;
    case 2: return modp(k.p * uniform(r, 64), k.n);                 // shares a factor with the modulus
    case 3: return modp(k.q * (1 + uniform(r, 8)), k.n);
    case 4: return modp(pow2(r.below(k.bits)), k.n);
    default: return modp(number(r, k.bits), k.n);
  }
}
static void exchange(const RsaBox& box, const Key& k, const Z& m, bool priv) {
  auto ctx = [&] { return "width=" + std::to_string(box.width()) + " n=" + str(k.n) + " e=" + str(k.e) + " m=" + str(m); };
  Z c = powm(m, k.e, k.n), got = box.rsaep(m);
  require(got == c, "rsa-public", [&] { return ctx() + " got=" + str(got); });
  observed("pub/" + std::to_string(box.width()) + "/" + std::to_string(k.bits) + "/" + std::to_string(mpz_sizeinbase(k.e.get_mpz_t(), 2)) + "/" + std::to_string(mpz_sizeinbase(m.get_mpz_t(), 2)));
  count("public operations, width " + std::to_string(box.width()));
  if (!priv) return;
  got = box.rsadp(c); require(got == m, "rsa-private", [&] { return ctx() + " c=" + str(c) + " got=" + str(got); });
  Z s = powm(m, k.d, k.n); got = box.rsadp(m); require(got == s, "rsa-private", [&] { return ctx() + " (signing) got=" + str(got); });
  got = box.rsaep(s); require(got == m, "rsa-public", [&] { return ctx() + " s=" + str(s) + " got=" + str(got); });
  observed("priv/" + std::to_string(box.width()) + "/" + std::to_string(k.bits) + "/" + std::to_string(mpz_sizeinbase(k.d.get_mpz_t(), 2)) + "/" + std::to_string(mpz_sizeinbase(m.get_mpz_t(), 2)), 3);
  count("private operations, width " + std::to_string(box.width()), 2);
}
static Key fresh(Rng& r, size_t bits) {   // small keys of any size and exponent made on the fly
  Key k;
  for (;;) {
    Z p, q, t = uniform(r, bits - bits / 2) | Z(2), u = uniform(r, bits / 2) | Z(2);
    mpz_nextprime(p.get_mpz_t(), t.get_mpz_t()); mpz_nextprime(q.get_mpz_t(), u.get_mpz_t());
    if (p == q) continue;
    k.p = p; k.q = q; k.n = p * q; k.bits = mpz_sizeinbase(k.n.get_mpz_t(), 2);
    Z lam = (p - 1) * (q - 1);
    Z e = r.chance(1, 3) ? Z(65537) : r.chance(1, 3) ? Z(3) : number(r, k.bits);
    if (e < 3 || (!r.chance(1, 3) && e > pow2(40))) continue;
    if (k.bits <= 512 && mpz_invert(k.d.get_mpz_t(), e.get_mpz_t(), lam.get_mpz_t())) { k.e = e; return k; }
  }
}
template <size_t W> static void small_width(Rng& r) {
  for (int i = 0; i < 25; i++) {
    Key k = fresh(r, r.range(5, W));
    if (k.bits > W || k.e >= pow2(W)) continue;
    k.d = modp(k.d, pow2(W));
    Caligo::rsa_public_key<W> pub(fromZ<W>(k.n), fromZ<W>(k.e)); Caligo::rsa_private_key<W> priv(fromZ<W>(k.n), fromZ<W>(k.d));
    for (int j = 0; j < 3; j++) {
      Z m = message(r, k), c = powm(m, k.e, k.n);
      auto ctx = [&] { return "width=" + std::to_string(W) + " n=" + str(k.n) + " e=" + str(k.e) + " d=" + str(k.d) + " m=" + str(m); };
      require(toZ(pub.rsaep(fromZ<W>(m))) == c, "rsa-public", ctx);
      require(toZ(priv.rsadp(fromZ<W>(c))) == m, "rsa-private", ctx);
      observed("small/" + std::to_string(W) + "/" + std::to_string(k.bits) + "/" + std::to_string(mpz_sizeinbase(k.e.get_mpz_t(), 2)), 2); count("small keys");
    }
  }
}
static void small(Rng& r, uint64_t) { small_width<32>(r); small_width<64>(r); small_width<96>(r); small_width<128>(r); small_width<256>(r);
  for (int i = 0; i < 4; i++) { Key k = fresh(r, r.range(20, 500)); auto b = RsaBox::make(k, 512); exchange(*b, k, message(r, k), true); } }
static void pool(Rng& r, uint64_t i) {
  const Key& k = keys()[i % keys().size()];
  size_t w = RsaBox::width_for(k.bits); if (w < 2048 && r.chance(1, 4)) w *= 2; if (i % 16 == 15) w = 4096;
  auto b = RsaBox::make(k, w);
  for (int j = 0; j < (w >= 2048 ? 2 : 6); j++) exchange(*b, k, message(r, k), w < 2048 || j == 0);
  sample([&] { return "key of " + std::to_string(k.bits) + " bits, e=" + str(k.e).substr(0, 40) + " in width " + std::to_string(w); });
}
// An exponent with favourite values in some of its words: equal to a common exponent only in part.
static Z patched(Rng& r, size_t words) {
  Z e; static const unsigned long fav[] = {0, 0, 0, 1, 3, 17, 65537, 65537, 0xffffffff};
  for (size_t i = 0; i < words; i++) e = (e << 32) + Z(r.chance(1, 6) ? (unsigned long)r.u32() : r.pick(std::vector<unsigned long>(fav, fav + 9)));
  e = (e << 32) + Z(r.chance(1, 2) ? 65537ul : r.chance(1, 2) ? 3ul : (unsigned long)r.u32());
  return e;
}
// Any public exponent, also ones without an inverse.
static void exponents(Rng& r, uint64_t) {
  for (int i = 0; i < 9; i++) {
    Key k = key_where(r, [](const Key& k) { return k.bits <= 1024; });
    k.e = r.chance(1, 3) ? patched(r, r.range(1, k.bits / 32 - 1)) : r.chance(1, 3) ? Z((unsigned long)r.below(20)) : r.chance(1, 3) ? Z(65535 + (unsigned long)r.below(6)) : r.chance(1, 2) ? pow2(r.below(64)) + 1 : number(r, 512);
    auto b = RsaBox::make(k, RsaBox::width_for(k.bits));
    for (int j = 0; j < 2; j++) { Z m = message(r, k); Z got = b->rsaep(m); require(got == powm(m, k.e, k.n) % k.n, "rsa-public", [&] { return "n=" + str(k.n) + " e=" + str(k.e) + " m=" + str(m) + " got=" + str(got); }); observed("e/" + str(k.e).substr(0, 12)); count("other exponents"); }
  }
}
// Private exponents other than the smallest one: d plus multiples of the group order, up to the full width of the key object.
static void other_d(Rng& r, uint64_t i) {
  Key k = i % 3 == 2 ? fresh(r, r.range(20, 500)) : key_where(r, [](const Key& k) { return k.bits <= 1024; });
  size_t w = RsaBox::width_for(k.bits); if (w < 2048 && r.chance(1, 2)) w *= 2;
  Z lam, p1 = k.p - 1, q1 = k.q - 1, room; mpz_lcm(lam.get_mpz_t(), p1.get_mpz_t(), q1.get_mpz_t());
  if (r.chance(1, 2)) lam = p1 * q1;
  Z d = modp(k.d, lam);
  room = (pow2(r.chance(2, 3) ? w : r.range(k.bits, w)) - 1 - d) / lam;
  if (room <= 0) { observed("d/none"); return; }
  Z f = r.chance(1, 3) ? room : r.chance(1, 2) ? modp(uniform(r, w), room + 1) : Z(1 + (unsigned long)r.below(3));
  if (f > room) f = room;
  k.d = d + f * lam;
  auto b = RsaBox::make(k, w);
  for (int j = 0; j < 3; j++) exchange(*b, k, message(r, k), true);
  observed("d/" + std::to_string(w) + "/" + std::to_string(mpz_sizeinbase(k.d.get_mpz_t(), 2)) + "/" + std::to_string(k.bits)); count("private exponents longer than needed");
}
// Several keys at once that agree in part of the modulus or of an exponent, used in turn.
static void families(Rng& r, uint64_t) {
  size_t w = r.chance(1, 5) ? 1024 : 512;
  std::vector<Key> ks{key_where(r, [&](const Key& k) { return k.bits <= w && k.bits > w / 2; })};
  for (int i = 0; i < 5; i++) {
    Key k = r.pick(ks); size_t at = r.below(k.bits - 2), h = r.range(1, k.bits - 2);
    switch (r.below(8)) {
      case 0: k.n = ((uniform(r, k.bits) >> h) << h) + mod2(k.n, h); break;
      case 1: k.n = ((k.n >> h) << h) + uniform(r, h); break;
      case 2: k.n ^= pow2(at); break;
      case 3: k.e = ((k.e >> 8) << 8) + Z(1 + (unsigned long)r.below(200)); break;
      case 4: k.e ^= pow2(r.below(k.bits - 2)); break;
      case 5: k.d ^= pow2(at); break;
      case 6: k.d = ((uniform(r, k.bits) >> h) << h) + mod2(k.d, h); break;
      default: k.d = ((k.d >> h) << h) + uniform(r, h);
    }
    k.n = mod2(k.n, k.bits); mpz_setbit(k.n.get_mpz_t(), 0); mpz_setbit(k.n.get_mpz_t(), k.bits - 1); k.e = mod2(k.e, k.bits); if (k.e < 1) k.e = 3; if (k.d < 1) k.d = 1; k.d = mod2(k.d, w);
    ks.push_back(k);
  }
  std::vector<std::unique_ptr<RsaBox>> b; for (auto& k : ks) b.push_back(RsaBox::make(k, w));
  Z m = uniform(r, w / 2);
  for (int j = 0; j < 12; j++) {
    size_t i = j < (int)ks.size() ? (size_t)j : r.below(ks.size()); Z x = modp(j < 8 ? m : uniform(r, w), ks[i].n);
    auto ctx = [&] { return "width=" + std::to_string(w) + " n=" + str(ks[i].n) + " e=" + str(ks[i].e) + " d=" + str(ks[i].d) + " m=" + str(x) + " among related keys"; };
    require(b[i]->rsaep(x) == powm(x, ks[i].e, ks[i].n) % ks[i].n, "rsa-public", ctx);
    require(b[i]->rsadp(x) == powm(x, ks[i].d, ks[i].n) % ks[i].n, "rsa-private", ctx);
    observed("family/" + std::to_string(w) + "/" + std::to_string(i) + "/" + str(mod2(ks[i].n, 8)), 2); count("operations among related keys", 2);
  }
}
VF_MAIN({ {"families", 48, 1500, families}, {"other-d", 60, 2000, other_d}, {"pool", 102, 5100, pool}, {"exponents", 60, 2000, exponents}, {"small", 144, 4000, small} })
