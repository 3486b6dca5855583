#include "api_part.h"
#include <caligo/mont.h>
#include <caligo/random_prime.h>
#include <caligo/x25519.h>
#include <sstream>
namespace vf {
using namespace Caligo;
template <size_t N> static bignum<N> big(Rng& r) { bytes b = r.data(N / 8); return bignum<N>(cspan(b)); }
template <size_t N> static bignum<N> oddmod(Rng& r) { auto b = big<N>(r); b.set_bit(0); if (r.chance(1, 2)) b.set_bit(N - 1); if (r.chance(1, 8)) b = bignum<N>(3); return b; }

static void x25519_op(Rng& r, Call& c) {
  ec_value k(bignum<256>(c.in(r.data(32)))), u(bignum<256>(c.in(r.data(32))));
  c.out(X25519(k, u).as_bytes());
}
static void field_op(Rng& r, Call& c) {
  ec_value a(big<256>(r)), b(big<256>(r));
  c.out((a + b).as_bytes()); c.out((a - b).as_bytes()); c.out((a * b).as_bytes()); c.out((a * r.u32()).as_bytes()); c.out(a.square().as_bytes());
  c.out(a == b); c.out(a < b); c.out(a != b); c.out(to_string(a)); c.out(inverse(a).as_bytes()); ctime_swap(r.chance(1, 2), a, b); c.out(a.as_bytes()); a.applyModulus(); a.normalize(); c.out(a.as_bytes());
  std::ostringstream o; o << a; c.out(o.str());
  a = r.u32(); c.out(a.as_bytes()); a.wipe(); c.out(a.as_bytes());
}
template <size_t N> static void big_op(Rng& r, Call& c) {
  bignum<N> a{c.in(r.data(r.below(N / 8 + 9)))}, b = big<N>(r);
  std::vector<uint32_t> w(N / 32); for (auto& x : w) x = r.u32();
  bignum<N> d{std::span<const uint32_t>(w)};
  auto s = a + b; outn(c, s.second); c.out(s.first); auto t = a - b; outn(c, t.second); c.out(t.first);
  outn(c, a * b); outn(c, a * r.u32()); outn(c, a.square()); outn(c, a ^ b); c.out(a == b); c.out(a < b); c.out(to_string(a)); c.num(a.bit(r.below(N)));
  a ^= d; a &= b; a.shr1(); a.neg(); a.set_bit(r.below(N)); a.clear_bit(r.below(N)); a.shl_word(r.below(N / 32)); outn(c, a); ctime_swap(r.chance(1, 2), a, b); outn(c, a);
  outn(c, bignum<2 * N>(a)); outn(c, bignum<N / 2>(b)); outn(c, b.template slice<N / 2>(N / 2));
  bignum<N / 2> m = big<N / 2>(r); m.set_bit(r.below(N / 2)); outn(c, b.naive_reduce(m));
  bignum<N> q{1, 2}; q = r.u32(); outn(c, q); std::ostringstream o; o << q; c.out(o.str());
}
template <size_t N> static void mont_op(Rng& r, Call& c) {
  auto n = oddmod<N>(r); if (r.chance(1, 10)) n.clear_bit(0);
  MontgomeryState<N> s(n);
  MontgomeryValue<N> a(s, big<N>(r)), b(s, big<N>(r));
  outn(c, bignum<N>(a + b)); outn(c, bignum<N>(a * b)); outn(c, bignum<N>(a.square())); outn(c, bignum<N>(a.exp(r.u32() >> r.below(32)))); outn(c, bignum<N>(a.exp(big<N>(r))));
}
static void prime_op(Rng& r, Call& c) {
  auto n = big<128>(r); if (r.chance(1, 3)) n = bignum<128>(r.u32() % 10000); else n.set_bit(0);
  c.out(miller_rabin_is_probably_prime(n));
}
static void random_op(Rng& r, Call& c) {
  auto b = c.inout(r.data(len(r))); generate_random(b);
  std::vector<uint16_t> h(upto(r, 40)); generate_random(std::span<uint16_t>(h));
  std::vector<uint32_t> w(upto(r, 40)); generate_random(std::span<uint32_t>(w));
  std::vector<uint64_t> q(upto(r, 40)); generate_random(std::span<uint64_t>(q));
  (void)generate_random_value(); (void)bignum<256>::random(); (void)ec_value::random_private_key();
  if (r.chance(1, 8)) (void)random_prime<64>();
}

void add_numbers(Ops& v) {
  add(v, "X25519", x25519_op, 2); add(v, "field", field_op, 5);
  add(v, "bignum<64>", big_op<64>, 6); add(v, "bignum<256>", big_op<256>, 6); add(v, "bignum<512>", big_op<512>, 4); add(v, "Montgomery<32>", mont_op<32>, 5); add(v, "Montgomery<160>", mont_op<160>, 4); add(v, "Montgomery<256>", mont_op<256>, 3);
  add(v, "primality", prime_op, 3); add(v, "random", random_op, 8, ApiOp::Random);
}
} // namespace vf
