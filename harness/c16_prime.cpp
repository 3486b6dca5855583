// C16: primality verdicts and generated primes, against GMP and constructed composites.
#include "num.h"
#include <caligo/random_prime.h>
#include <fstream>
using namespace vf;
using namespace Caligo;

static bool prime(const Z& z) { return mpz_probab_prime_p(z.get_mpz_t(), 24) != 0; }
static Z next(const Z& z) { Z r; mpz_nextprime(r.get_mpz_t(), z.get_mpz_t()); return r; }

template <size_t W> static bool verdict(const Z& z) {
  bignum<W> b = fromZ<W>(z);
  bool v = miller_rabin_is_probably_prime(b);
  require(toZ(b) == z, "prime-input-modified", [&] { return str(z); });
  return v;
}
static bool verdict(const Z& z, size_t w) {
  switch (w) {
    case 32: return verdict<32>(z); case 64: return verdict<64>(z); case 96: return verdict<96>(z); case 128: return verdict<128>(z);
    case 192: return verdict<192>(z); case 256: return verdict<256>(z); case 512: return verdict<512>(z); case 1024: return verdict<1024>(z); case 2048: return verdict<2048>(z); case 2624: return verdict<2624>(z); case 3456: return verdict<3456>(z);
    default: return verdict<4096>(z);
  }
}
static size_t width(const Z& z, Rng* r = nullptr) {
  static const size_t ws[] = {32, 64, 96, 128, 192, 256, 512, 1024, 2048, 4096};
  size_t bits = z == 0 ? 1 : mpz_sizeinbase(z.get_mpz_t(), 2), i = 0;
  while (ws[i] < bits) if (++i == 10) _exit(97);
  if (r && i < 4 && r->chance(1, 3)) i += r->below(3);
  return ws[i];
}
static void judge(const Z& z, bool want, const char* kind, size_t w) {
  bool got = verdict(z, w);
  require(got == want, want ? "prime-missed" : "composite-accepted", [&] { return std::string(kind) + " " + str(z) + " (width " + std::to_string(w) + ") judged " + (got ? "prime" : "composite"); });
  observed(std::string(kind) + "/" + std::to_string(w) + "/" + std::to_string(mpz_sizeinbase(z.get_mpz_t(), 2)) + "/" + str(mod2(z, 8)));
  count(std::string(kind) + (want ? " (prime)" : " (composite)"));
}
static void judge(const Z& z, const char* kind, Rng* r = nullptr) { judge(z, prime(z), kind, width(z, r)); }

// All integers of a window; the first windows start at 0, the others lie around powers of two and at random.
static void windows(Rng& r, uint64_t i) {
  const unsigned SPAN = 2500;
  if (i < 12) { for (unsigned n = i * SPAN; n < (i + 1) * SPAN; n++) judge(Z(n), prime(Z(n)), "all integers", i % 2 ? 64 : 32); return; }
  size_t bits = r.range(15, 64);
  Z start = r.chance(1, 2) ? uniform(r, bits) : pow2(bits) - 150;
  if (start < 0) start = 0;
  for (unsigned n = 0; n < 300; n++) { Z z = start + n; judge(z, "windows", nullptr); }
}
// Primes have to be recognised at every size, in particular those with many factors of two in p-1 and those
// whose p-1 has extreme form.
static void primes(Rng& r, uint64_t) {
  for (int k = 0; k < 4; k++) {
    size_t bits = r.chance(1, 8) ? r.range(200, 256) : r.range(14, 130);
    Z p = next(uniform(r, bits)); judge(p, true, "random prime", width(p, &r));
  }
  for (int k = 0; k < 3; k++) {   // p = c*2^s + 1
    for (;;) { Z p = ((uniform(r, r.range(1, 32)) | 1) << r.range(1, 90)) + 1; if (p > 8000 && prime(p)) { judge(p, true, "many twos", width(p)); break; } }
  }
  static const unsigned mersenne[] = {13, 17, 19, 31, 61, 89, 107, 127};
  Z m = pow2(mersenne[r.below(8)]) - 1; judge(m, true, "Mersenne", width(m));
  Z pw = pow2(32 * r.range(1, 4)); Z below = pw; do below -= 1; while (!prime(below)); judge(below, true, "below a word boundary", width(below)); judge(next(pw), true, "above a word boundary", width(next(pw)));
}
static const char* const small_pseudoprimes[] = {  // least composites that are strong pseudoprimes to the first k primes
  "2047", "1373653", "25326001", "3215031751", "2152302898747", "3474749660383", "341550071728321", "3825123056546413051", "318665857834031151167461", "3317044064679887385961981",
  "360681321802296925566181", "164280218643672633986221",
};
static void composites(Rng& r, uint64_t i) {
  for (auto s : small_pseudoprimes) { Z z(s); if (mpz_sizeinbase(z.get_mpz_t(), 2) > 512 && i % 8) continue; judge(z, false, "strong pseudoprime", width(z, &r)); }
  for (int k = 0; k < 300; k++) {
    size_t b = r.range(8, 64);
    Z p = next(uniform(r, b) | Z(128)), q;
    judge(p * p, false, "square of a prime", width(p * p, &r));
    q = next(p); judge(p * q, false, "close primes", width(p * q, &r));
    // factors with p2-1 = k(p1-1): the composites that pass most bases
    for (int m = 2; m < 8; m++) { q = m * (p - 1) + 1; if (prime(q)) judge(p * q, false, "(x+1)(mx+1)", width(p * q, &r)); }
    judge(p * next(uniform(r, r.range(8, 64))), false, "product of two primes", 128);
    judge(p * p * p, false, "cube of a prime", width(p * p * p));
    Z even = uniform(r, r.range(14, 128)) * 2 + 8000; judge(even, false, "even", width(even, &r));
    Z odd = uniform(r, r.range(14, 256)) | Z(1); if (!prime(odd)) judge(odd, false, "random odd", width(odd, &r));
  }
  // Carmichael numbers (6k+1)(12k+1)(18k+1)
  for (int k = 0; k < 6;) { Z x = uniform(r, r.range(4, 60)) + 1, a = 6 * x + 1, b = 12 * x + 1, c = 18 * x + 1; if (!prime(a) || !prime(b) || !prime(c)) continue; k++; Z n = a * b * c; if (n > 8000) judge(n, false, "Carmichael", width(n, &r)); }
  sample([&] { return std::string("pseudoprimes, squares, close products, Carmichael numbers"); });
}
static std::vector<std::pair<unsigned, Z>>& constructed() {
  static std::vector<std::pair<unsigned, Z>> v;
  if (v.empty()) {
    std::ifstream f(std::string(getenv("VERIF_DATA")) + "/pseudoprimes.txt"); unsigned h; std::string s;
    while (f >> h >> s) if (Z z(s, 16); mpz_sizeinbase(z.get_mpz_t(), 2) <= 4096) v.emplace_back(h, z);
    if (v.size() < 8) _exit(97);
  }
  return v;
}
// Composites built to be strong pseudoprimes to the first h prime bases (Arnault's construction).
static void fooling(Rng&, uint64_t i) {
  auto& v = constructed();
  if (i >= v.size()) return;
  judge(v[i].second, false, ("pseudoprime to " + std::to_string(v[i].first) + " bases").c_str(), width(v[i].second));
}
static void fooling_quick(Rng& r, uint64_t i) { fooling(r, 7 - i); }
static void fooling_all(Rng&, uint64_t i) {
  auto& v = constructed(); auto& [h, z] = v[std::min<size_t>(i + 8, v.size() - 1)];
  size_t bits = mpz_sizeinbase(z.get_mpz_t(), 2);
  judge(z, false, ("pseudoprime to " + std::to_string(h) + " bases").c_str(), bits <= 2624 ? 2624 : bits <= 3456 ? 3456 : 4096);
}

template <size_t N, bool strict> static void generated(Rng& r, bool inject) {
  if (inject) {   // the random source first delivers composites, extremes and pseudoprimes, then random values
    std::vector<std::array<uint32_t, N / 32>> draws;
    for (int k = 0; k < 6; k++) {
      std::array<uint32_t, N / 32> d;
      Z z = k == 0 ? Z(0) : k == 1 ? pow2(N) - 1 : number(r, N);
      if (k == 2) { z = next(uniform(r, N / 2 - 1)) * next(uniform(r, N / 2 - 1)); }
      auto b = fromZ<N>(z); for (size_t i = 0; i < N / 32; i++) d[i] = b.v[i];
      draws.push_back(d);
    }
    std::vector<uint64_t> vals;
    for (auto& d : draws) for (size_t i = 0; i < d.size(); i += 2) vals.push_back(d[i] | (i + 1 < d.size() ? (uint64_t)d[i + 1] << 32 : 0));
    std::reverse(vals.begin(), vals.end());
    Caligo::testValues = vals;
  }
  Z p = toZ(random_prime<N, strict>());
  Caligo::testValues.clear();
  auto ctx = [&] { return "random_prime<" + std::to_string(N) + (strict ? ",strict" : "") + ">: " + str(p); };
  require(prime(p), "generated-composite", ctx);
  require(mpz_sizeinbase(p.get_mpz_t(), 2) == N, "generated-width", ctx);
  require(mpz_tstbit(p.get_mpz_t(), 0), "generated-even", ctx);
  if (strict) require(mpz_tstbit(p.get_mpz_t(), N - 2), "generated-second-bit", ctx);
  static std::set<std::string> seen;
  if (N >= 128 && !inject) require(seen.insert(str(p)).second, "generated-repeats", ctx);
  observed("generated/" + std::to_string(N) + (strict ? "s" : "") + "/" + str(mod2(p, 8))); count("generated primes");
}
static void generator(Rng& r, uint64_t i) {
  bool inj = i & 1;
  for (int k = 0; k < 4; k++) { generated<32, false>(r, inj); generated<32, true>(r, inj); generated<64, false>(r, inj); generated<64, true>(r, inj); generated<96, true>(r, inj); }
  generated<128, false>(r, inj); generated<128, true>(r, inj);
  if (i % 8 == 0) { generated<256, false>(r, inj); generated<256, true>(r, false); }
}
// Widths of the keys people make: the strict and plain generators at 512 bits and more.
static void generator_wide(Rng& r, uint64_t i) {
  switch (i % 6) {
    case 0: case 1: generated<512, true>(r, i % 2); break;
    case 2: generated<512, false>(r, i & 8); break;
    case 3: case 4: generated<1024, true>(r, i % 2); break;
    default: if (i >= 12) generated<2048, true>(r, false); else generated<1024, false>(r, i & 8);
  }
}
VF_MAIN({ {"generator-wide", 12, 60, generator_wide, 400}, {"fooling", 8, 8, fooling_quick}, {"fooling-large", 1, 2, fooling_all, 400}, {"generator", 72, 2400, generator}, {"windows", 96, 4000, windows}, {"composites", 72, 2400, composites}, {"primes", 144, 6000, primes} })
