// C13: arithmetic modulo 2^255-19 on all kinds of 256-bit representations, against GMP.
#include "num.h"
#include <caligo/x25519.h>
using namespace vf;
using Caligo::ec_value;

static const Z P = pow2(255) - 19;
static ec_value ec(const Z& z) { return ec_value(fromZ<256>(z)); }
static Z val(const ec_value& e) { return toZ(e.v); }

// Representations around multiples of p, the 256-bit limit and limb patterns.
static Z operand(Rng& r) {
  switch (r.below(8)) {
    case 0: return mod2(P * (long)r.below(3) + Z((long)r.below(81) - 40), 256);
    case 1: return pow2(256) - 1 - Z((unsigned long)r.below(80));
    case 2: return Z((unsigned long)r.below(80));
    case 3: return mod2(pow2(255) + Z((long)r.below(81) - 40), 256);
    case 4: return mod2(pow2(r.below(256)) * Z((long)r.below(39)), 256);
    default: return number(r, 256);
  }
}
static std::string cls(const Z& a) {
  int k = a < 40 ? 0 : a < P - 40 ? 1 : a < P ? 2 : a < pow2(255) + 40 ? 3 : a < 2 * P - 40 ? 4 : a < 2 * P ? 5 : 6;
  return std::to_string(k);
}
static void residue(const char* op, const ec_value& got, const Z& want, const std::function<std::string()>& ctx) {
  require(modp(val(got), P) == modp(want, P), std::string("field-") + op, [&] { return ctx() + " got=" + str(val(got)) + " want (mod p)=" + str(modp(want, P)); });
}
// Full reduction of whatever representation an operation left behind.
static void canonical(const char* op, ec_value v, const std::function<std::string()>& ctx) {
  Z before = val(v);
  v.applyModulus();
  require(val(v) == modp(before, P), std::string("field-reduce-") + op, [&] { return ctx() + " reducing " + str(before) + " got " + str(val(v)); });
}
static void pairs(const Z& za, const Z& zb, uint32_t f, bool inv) {
  ec_value a = ec(za), b = ec(zb);
  auto ctx = [&] { return "a=" + str(za) + " b=" + str(zb) + " f=" + std::to_string(f); };
  auto sum = a + b; residue("add", sum, za + zb, ctx); canonical("add", sum, ctx);
  auto dif = a - b; residue("sub", dif, za - zb, ctx); canonical("sub", dif, ctx);
  auto mul = a * b; residue("mul", mul, za * zb, ctx); canonical("mul", mul, ctx);
  auto sm = a * f; residue("mul32", sm, za * Z((unsigned long)f), ctx); canonical("mul32", sm, ctx);
  auto sq = a.square(); residue("square", sq, za * za, ctx); canonical("square", sq, ctx);
  canonical("plain", a, ctx);
  Z ra = modp(za, P), rb = modp(zb, P);
  require((a == b) == (ra == rb), "field-equal", ctx);
  require((a != b) == (ra != rb), "field-unequal", ctx);
  require((a < b) == (ra < rb), "field-less", ctx);
  require(val(a) == za && val(b) == zb, "field-operand-modified", ctx);
  if (inv) {
    Z want = powm(ra, P - 2, P);
    ec_value i = inverse(a);
    residue("inverse", i, want, ctx);
    if (ra != 0) { ec_value one = i * a; one.applyModulus(); require(val(one) == 1, "field-inverse", ctx); }
    count("inversions");
  }
  // one object in several places
  { residue("add", a + a, 2 * za, ctx); residue("sub", a - a, Z(0), ctx); residue("mul", a * a, za * za, ctx); require(a == a && !(a != a) && !(a < a), "field-equal", ctx);
    ec_value t = a; t = t * t; residue("mul", t, za * za, ctx); t = a; t = t + b; residue("add", t, za + zb, ctx); t = b; t = a - t; residue("sub", t, za - zb, ctx); t = a; t = t - t; residue("sub", t, Z(0), ctx); t = a; t = t * f; residue("mul32", t, za * Z((unsigned long)f), ctx); t = a; ctime_swap(true, t, t); require(val(t) == za, "field-swap-itself", ctx);
    ec_value x = a, y = b; bool sw = mpz_odd_p(za.get_mpz_t()); ctime_swap(sw, x, y); require(val(x) == (sw ? zb : za) && val(y) == (sw ? za : zb), "field-swap", ctx); }
  // compound expressions, as the ladder uses them
  residue("compound", (sum.square() - dif.square()) * f, modp((za + zb) * (za + zb) - (za - zb) * (za - zb), P) * Z((unsigned long)f), ctx);
  residue("compound", (dif - sum) - (a - b - b), (za - zb) - (za + zb) - (za - zb - zb), ctx);
  observed(cls(za) + cls(zb) + "/" + (za + zb >= pow2(256) ? "c" : "") + (za < zb ? "b" : "") + "/" + str(mod2(za, 6)) + "/" + str(mod2(zb, 6)), 14);
}
static void random_pairs(Rng& r, uint64_t) {
  for (int k = 0; k < 1500; k++) {
    Z a = operand(r), b = r.chance(1, 6) ? mod2(a + Z((long)r.below(3) - 1) * P, 256) : r.chance(1, 6) ? mod2(P * Z((long)r.below(4)) - a + Z((long)r.below(81) - 40) + pow2(256), 256) : operand(r);
    pairs(a, b, r.chance(1, 3) ? 121665 : r.chance(1, 3) ? 0xffffffffu - (uint32_t)r.below(3) : r.u32() >> r.below(32), k % 50 == 0);
  }
  sample([&] { return "pairs of representations, e.g. a=" + str(operand(r)) + " b=" + str(operand(r)); });
}
// All pairs from the edges of the representation range.
static void edges(Rng& r, uint64_t i) {
  std::vector<Z> e;
  for (long d = -3; d <= 3; d++) { for (int m = 0; m < 3; m++) { Z z = P * m + d; if (z >= 0 && z < pow2(256)) e.push_back(z); } }
  for (long d : {1, 2, 18, 19, 20, 36, 37, 38, 39, 40, 57, 75, 76, 77}) { e.push_back(pow2(256) - d); e.push_back(pow2(255) - d); e.push_back(pow2(255) + d); e.push_back(Z(d)); e.push_back(pow2(256) - pow2(32 * r.range(1, 7)) - d); }
  for (size_t a = i; a < e.size(); a += 16)
    for (size_t b = 0; b < e.size(); b++) { pairs(e[a], e[b], (uint32_t)(r.chance(1, 2) ? 38 : r.u32()), b == a); count("edge pairs"); }
}
// Long random chains of operations on one value; the residue is followed by GMP.
static void chains(Rng& r, uint64_t) {
  for (int c = 0; c < 12; c++) {
    Z za = operand(r); ec_value a = ec(za); Z ra = modp(za, P);
    std::string log;
    for (int s = 0; s < 200; s++) {
      Z zb = operand(r); ec_value b = ec(zb);
      switch (r.below(6)) {
        case 0: a = a + b; ra = modp(ra + zb, P); log += '+'; break;
        case 1: a = a - b; ra = modp(ra - zb, P); log += '-'; break;
        case 2: a = b - a; ra = modp(zb - ra, P); log += 'r'; break;
        case 3: a = a * b; ra = modp(ra * zb, P); log += '*'; break;
        case 4: a = a.square(); ra = modp(ra * ra, P); log += '2'; break;
        default: { uint32_t f = r.u32() >> r.below(31); a = a * f; ra = modp(ra * Z((unsigned long)f), P); log += 'f'; }
      }
      require(modp(val(a), P) == ra, "field-chain", [&] { return "start=" + str(za) + " operations=" + log + " last operand=" + str(zb); });
      observed("chain/" + log.substr(log.size() < 5 ? 0 : log.size() - 5));
    }
    ec_value t = a; t.applyModulus();
    require(val(t) == ra, "field-reduce-chain", [&] { return "start=" + str(za) + " operations=" + log; });
    ec_value x = a, y = t;
    ctime_swap(true, x, y); require(val(x) == ra && val(y) == val(a), "field-swap", [&] { return "swap"; });
    ctime_swap(false, x, y); require(val(x) == ra && val(y) == val(a), "field-swap", [&] { return "no swap"; });
    bytes o = a.as_bytes(); std::reverse(o.begin(), o.end());
    require(fromBytesBE(o) == val(a) && o.size() == 32, "field-bytes", [&] { return str(val(a)); });
  }
}
VF_MAIN({ {"edges", 48, 160, edges}, {"chains", 720, 6000, chains}, {"pairs", 1680, 12000, random_pairs} })
