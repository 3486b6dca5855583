// GMP as reference for integers.
#pragma once
#include "common.h"
#include <gmpxx.h>
#include <caligo/bignum.h>

namespace vf {
using Z = mpz_class;
inline Z pow2(size_t n) { Z r; mpz_setbit(r.get_mpz_t(), n); return r; }
template <size_t B> Z toZ(const Caligo::bignum<B>& b) { Z r; mpz_import(r.get_mpz_t(), Caligo::bignum<B>::N, -1, 4, 0, 0, b.v); return r; }
template <size_t B> Caligo::bignum<B> fromZ(const Z& z) {
  Caligo::bignum<B> b;
  uint32_t w[Caligo::bignum<B>::N + 1] = {};
  size_t n = 0;
  Z t = z;
  mpz_fdiv_r_2exp(t.get_mpz_t(), t.get_mpz_t(), 32 * Caligo::bignum<B>::N);
  mpz_export(w, &n, -1, 4, 0, 0, t.get_mpz_t());
  for (size_t i = 0; i < Caligo::bignum<B>::N; i++) b.v[i] = w[i];
  return b;
}
inline Z mod2(const Z& a, size_t bits) { Z r; mpz_fdiv_r_2exp(r.get_mpz_t(), a.get_mpz_t(), bits); return r; }
inline Z modp(const Z& a, const Z& m) { Z r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
inline Z powm(const Z& b, const Z& e, const Z& m) { Z r; mpz_powm(r.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t()); return r; }
inline std::string str(const Z& z) { return "0x" + z.get_str(16); }
inline Z fromBytesBE(cspan b) { Z r; if (b.size()) mpz_import(r.get_mpz_t(), b.size(), 1, 1, 0, 0, b.data()); return r; }
inline bytes toBytesBE(const Z& z, size_t n) { bytes o(n), t((mpz_sizeinbase(z.get_mpz_t(), 2) + 7) / 8 + 1); size_t k = 0; mpz_export(t.data(), &k, 1, 1, 0, 0, z.get_mpz_t()); for (size_t i = 0; i < k && i < n; i++) o[n - 1 - i] = t[k - 1 - i]; return o; }
inline Z uniform(Rng& r, size_t bits) { bytes b = r.raw((bits + 7) / 8); return mod2(fromBytesBE(b), bits); }
// An integer of up to `bits` bits, biased to limb patterns and boundaries.
inline Z number(Rng& r, size_t bits) {
  switch (r.below(9)) {
    case 0: return Z((unsigned long)r.below(5)) % pow2(bits);
    case 1: return modp(pow2(bits) - 1 - Z((unsigned long)r.below(60)), pow2(bits));
    case 2: { size_t k = r.below(bits + 1); Z z = pow2(k) + Z((long)r.below(5) - 2); return mod2(z, bits); }
    case 3: case 4: {  // limbs from a small alphabet
      Z z;
      for (size_t i = 0; i < (bits + 31) / 32; i++) {
        uint32_t w;
        switch (r.below(7)) { case 0: case 1: w = 0; break; case 2: case 3: w = 0xffffffff; break; case 4: w = 0x80000000; break; case 5: w = 1; break; default: w = r.u32(); }
        z = (z << 32) + Z((unsigned long)w);
      }
      return mod2(z, bits);
    }
    case 5: return uniform(r, r.below(bits) + 1);
    case 6: { Z z = (pow2(r.below(bits) + 1) - 1) << r.below(bits); return mod2(z, bits); }
    default: return uniform(r, bits);
  }
}
} // namespace vf
