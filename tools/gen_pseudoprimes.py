#!/usr/bin/env python3
"""Arnault-style composites n = p1*p2*p3 that are strong pseudoprimes to the first h primes, for C16.
Writes data/pseudoprimes.txt: lines '<h> <n in hex>'. Run once; the result is committed."""
import os, random, sys
from math import gcd

def primes(n):
    s = bytearray([1]) * (n + 1); s[0:2] = b"\0\0"
    for i in range(2, int(n ** .5) + 1):
        if s[i]: s[i * i::i] = bytearray(len(s[i * i::i]))
    return [i for i in range(n + 1) if s[i]]
def jacobi(a, n):
    a %= n; r = 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5): r = -r
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3: r = -r
        a %= n
    return r if n == 1 else 0
def fermat(n): return pow(2, n - 1, n) == 1
def prime(n): return all(n % p for p in SMALL) and all(pow(a, n - 1, n) == 1 for a in (2, 3, 5, 7, 11, 13, 17))
def strong(n, a):
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    x = pow(a, d, n)
    if x in (1, n - 1): return True
    for _ in range(s - 1):
        x = x * x % n
        if x == n - 1: return True
    return False
SMALL = primes(3000)
PR = primes(8000)

def build(h, rng):
    bases = PR[:h]
    # k2, k3 beyond the bases, so that their conditions do not clash
    ks = [p for p in PR if p > bases[-1]][:60]
    while True:
        k2, k3 = sorted(rng.sample(ks, 2))
        k = [1, k2, k3]
        M, z = 4, 3            # p1 = 3 mod 4
        mods = []
        ok = True
        for a in bases:
            cands = []
            if a == 2:
                for x in (3, 7):
                    ps = [(ki * (x - 1) + 1) % 8 for ki in k]
                    if len({1 if p in (1, 7) else -1 for p in ps}) == 1: cands.append(x)
                mods.append((8, cands))
            else:
                for x in range(1, a):
                    ps = [(ki * (x - 1) + 1) % a for ki in k]
                    if any(p == 0 for p in ps): continue
                    # p_i = 3 mod 4: (a/p) = (p/a) * (-1)^((a-1)/2)
                    if len({jacobi(p, a) for p in ps}) == 1: cands.append(x)
                mods.append((a, cands))
            if not cands: ok = False; break
        if not ok: continue
        mods.append((k2, [pow(k3, -1, k2)])); mods.append((k3, [pow(k2, -1, k3)]))
        # n-1 = 0 mod (p1-1)*k2*k3/..., signs as in Arnault: p1 = k3^-1 (mod k2), k2^-1 (mod k3)
        for sgn in (1, -1):
            M, z = 4, 3
            for m, c in mods:
                x = rng.choice(c)
                if m in (k2, k3): x = sgn * x % m
                g = gcd(M, m)
                # combine z mod M and x mod m (only 4 and 8 share a factor)
                while z % m != x % m:
                    z += M
                    if z > M * m: break
                if z % m != x % m: break
                M = M * m // g
            else:
                n = z * (k2 * (z - 1) + 1) * (k3 * (z - 1) + 1)
                if (n - 1) % k2 or (n - 1) % k3: continue
                for t in range(400000):
                    p1 = z + t * M
                    p2 = k2 * (p1 - 1) + 1; p3 = k3 * (p1 - 1) + 1
                    bad = False
                    for q in SMALL:
                        if p1 % q == 0 and p1 != q or p2 % q == 0 and p2 != q or p3 % q == 0 and p3 != q: bad = True; break
                    if bad or not fermat(p1) or not fermat(p2) or not fermat(p3): continue
                    if not (prime(p1) and prime(p2) and prime(p3)): continue
                    n = p1 * p2 * p3
                    if all(strong(n, a) for a in bases): return n
def main():
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "data", "pseudoprimes.txt")
    hs = [int(x) for x in sys.argv[1:]] or [6, 10, 16, 24, 32, 46, 60, 80]
    with open(out, "a") as f:
        for h in hs:
            n = build(h, random.Random(h))
            run = 0
            for a in PR:
                if not strong(n, a): break
                run += 1
            print(h, run, n.bit_length(), flush=True)
            f.write("%d %x\n" % (run, n)); f.flush()
main()
