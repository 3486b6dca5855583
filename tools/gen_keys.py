#!/usr/bin/env python3-vt
"""RSA key pool for the monitors (test keys only). Writes data/rsa_keys.txt: bits e n d p q, in hex but for bits."""
import os, random
from math import gcd
from sympy import nextprime
R = random.Random(20261118)
def rp(bits, e):
    while True:
        p = nextprime(R.getrandbits(bits) | 3 << (bits - 2))
        if p.bit_length() == bits and gcd(p - 1, e) == 1: return p
out = []
sizes = [512, 768, 800, 1016, 1023, 1024, 1024, 1025, 1031, 1032, 1033, 1536, 2047, 2048, 2048, 2049, 3072, 4095, 4096]
es = [65537, 3, 17, 257, 65537, 0x100000001, None, 65539]
i = 0
for b in sizes:
    for e in ([65537, es[i % 8], es[(i + 3) % 8]] if b < 2048 else [65537, es[i % 8]]):
        i += 1
        ee = e or (R.getrandbits(b - 8) | 1)
        while True:
            p = rp((b + 1) // 2, ee)
            while True:
                q = nextprime(R.getrandbits(b - (b + 1) // 2 + 1) | 1 << (b - (b + 1) // 2 - 1))
                if gcd(q - 1, ee) == 1: break
            n = p * q
            lam = (p - 1) * (q - 1) // gcd(p - 1, q - 1)
            if n.bit_length() == b and p != q and gcd(ee, lam) == 1: break
        d = pow(ee, -1, lam)
        out.append("%d %x %x %x %x %x" % (b, ee, n, d, p, q))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "data", "rsa_keys.txt"), "w").write("\n".join(out) + "\n")
