#!/usr/bin/env python3
"""Decimals m*10^e (m < 2^64) unusually close to the middle between two
adjacent f64: for every exponent, the closest found among combinations of
continued fraction convergents, per bit length of m and binade. Writes
mc/tables/hard.txt; run by hand, the table is committed."""
import os
from fractions import Fraction
from math import floor

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc", "tables", "hard.txt")


def convergents(num, den, limit):
    h0, h1, k0, k1 = 0, 1, 1, 0
    while den:
        a = num // den
        num, den = den, num - a * den
        h0, h1 = h1, a * h1 + h0
        k0, k1 = k1, a * k1 + k0
        if k1 > limit:
            return
        yield k1


res = set()
for e in range(-345, 310):
    n10, d10 = (10 ** e, 1) if e >= 0 else (1, 10 ** -e)
    for bits in (54, 56, 58, 60, 61, 62, 63, 64):
        lo, hi = 1 << (bits - 1), (1 << bits) - 1
        # binades covered by [lo, hi] * 10^e
        vlo = lo * n10 // d10 if lo * n10 >= d10 else 0
        # exponent of the leading bit
        b0 = (lo * n10).bit_length() - d10.bit_length()
        if lo * n10 < (d10 << b0 if b0 >= 0 else d10 >> -b0):
            b0 -= 1
        for b in (b0, b0 + 1):
            q = max(b - 52, -1074)  # ulp = 2^q
            # 2x = m * 10^e / 2^(q-1); odd integer = midpoint
            num, den = n10, d10
            if q - 1 >= 0:
                den <<= q - 1
            else:
                num <<= 1 - q
            ks = list(convergents(num, den, hi))
            cand = set()
            for i in range(len(ks)):
                k = ks[i]
                kp = ks[i - 1] if i else 0
                if k * 200 < lo and i + 3 < len(ks):
                    continue
                for j in range(0, 4):
                    base = j * kp
                    t0 = max(0, (lo - base + k - 1) // k)
                    t1 = (hi - base) // k
                    for t in set(list(range(t0, min(t0 + 4, t1 + 1))) + list(range(max(t0, t1 - 3), t1 + 1))):
                        cand.add(t * k + base)
            best = []
            for m in cand:
                if not lo <= m <= hi or m % 10 == 0:
                    continue
                # right binade?
                v = m * n10
                if q > -1074:
                    if q + 52 >= 0:
                        ok = (d10 << (q + 52)) <= v < (d10 << (q + 53))
                    else:
                        ok = d10 <= (v << -(q + 52)) and (v << -(q + 52)) < d10 * 2
                    if not ok:
                        continue
                x = m * num
                f, r = divmod(x, den)
                if f % 2 == 1:
                    best.append((r, den, m, e))
                elif f % 2 == 0:
                    best.append((den - r, den, m, e))
            best.sort(key=lambda z: z[0])
            for z in best[:2]:
                res.add((z[3], z[2]))
with open(OUT, "w") as fh:
    for e, m in sorted(res):
        fh.write("%d %d\n" % (m, e))
print(len(res))
