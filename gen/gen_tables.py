#!/usr/bin/env python3
"""Reconstructs c3/lib_funcs/legtens.h and hermtens.h, which this copy of the repository lacks.

Definition (c3_cex/examples/threeprodtens/tprodtens.c, c3/lib_funcs/legpolytens/note):
    T[i + 50 j + 2500 k] = int phi_i phi_j phi_k dmu,  i,j < 50, k < 100
with phi the orthonormal Legendre family for dx/2 on [-1,1], resp. the orthonormal
(probabilists') Hermite family for the standard normal.  Closed forms, not quadrature:
    Legendre  sqrt((2i+1)(2j+1)(2k+1)) * A(s-i)A(s-j)A(s-k) / A(s) / (2s+1),  A(n)=(2n-1)!!/n!
    Hermite   sqrt(i! j! k!) / ((s-i)! (s-j)! (s-k)!),                        s=(i+j+k)/2
usage: gen_tables.py OUTDIR
"""
import math
import os
import sys
from fractions import Fraction

A = [Fraction(1)]
for n in range(1, 120):
    A.append(A[-1] * Fraction(2 * n - 1, n))
F = [math.factorial(n) for n in range(300)]
IA = [a for a in A]


def sqrt_frac(fr):
    # correctly rounded enough: scale to a big integer square root
    num, den = fr.numerator, fr.denominator
    sh = 240
    return float(Fraction(math.isqrt((num << (2 * sh)) // den), 1 << sh)) if num < den << 200 \
        else float(math.isqrt((num << 160) // den)) / 2.0 ** 80


def leg(i, j, k):
    if (i + j + k) % 2:
        return 0.0
    s = (i + j + k) // 2
    if s < max(i, j, k):
        return 0.0
    v = A[s - i] * A[s - j] * A[s - k] / A[s] / (2 * s + 1)
    return float(v) * math.sqrt((2 * i + 1) * (2 * j + 1) * (2 * k + 1))


def herm(i, j, k):
    if (i + j + k) % 2:
        return 0.0
    s = (i + j + k) // 2
    if s < max(i, j, k):
        return 0.0
    return sqrt_frac(Fraction(F[i] * F[j] * F[k], (F[s - i] * F[s - j] * F[s - k]) ** 2))


def emit(path, name, fun):
    memo = {}
    out = ["#include <string.h>\n\nstatic const double %s[250000] = {\n" % name]
    for k in range(100):
        for j in range(50):
            row = []
            for i in range(50):
                key = (i, j, k) if i <= j else (j, i, k)
                if key not in memo:
                    memo[key] = fun(*key)
                v = memo[key]
                row.append("0" if v == 0.0 else repr(v))
            out.append(",".join(row) + ",\n")
    out.append("};\n")
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        f.write("".join(out))
    os.rename(tmp, path)


def main():
    d = sys.argv[1]
    os.makedirs(d, exist_ok=True)
    emit(os.path.join(d, "legtens.h"), "lpolycoeffs", leg)
    emit(os.path.join(d, "hermtens.h"), "hermpolycoeffs", herm)


main()
