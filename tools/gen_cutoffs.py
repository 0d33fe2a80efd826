#!/usr/bin/env python3
"""Derives the health test cutoff tables used by the reference model from the
formulas documented in the library (independent of the tables in the code) and
writes /verif/lib/cutoffs.hpp. Run by hand with python3-vt; output committed."""
import os
from mpmath import mp, mpf, floor, sqrt
mp.prec = 400

def qbinom(alpha, n, p):
    """smallest k with P(X <= k) >= 1 - alpha, via the upper tail"""
    q = 1 - p
    # tail(k) = P(X > k); walk down from n
    tail = mpf(0)
    term = p ** n           # P(X = n)
    k = n
    while k >= 0:
        if tail + term > alpha:    # P(X > k-1) > alpha -> answer is k
            return k
        tail += term
        # P(X=k-1) = P(X=k) * k/(n-k+1) * q/p
        term = term * k / (n - k + 1) * q / p
        k -= 1
    return 0

def lag_local(alpha, n, p):
    q = 1 - p
    r = 1
    while True:
        x = mpf(1)
        for _ in range(300):
            nx = 1 + q * p ** r * x ** (r + 1)
            if abs(nx - x) < mpf(10) ** -100:
                x = nx
                break
            x = nx
            if x > 10:
                break
        if x < 10:
            pr = (1 - p * x) / ((r + 1 - r * x) * q) * x ** -(n + 1)
            if pr >= 1 - alpha:
                return r
        r += 1

def rctmem(osr, sf, tau, cap):
    n = 107 * osr
    p = mpf(2) ** (1 - mpf(sf) / osr)
    pp = min(p, mpf(1) / 2)
    c = int(floor(n * p + tau * sqrt(n * pp * (1 - pp))))
    return min(c, cap)

O = range(1, 21)
T = {}
for name, sf in (("common", 1), ("ntg1", 8)):
    T["apt_" + name] = [min(512, 2 + qbinom(mpf(2) ** -30, 511, mpf(2) ** (-mpf(sf) / o))) for o in O]
    T["apt_perm_" + name] = [min(512, 2 + qbinom(mpf(2) ** -60, 511, mpf(2) ** (-mpf(sf) / o))) for o in O]
    T["rctmem_" + name] = [rctmem(o, sf, 4, 107 * o) for o in O]
    T["rctmem_perm_" + name] = [rctmem(o, sf, 5, 107 * o + 1) for o in O]
N = (1 << 17) - 8
T["lag_global"] = [qbinom(mpf(2) ** -22, N, mpf(2) ** (-mpf(1) / o)) for o in O]
T["lag_global_perm"] = [qbinom(mpf(2) ** -44, N, mpf(2) ** (-mpf(1) / o)) for o in O]
T["lag_local"] = [lag_local(mpf(2) ** -22, N, mpf(2) ** (-mpf(1) / o)) for o in O]
T["lag_local_perm"] = [lag_local(mpf(2) ** -44, N, mpf(2) ** (-mpf(1) / o)) for o in O]
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "cutoffs.hpp")
os.makedirs(os.path.dirname(p), exist_ok=True)
with open(p, "w") as f:
    f.write("// generated by tools/gen_cutoffs.py from the documented formulas\n#pragma once\n")
    for k, v in T.items():
        f.write("static const unsigned cut_%s[20] = {%s};\n" % (k, ", ".join(map(str, v))))
