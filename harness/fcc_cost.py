"""Rough number of einsums a ground state full CC module contains (only used to pick configurations)."""
from functools import lru_cache
from math import factorial
import itertools


@lru_cache(None)
def ways(cc, k, rn, ro, start):
    """number of multisets of exactly k (c, e) types (index >= start) with sum c = rn, sum e = ro"""
    if k == 0:
        return 1 if rn == 0 and ro == 0 else 0
    types = [(c, e) for c in range(cc + 1) for e in range(cc + 1) if 1 <= c + e <= cc]
    tot = 0
    for i in range(start, len(types)):
        c, e = types[i]
        if c <= rn and e <= ro:
            tot += ways(cc, k - 1, rn - c, ro - e, i)
    return tot


@lru_cache(None)
def einsums(H, CC, S, n):
    tot = 0
    for m in range(min(H, n) + 1):
        for hn in range(H - m + 1):
            for k in range(1, S + 1):
                tot += ways(CC, k, hn, n - m, 0) * (factorial(k) if k > 1 else factorial(n))
    return tot


def cost(H, CC, S, P):
    return sum(einsums(H, CC, S, n) for n in range(min(CC, P) + 1))


if __name__ == '__main__':
    R = range(1, 7)
    cs = sorted((cost(*c), c) for c in itertools.product(R, R, R, (6,)))
    for lim in (1000, 3000, 10000, 30000, 100000, 10**6):
        k = [x for x in cs if x[0] <= lim]
        print(lim, len(k), sum(x[0] for x in k))
    print(cs[-5:])
    for S in R:
        print(S, [cost(6, CC, S, 6) for CC in R])
