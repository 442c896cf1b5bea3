"""Independent enumerator of the full-CC contractions.

omega (a `up`, b `down`) * h(m, n) * t_1 ... t_k.  Every index of omega, h and the t's is
contracted exactly once: omega's down operators with creation indices of h or t, omega's up
operators with annihilation indices, h's lower indices with t upper ones, h's upper with t lower
ones; t's never contract among themselves.  A diagram is (h, multiset of t), each t described by
(m_h, n_h, m_o, n_o): creation/annihilation indices contracted with h / omega."""
from fractions import Fraction
from functools import lru_cache
from itertools import combinations_with_replacement
from math import factorial


@lru_cache(maxsize=None)
def t_shapes(CC, ground):
    """every way one cluster amplitude can be split between h and omega"""
    out = []
    for m in range(CC + 1):
        for n in range((0 if ground else CC - m) + 1):
            if m + n == 0:
                continue
            for mh in range(m + 1):
                for nh in range(n + 1):
                    out.append((mh, nh, m - mh, n - nh))
    return tuple(out)


def diagrams(H, CC, S, ground, a, b):
    """yield (kind, (hm, hn), sorted tuple of t) for one omega"""
    shapes = t_shapes(CC, ground)
    usable = [t for t in shapes if t[2] <= b and t[3] <= a and t[0] <= H and t[1] <= H]
    for k in range(S + 1):
        yield from _rec(H, usable, 0, k, (), 0, 0, b, a)


def _rec(H, usable, start, k, chosen, sm, sn, b, a):
    # sm: t creation indices contracted with h (needs h.n), sn: t annihilation ones (needs h.m)
    if k == 0:
        for hm in range(H + 1):
            for hn in range(H + 1 - hm):
                up, down = hm - sn, hn - sm       # external indices on h
                if up == b and down == a:
                    yield (classify(chosen, (hm, hn), up, down), (hm, hn), tuple(sorted(chosen)), up, down)
        return
    for idx in range(start, len(usable)):
        t = usable[idx]
        if t[2] > b or t[3] > a or sm + t[0] + sn + t[1] > H:
            continue
        yield from _rec(H, usable, idx, k - 1, chosen + (t,), sm + t[0], sn + t[1], b - t[2], a - t[3])


def classify(ts, h, up, down):
    if not ts:
        return "connected"
    if all(t[0] + t[1] > 0 for t in ts):
        return "connected"
    rest_ext = up + down + sum(t[2] + t[3] for t in ts if t[0] + t[1])
    free = [t for t in ts if t[0] + t[1] == 0]
    if len(free) == 1 and rest_ext == 0:
        return "unlinked"
    return "linked"


def prefactor(h, ts, printed_bare_rule=True):
    """documented rule: x!/(m! n! k!), x = number of distinct t's contracted with h;
    a bare Hamiltonian always carries 1"""
    if not ts:
        return Fraction(1)
    x = len({t for t in ts if t[0] + t[1]})
    return Fraction(factorial(x), factorial(h[0]) * factorial(h[1]) * factorial(len(ts)))
