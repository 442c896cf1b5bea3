"""Numeric oracle of the generated full-CC python."""
import itertools
import re
import types
from math import factorial

import numpy as np

from . import fcc as F
from . import genexec as G
from .eTnum import TAGS, sym
from .target import Violation

TTAGS = (None, "singles", "doubles", "triples", "quadruples", "quintuples", "sextuples")
ELEC = "cdefghijkl"
GROUND = types.SimpleNamespace(ground_state=True)
KINDS = {"connected": "fully_connected", "linked": "linked_disconnected", "unlinked": "unlinked_disconnected"}


def tensors(values, A, N, data):
    H, CC = values[0], values[1]
    rng = np.random.default_rng(data)

    def R(*s):
        return rng.integers(-3, 4, size=s) + 1j * rng.integers(-3, 4, size=s)
    h = {(m, n): sym(R(*((A, A) + (N,) * (m + n))), 2) / max(1, factorial(m + n) // 4)
         for m in range(H + 1) for n in range(H + 1 - m)}
    t = {(m, 0): sym(R(*((A, A) + (N,) * m)), 2) / max(1, factorial(m) // 4) for m in range(1, CC + 1)}
    return h, t


def symmetric(x):
    """average over all permutations of the mode axes"""
    r = x.ndim - 2
    return x if r < 2 else sym(x, 2) / factorial(r)


def chain(h, ts, order, H, Tt):
    """one ordered contraction  h t_order[0] t_order[1] ...  (surface indices multiply as matrices)"""
    up, down = h
    lab = iter("klmnopqrstuvwxyzKLMNOPQRSTUVWXYZ")
    hl = [next(lab) for _ in range(up + down)]       # creation labels first
    ext = hl[:up]
    con = hl[up:]
    tl, pos = [], 0
    for (mh, _, mo, _) in ts:
        mine = con[pos:pos + mh]
        pos += mh
        o = [next(lab) for _ in range(mo)]
        ext = ext + o
        tl.append("".join(mine + o))
    terms, ops, prev = ["ac" + "".join(hl)], [H[h]], "c"
    for k, i in enumerate(order):
        nxt = "b" if k == len(order) - 1 else "defghij"[k]
        terms.append(prev + nxt + tl[i])
        ops.append(Tt[(ts[i][0] + ts[i][2], 0)])
        prev = nxt
    return np.einsum(",".join(terms) + "->ab" + "".join(ext), *ops, optimize=len(ops) > 3)


def expected(values, a, b, H, Tt, off, A, N):
    """{kind: tensor}; (a ups, b downs) projection, ground state, no f terms"""
    out = {k: np.zeros((A, A) + (N,) * (a + b), dtype=complex) for k in KINDS}
    nterms = {k: 0 for k in KINDS}
    hcap, cap, S, _ = values
    if a:
        return out, nterms          # a `d` operator needs an f term in the ground state
    for kind, h, ts, up, down in F.diagrams(hcap, cap, S, True, a, b):
        if down:
            continue
        nterms[kind] += 1
        if ts:
            lev = max(h)
            if lev and f"at_least_{TAGS[lev]}" in off:
                continue
            if TTAGS[max(sum(t) for t in ts)] in off:
                continue
        pre = float(F.prefactor(h, ts))
        if not ts:
            out[kind] = out[kind] + symmetric(H[h])
            continue
        acc = 0
        seen = {}
        for order in itertools.permutations(range(len(ts))):
            key = tuple(ts[i] for i in order)
            if key not in seen:
                seen[key] = symmetric(chain(h, ts, order, H, Tt))
            acc = acc + seen[key]
        if len(ts) == 1:
            acc = acc * factorial(b)
        out[kind] = out[kind] + pre * acc
    return out, nterms


def projections(ns, suffix=""):
    pat = re.compile(r"compute_m(\d+)_n(\d+)_amplitude" + suffix + "$")
    return sorted((int(m.group(1)), int(m.group(2))) for k in ns for m in [pat.match(k)] if m)


def flags(off):
    off = set(off)
    return G.Flags(lambda name: name not in off)
