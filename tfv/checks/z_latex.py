"""LaTeX of the z ansatz and of the e^T z ansatz against the term-level oracle"""
from collections import Counter

from hypothesis import strategies as st

from .. import core
from .. import target as T
from .. import zterms as Z
from ..target import Violation
from .eT_code import truncation as eT_truncation, valid_trunc as eT_valid, sweep as eT_sweep

MIXED = "eT-latex-mixed-prefactor"


def free_labels(mono):
    """{(label, 'u'/'d')} of the labels appearing once"""
    c, side = Counter(), {}
    for t in mono.tensors:
        if t.name == "delta":
            continue
        for lab in t.up:
            c[lab] += 1
            side[lab] = "u"
        for lab in t.down:
            c[lab] += 1
            side.setdefault(lab, "d")
    return tuple(sorted((lab, side[lab]) for lab in c if c[lab] == 1))


def same_free(monos, what):
    sets = {free_labels(m) for m in monos}
    if len(sets) > 1:
        a = [next(m for m in monos if free_labels(m) == s) for s in sorted(sets)]
        raise Violation(f"{what}: terms with different free indices: {Z.show(a[0])} / {Z.show(a[1])}")


def deltas(monos, what):
    """split  X (1 - delta)  into X, checking that every term comes with its delta partner"""
    pos = [m for m in monos if not any(t.name == "delta" for t in m.tensors)]
    neg = [m for m in monos if any(t.name == "delta" for t in m.tensors)]

    def key(m):
        return (m.f, m.fbar, m.i, tuple((t.name, t.up, t.down, t.dot) for t in m.tensors if t.name != "delta"))
    if Counter((key(m), m.coef) for m in pos) != Counter((key(m), -m.coef) for m in neg):
        raise Violation(f"{what}: a term is not multiplied by (1 - delta)")
    if len({t.extra for m in neg for t in m.tensors if t.name == "delta"}) > 1:
        raise Violation(f"{what}: different delta factors in one sum")
    return pos


class EtLatex(core.Check):
    patience = 600
    id = "C05"
    rule = ("a case is (truncation, LHS/RHS, remove-f flag); the written LaTeX is parsed and, for every projection, its "
            "terms are compared one to one (tensors, contraction pattern, rational prefactor, fbar power, indices) with "
            "the terms of the truncated operator algebra; non-trivial = H, CC and eT all >= 2")
    assumptions = ("the LaTeX is read as mathematics: colours, spacing and line breaks carry no meaning",)

    def explicit(self, tier):
        return [{"v": v, "side": s, "rf": sum(v) % 2 == 1} for v in eT_sweep(tier, 12) for s in ("RHS", "LHS")]

    def examples(self, tier):
        return 300 if tier == "quick" else 3000

    def strategy(self, tier):
        return st.builds(lambda v, s, r: {"v": v, "side": s, "rf": r}, eT_truncation(tier),
                         st.sampled_from(["RHS", "LHS"]), st.booleans())

    def valid(self, case):
        return eT_valid(case["v"]) and case["side"] in ("RHS", "LHS")

    def run(self, case, ctx):
        v, side = case["v"], case["side"]
        text = T.cachedT("generate_eT_z_t_symmetric_latex", "eTz", v, only_ground_state=True,
                         remove_f_terms=case["rf"], lhs_rhs=side)
        blocks = Z.blocks(text)
        want = [(0, n) for n in range(min(v[1], v[4]) + 1)]
        what = f"eT z ansatz {side} LaTeX, truncation (H,CC,T,eT,P)={tuple(v)}"
        if [Z.omega_rank(b[0]) for b in blocks] != want:
            raise Violation(f"{what}: projections {[Z.omega_rank(b[0]) for b in blocks]} instead of {want}")
        tol = Z.mixed_overcount if MIXED in self.allowed else None
        Z.check_note(text, case["rf"], what)
        for blk, (_, p) in zip(blocks, want):
            om, lhs, rhs = blk
            w = f"{what}, projection {p}"
            Z.check_frame(blk, 0, p, w, with_z=side == "RHS")
            if side == "RHS":
                if rhs is None or rhs.strip() == "":
                    raise Violation(f"{w}: no RHS")
                bare, mid, last = Z.split_eT_rhs(Z.parse(rhs, w), p, w)
                Z.check_bare(bare, p, 0, w)
                labs = [tuple(sorted(labels)) for _, labels in Z.check_last(last, 0, p, v[1], w)]
                if len(set(labs) | {tuple(sorted(next(t for t in m.tensors if t.name == "h").up)) for m in bare}) > 1:
                    raise Violation(f"{w}: bare and derivative terms use different free indices")
            else:
                if lhs is None:
                    raise Violation(f"{w}: no LHS")
                mid = Z.parse(lhs, w)
            for m in mid:
                if m.f:
                    raise Violation(f"{w}: f factor in {Z.show(m)}")
            notes = []
            Z.compare([(Z.signature_eT(m, p, side, w), m.coef, m.fbar, m) for m in mid],
                      Z.expected_eT(v, side, p), w, tol, notes)
            same_free(mid, w)
            if notes:
                ctx.finding(MIXED)
            ctx.count("terms compared", len(mid))
        ctx.count(side)
        ctx.interesting(min(v[0], v[1], v[3]) >= 2)


class ZhzLatex(core.Check):
    id = "C06"
    rule = ("a case is (truncation, remove-f flag, side asked for, which must not matter); the written LaTeX is parsed and, for every projection operator, its terms "
            "are compared one to one with the normal-ordered product H z; all 216 truncations are enumerated in every run; "
            "non-trivial = H and CC >= 2")
    assumptions = EtLatex.assumptions

    def explicit(self, tier):
        return [{"v": [H, CC, P], "rf": rf, "side": side} for H in range(1, 7) for CC in range(1, 7) for P in range(1, 7)
                for rf in (False, True) for side in ("RHS", "LHS")]

    def valid(self, case):
        return all(1 <= x <= 6 for x in case["v"]) and len(case["v"]) == 3

    def run(self, case, ctx):
        v = case["v"]
        text = T.cachedT("generate_z_t_symmetric_latex", "zhz", v, only_ground_state=True, remove_f_terms=case["rf"],
                         lhs_rhs=case["side"])
        blocks = Z.blocks(text)
        what = f"z ansatz LaTeX, truncation (H,CC,P)={tuple(v)}"
        want = Counter((a, n - a) for n in range(min(v[1], v[2]) + 1) for a in range(n + 1))
        if Counter(Z.omega_rank(b[0]) for b in blocks) != want:
            raise Violation(f"{what}: projections {[Z.omega_rank(b[0]) for b in blocks]}")
        Z.check_note(text, case["rf"], what)
        for blk in blocks:
            om, lhs, rhs = blk
            a, b = Z.omega_rank(om)
            w = f"{what}, projection ({a} up, {b} down)"
            Z.check_frame(blk, a, b, w)
            if rhs is None:
                raise Violation(f"{w}: no RHS")
            bare, mid, last = Z.split_eT_rhs(Z.parse(rhs, w), 0, w)
            Z.check_bare(bare, b, a, w)
            mid = deltas(mid, w)
            Z.compare([(Z.signature_zhz(m, a, b, w), m.coef, m.fbar, m) for m in mid], Z.expected_zhz(v, a, b), w)
            same_free(mid, w)
            outer = set()
            for m in bare:
                h = next(t for t in m.tensors if t.name == "h")
                outer.add(tuple(sorted(h.up + h.down)))
            for m, labels in Z.check_last(last, a, b, v[1], w):
                if len(set(labels)) != len(labels):
                    raise Violation(f"{w}: repeated index in {Z.show(m)}")
                outer.add(tuple(sorted(labels)))
            if len(outer) > 1:
                raise Violation(f"{w}: bare and derivative terms use different free indices {sorted(outer)}")
            ctx.count("terms compared", len(mid))
        ctx.interesting(v[0] >= 2 and v[1] >= 2)
