"""generated python of the e^T z ansatz against the operator algebra"""
from hypothesis import strategies as st

from .. import core, eTnum
from .. import genexec as G
from ..target import Violation

import numpy as np
import types

MISSING = "eT-rhs-h00-z"


def affordable(v, tier):
    """generation cost grows steeply with CC and eT together"""
    H, CC, _, eT, P = v
    if tier == "quick":
        return CC <= 4 or (CC == 5 and eT <= 5) or (CC == 6 and eT <= 4)
    return CC <= 5 or (CC == 6 and eT <= 5)


def sweep(tier, small=0):
    """every (H, CC, eT) whose generation is affordable, all projections (any limit on them when CC * eT <= small); dearest first"""
    out = []
    for H in range(1, 7):
        for CC in range(1, 7):
            for eT in range(1, 9):
                if tier == "quick":
                    ok = CC <= 5 or eT <= 6 or H == 1 or (eT == 7 and H in (3, 6))
                else:
                    ok = CC <= 5 or eT <= 6 or H in (2, 6)
                if ok:
                    out += [[H, CC, 1, eT, P] for P in range(1 if CC * eT <= small else 6, 7)]
    return sorted(out, key=lambda v: (-v[1] * v[3], v))


@st.composite
def truncation(draw, tier):
    CC = draw(st.sampled_from([1, 2, 2, 3, 3, 3, 4, 4, 4, 5, 6]))
    emax = next(e for e in range(8, 0, -1) if affordable((1, CC, 1, e, 1), tier))
    eT = draw(st.integers(1, emax))
    H = draw(st.integers(1, 6))
    P = draw(st.integers(1, 6))
    return [H, CC, 1, eT, P]


def valid_trunc(v):
    H, CC, T, eT, P = v
    return 1 <= H <= 6 and 1 <= CC <= 6 and T == 1 and 1 <= eT <= 8 and 1 <= P <= 6


class _Base(core.Check):
    patience = 600
    side = None

    def valid(self, case):
        return valid_trunc(case["v"]) and case["A"] >= 1 and case["N"] >= 1

    def interesting(self, case, ctx):
        v = case["v"]
        ctx.count(f"CC={v[1]}")
        ctx.count(f"eT={v[3]}")
        ctx.count(f"H={v[0]}")
        ctx.interesting(v[0] >= 2 and v[1] >= 2 and v[3] >= 2)


def sizes(v):
    # one size with A != N and one larger mode space when the ranks are small
    if max(v[0], v[1]) <= 3:
        return [(2, 3), (3, 2), (1, 2), (3, 1), (1, 1)]
    return [(3, 2), (1, 2), (2, 2), (2, 1)]


class _Compare(_Base):
    assumptions = (
        "Hamiltonian, z and derivative tensors are symmetric under interchange of mode indices, as the model's are",
        "numpy.einsum evaluates the generated contractions; opt_einsum is not called",
    )
    rule = ("a case is (truncation, tensor sizes, data seed): the module is generated, executed on random "
            "tensors and every projection compared with polynomial operator algebra; non-trivial = H, CC and "
            "eT all >= 2")

    def explicit(self, tier):
        return [{"v": v, "A": 2, "N": 2, "data": 1} for v in sweep(tier, 12 if tier == "quick" else 24)]

    def examples(self, tier):
        return 320 if tier == "quick" else 4800

    def strategy(self, tier):
        @st.composite
        def case(draw):
            v = draw(truncation(tier))
            A, N = draw(st.sampled_from(sizes(v)))
            return {"v": v, "A": A, "N": N, "data": draw(st.integers(0, 1000)), "rf": draw(st.integers(0, 3)) == 0}
        return case()

    def run(self, case, ctx):
        allow = MISSING if MISSING in self.allowed else None
        eTnum.compare(case, case["v"], self.side, ctx, allow)
        self.interesting(case, ctx)


class RHS(_Compare):
    id = "C01"
    side = "RHS"


class LHS(_Compare):
    id = "C02"
    side = "LHS"


def switch_names(v):
    return [f"h_at_least_{t}" for t in eTnum.TAGS[1:v[0] + 1]] + [f"z_at_least_{t}" for t in eTnum.TAGS[1:v[1] + 1]] + ["t_singles"]


def refused(fn, how, msg):
    try:
        fn()
    except Violation as e:
        if isinstance(e.__cause__, how):
            return
        raise
    raise Violation(msg)


class Gates(_Base):
    id = "C03"
    rule = ("a case is (truncation, side, set of run-time truncation switches that are off, sizes, data seed); "
            "the generated module is run with those switches off and compared with the operator algebra in which "
            "exactly the tensors those switches stand for are zero; non-trivial = at least one switch off and "
            "CC >= 2")
    assumptions = _Compare.assumptions

    def explicit(self, tier):
        out = []
        for side in ("RHS", "LHS"):
            for v in ([3, 3, 1, 3, 3], [6, 4, 1, 2, 4], [4, 2, 1, 5, 2], [2, 5, 1, 3, 5], [6, 6, 1, 1, 6], [2, 6, 1, 2, 6], [1, 6, 1, 3, 4]):
                names = switch_names(v)
                # each switch alone off, each alone on, every level of the h and z ladders
                for off in [[n] for n in names] + [names] + [[m for m in names if m != n] for n in names]:
                    out.append({"v": v, "side": side, "A": 2, "N": 2, "data": 1, "off": off})
            # every subset of switches
            for v in ([3, 3, 1, 3, 3], [6, 2, 1, 2, 2], [2, 6, 1, 2, 6]):
                names = switch_names(v)
                for k in range(1 << len(names)):
                    out.append({"v": v, "side": side, "A": 1, "N": 2, "data": 2, "off": [n for i, n in enumerate(names) if k >> i & 1]})
            for lv in range(0, 7):
                out.append({"v": [1, 6, 1, 1, 6], "side": side, "A": 1, "N": 2, "data": 1, "off": [], "level": lv})
        return out

    def examples(self, tier):
        return 480 if tier == "quick" else 4800

    def strategy(self, tier):
        @st.composite
        def case(draw):
            v = draw(truncation(tier))
            A, N = draw(st.sampled_from(sizes(v)))
            names = switch_names(v)
            how = draw(st.sampled_from(["any", "few", "ladder"]))
            if how == "ladder":
                a, b = draw(st.integers(0, v[0])), draw(st.integers(0, v[1]))
                off = [f"h_at_least_{t}" for t in eTnum.TAGS[a + 1:v[0] + 1]] + [f"z_at_least_{t}" for t in eTnum.TAGS[b + 1:v[1] + 1]]
            else:
                off = sorted(draw(st.sets(st.sampled_from(names), max_size=len(names) if how == "any" else 2)))
            return {"v": v, "side": draw(st.sampled_from(["RHS", "LHS"])), "A": A, "N": N,
                    "data": draw(st.integers(0, 1000)), "off": off, "rf": draw(st.integers(0, 3)) == 0, "level": draw(st.sampled_from([6, 6, 6, 0, 1, 2, 3, 4, 5]))}
        return case()

    def run(self, case, ctx):
        allow = MISSING if MISSING in self.allowed else None
        v, side = case["v"], case["side"]
        eTnum.compare(case, v, side, ctx, allow)
        # a hot band request is refused, never answered with a number
        ns = eTnum.namespace(v, side, case.get("rf", False))
        d = eTnum.tensors(v, case["A"], case["N"], case["data"])
        hot = types.SimpleNamespace(ground_state=False)
        for p in range(min(v[1], v[4]) + 1):
            for opt in (False, True):
                w = f"projection {p} of {v} {side}{' optimized' if opt else ''}"
                refused(lambda: eTnum.call(ns, p, side, case["A"], case["N"], eTnum.flags({"off": case["off"]}), d, opt, hot),
                        NotImplementedError, f"{w}: a non ground state ansatz is not refused")
                if opt and max(p, 1) > case.get("level", 6):
                    refused(lambda: eTnum.call(ns, p, side, case["A"], case["N"], eTnum.flags(case), d, opt), G.NotConfirmed,
                            f"{w}: answered above the run-time truncation level")
        ctx.count("switches off", len(case["off"]))
        ctx.interesting(bool(case["off"]) and v[1] >= 2)


class Optimized(_Base):
    id = "C04"
    rule = ("a case is (truncation, side, switches off, sizes, data seed); default and optimized function of every "
            "projection are run on the same tensors and must agree; non-trivial = H, CC and eT all >= 2")
    assumptions = _Compare.assumptions
    strategy = Gates.strategy

    def explicit(self, tier):
        return [{"v": v, "side": s, "A": 2, "N": 2, "data": 1, "off": []}
                for v in sweep("quick") for s in ("RHS", "LHS")]

    def examples(self, tier):
        return 480 if tier == "quick" else 4800

    def run(self, case, ctx):
        v, side, A, N = case["v"], case["side"], case["A"], case["N"]
        ns = eTnum.namespace(v, side, case.get("rf", False))
        ps = [p for p in eTnum.projections(ns) if max(p, 1) <= case.get("level", 6)]
        # the second evaluation must not see anything of the first
        for A, N, data in ((A, N, case["data"]), (A % 2 + 1, 3 - N if N < 3 else 2, case["data"] + 1)):
            d = eTnum.tensors(v, A, N, data)
            for p in ps:
                a = eTnum.call(ns, p, side, A, N, eTnum.flags(case), d)
                b = eTnum.call(ns, p, side, A, N, eTnum.flags(case), d, optimized=True)
                scale = max(1.0, float(np.abs(a).max()))
                if not np.allclose(a, b, rtol=0, atol=1e-9 * scale):
                    raise Violation(f"eT z ansatz {side} code {tuple(v)} projection {p} (A={A}, N={N}, off={case['off']}): the optimized "
                                    f"function differs from the default one by {np.abs(a - b).max():.6g}")
                ctx.count("projections compared")
        self.interesting(case, ctx)
