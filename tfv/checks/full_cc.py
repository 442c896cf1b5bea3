"""full CC: LaTeX diagrams, generated code, optimized/default correspondence"""
import itertools
import re
import types
from collections import Counter, deque
from functools import lru_cache
from math import comb, factorial

import numpy as np
from hypothesis import strategies as st

from .. import core
from .. import fcc as F
from .. import fccnum as FN
from .. import genexec as G
from .. import target as T
from .. import zterms as Z
from ..eTnum import TAGS
from ..target import Violation
from .z_latex import free_labels

DROPPED = "fcc-latex-long-remainder"
BARE = "fcc-paths-no-subscripts"
MASTER = "fcc-all-paths-list"


def work(v):
    """estimate of the size of the expansion"""
    H, CC, S, P = v
    eff = min(CC, P)
    return comb(CC + S, S) * comb(H + S, S) ** 0.8 * (1 + eff) ** 2 * (1, 1, 1, 1, 1, 2, 6)[S]


@lru_cache(maxsize=None)
def products(H, CC, S, b):
    """number of contractions the generated code spells out for b creation operators (ground state)"""
    return sum(factorial(len(ts)) if len(ts) > 1 else factorial(b)
               for _, _, ts, _, down in F.diagrams(H, CC, S, True, 0, b) if not down)


def contractions(v):
    return sum(products(*v[:3], b) for b in range(min(v[1], v[3]) + 1))


@lru_cache(maxsize=None)
def cost(v):
    """seconds to generate the python and to evaluate it once with a single mode (measured: within a factor 1.5)"""
    return 5e-6 * work(v) + 6e-4 * contractions(v)


def excited_cost(v):
    """seconds to generate and to read the LaTeX of the excited state (measured: within a factor 3)"""
    H, CC, S, P = v
    amplitudes, projections = CC * (CC + 3) / 2, min(CC, P)
    return 1.56e-5 * 1.048 ** S * amplitudes ** (0.714 * S) * comb(H + 2, 2) ** 1.06 * comb(projections + 2, 2) ** 1.2


def affordable(cap):
    """every allowed truncation whose generated python costs at most cap seconds, dearest first;
    projection limits above the cluster limit add nothing, only the cheap ones are kept.
    compiling takes 100 KB per contraction, which sets the limit"""
    out = [v for v in itertools.product(range(1, 7), repeat=4) if cost(v) <= (cap if v[3] <= v[1] else cap / 20)
           and contractions(v) <= 26000]
    return [list(v) for v in sorted(out, key=lambda v: (-cost(v), v))]


@st.composite
def affordable_truncation(draw, cap):
    v = [draw(st.integers(1, 6)), draw(st.integers(1, 6)), draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 6])), draw(st.integers(1, 6))]
    while cost(tuple(v)) > cap:
        k = max((0, 1, 3), key=lambda i: (v[i], i))
        if v[k] == 1:
            k = 2
        v[k] -= 1
    return v


@st.composite
def truncation(draw, cap):
    S = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 6]))
    H = draw(st.integers(1, 6))
    CC = draw(st.integers(1, 6))
    while work((H, CC, S, 1)) > cap:
        if CC >= H:
            CC -= 1
        else:
            H -= 1
    P = draw(st.integers(1, 6))
    while work((H, CC, S, P)) > cap:
        P -= 1
    return [H, CC, S, P]


def valid_trunc(v):
    return len(v) == 4 and all(1 <= x <= 6 for x in v)


def everything(cap):
    """every allowed truncation up to a size, dearest first"""
    out = [list(v) for v in itertools.product(range(1, 7), repeat=4) if work(v) <= cap]
    return sorted(out, key=lambda v: (-work(v), v))


class _Fcc(core.Check):
    patience = 300
    def smaller(self, case):
        """smaller truncations, cheapest first, then everything else"""
        v = case["v"]
        below = [list(x) for x in itertools.product(*[range(1, k + 1) for k in v]) if list(x) != v]
        for x in sorted(below, key=lambda x: (work(x), x)):
            if work(x) < work(v):
                yield {**case, "v": x}
        for k in sorted(case):
            if k != "v":
                for c in core._smaller(case[k]):
                    yield {**case, k: c}


# ------------------------------------------------------------------ LaTeX
def partitions(a, b, cap):
    """multisets of (up, down) blocks summing to (a, b), each of rank <= cap"""
    blocks = [(x, y) for x in range(a + 1) for y in range(b + 1) if 0 < x + y <= cap]

    def rec(x, y, start):
        if x == y == 0:
            yield ()
        for i in range(start, len(blocks)):
            u, w = blocks[i]
            if u <= x and w <= y:
                for rest in rec(x - u, y - w, i):
                    yield (blocks[i],) + rest
    return list(rec(a, b, 0))


BLOCK = re.compile(r"\\begin\{align\}\s*\\begin\{split\}(.*?)\\end\{split\}", re.S)


class Latex(_Fcc):
    id = "C07"
    rule = ("a case is (truncation, ground/excited state, remove-f flag); the written LaTeX is parsed and for every "
            "projection operator the right hand side's diagrams (tensors, contraction pattern, rational prefactor, f and "
            "fbar powers) are compared one to one with an independent enumeration, the left hand side with the product "
            "rule; projections of rank > 3 must be refused; non-trivial = H, CC, S >= 2")
    assumptions = ("the LaTeX is read as mathematics: colours, spacing and line breaks carry no meaning",
                   "prefactors follow the documented rule x!/(m! n! k!)")

    def explicit(self, tier):
        big = tier == "thorough"
        out = []
        for v in everything(float("inf")):
            w, refused = work(v), min(v[1], v[3]) > 3
            if refused and v[0] * v[2] > 4:
                continue            # refused whatever the rest is: a few of them will do
            if v[3] <= 3 or w < (1e5 if big else 3e3):
                for rf in (False, True):
                    if not rf or w < (1e7 if big else 2e5):
                        out.append({"v": v, "ground": True, "rf": rf})
            if v[3] <= 3:
                t = excited_cost(v) / (10 if big else 1)
                out += [{"v": v, "ground": False, "rf": rf} for rf in (False, True) if t < (4 if rf else 8)]
        return sorted(out, key=lambda c: -(work(c["v"]) / 1e5 if c["ground"] else excited_cost(c["v"])))

    def examples(self, tier):
        return 300 if tier == "quick" else 3000

    def strategy(self, tier):
        @st.composite
        def case(draw):
            g = draw(st.booleans())
            # the number of amplitudes of excited states grows quadratically
            v = draw(truncation(1e5 if g else 1e4 if tier == "quick" else 4e4))
            if min(v[1], v[3]) > 3 and draw(st.integers(0, 9)):
                v[3] = draw(st.integers(1, 3))      # higher projections are refused
            return {"v": v, "ground": g, "rf": draw(st.booleans()), "side": draw(st.sampled_from(["RHS", "LHS"]))}
        return case()

    def valid(self, case):
        # excited states of large truncations do not fit in memory
        return valid_trunc(case["v"]) and (case["ground"] or excited_cost(case["v"]) < 80)

    def run(self, case, ctx):
        v, ground, rf = case["v"], case["ground"], case["rf"]
        H, CC, S, P = v
        M = min(CC, P)
        what = f"full CC LaTeX (H,CC,S,P)={tuple(v)} {'ground' if ground else 'excited'} state{' no f' if rf else ''}"
        try:
            text = T.cachedT("generate_full_cc_latex", "fcc", v, only_ground_state=ground, remove_f_terms=rf,
                             lhs_rhs=case.get("side", "RHS"))
        except Violation as e:
            if M >= 4 and isinstance(e.__cause__, NotImplementedError):
                ctx.count("refused (rank > 3)")
                return
            raise
        body = text.split(r"\clearpage")[-1]
        seen = Counter()
        for found in BLOCK.finditer(body):
            blk = found.group(1)
            parts = re.split(r"(LHS|RHS)\s*&=", blk)
            if len(parts) != 5 or parts[1] != "LHS" or parts[3] != "RHS":
                raise Violation(f"{what}: malformed equation block")
            a, b = Z.omega_rank(parts[0])
            seen[(a, b)] += 1
            w = f"{what}, projection ({a} up, {b} down)"
            Z.check_heading(Z.heading_before(body, found.start()), a + b, w)
            self.rhs(parts[4], w, v, ground, rf, a, b, ctx)
            used = self.lhs(parts[2], w, v, a, b, ctx)
            if a + b and used != {tuple(Z.omega_labels(parts[0], w))}:
                raise Violation(f"{w}: the left hand side's indices are not the projection operator's")
        want = Counter((a, n - a) for n in range(M + 1) for a in range(n + 1))
        if seen != want:
            raise Violation(f"{what}: equations for projections {sorted(seen.elements())}")
        ctx.count("ground" if ground else "excited")
        ctx.interesting(min(H, CC, S) >= 2)

    def rhs(self, text, w, v, ground, rf, a, b, ctx):
        H, CC, S, P = v
        want = {}
        for kind, h, ts, up, down in F.diagrams(H, CC, S, ground, a, b):
            if not (rf and down):
                want[(h, ts)] = (kind, F.prefactor(h, ts), up, down)
        got = Counter()
        monos = Z.parse(text, w)
        for m in monos:
            where = Z.index_check(m, a + b, w)
            hp = [p for p, t in enumerate(m.tensors) if t.name == "h" and not t.dot]
            if len(hp) != 1:
                raise Violation(f"{w}: not exactly one Hamiltonian in {Z.show(m)}")
            ht = m.tensors[hp[0]]
            ts = []
            for p, t in enumerate(m.tensors):
                if p == hp[0]:
                    continue
                if t.name != "t" or t.dot:
                    raise Violation(f"{w}: unexpected tensor in {Z.show(m)}")
                for lab in t.up + t.down:
                    if len(where[lab]) == 2 and hp[0] not in (where[lab][0][0], where[lab][1][0]):
                        raise Violation(f"{w}: two cluster amplitudes contracted with each other in {Z.show(m)}")
                mh = sum(1 for lab in t.up if len(where[lab]) == 2)
                nh = sum(1 for lab in t.down if len(where[lab]) == 2)
                ts.append((mh, nh, len(t.up) - mh, len(t.down) - nh))
            key = ((len(ht.up), len(ht.down)), tuple(sorted(ts)))
            fl = free_labels(m)
            if sum(1 for _, s in fl if s == "u") != b:
                raise Violation(f"{w}: free indices do not match the projection in {Z.show(m)}")
            if key not in want:
                raise Violation(f"{w}: unexpected diagram {Z.show(m)} {key}")
            got[key] += 1
            if got[key] > 1:
                raise Violation(f"{w}: diagram printed twice {Z.show(m)}")
            kind, c, up, down = want[key]
            if c != m.coef:
                raise Violation(f"{w}: prefactor {m.coef} instead of {c} in {Z.show(m)}")
            if (m.f, m.fbar) != (down, up) or m.i:
                raise Violation(f"{w}: f^{m.f} fbar^{m.fbar} instead of f^{down} fbar^{up} in {Z.show(m)}")
        miss = [k for k in want if k not in got]
        if miss:
            nc = sum(1 for k in want.values() if k[0] == "connected")
            kinds = Counter(want[k][0] for k in miss)
            if DROPPED in self.allowed and nc >= 14 and kinds == {"connected": nc % 7}:
                ctx.finding(DROPPED)
            else:
                raise Violation(f"{w}: {len(miss)} diagram(s) missing, e.g. h{miss[0][0]} t{miss[0][1]}")
        ctx.count("diagrams compared", len(got))

    def lhs(self, text, w, v, a, b, ctx):
        monos = Z.parse(text, w + " LHS")
        want = Counter()
        # omega's `down` operators need creation (upper) indices
        for part in partitions(b, a, max(a + b, 1)):
            part = tuple(sorted(part))
            for i in range(len(part)):
                rest = part[:i] + part[i + 1:]
                want[(part[i], rest, 0)] += 1
            want[(None, part, 1)] += 1
        got = Counter()
        labels = set()
        for m in monos:
            if m.coef != 1 or m.i != 1 or m.f or m.fbar:
                raise Violation(f"{w} LHS: unexpected factor in {Z.show(m)}")
            dots = [t for t in m.tensors if t.dot]
            eps = [t for t in m.tensors if t.name == "eps"]
            rest = [t for t in m.tensors if t.name == "t" and not t.dot]
            if len(dots) + len(eps) != 1 or len(dots) + len(eps) + len(rest) != len(m.tensors) or \
                    any(t.name != "t" for t in dots):
                raise Violation(f"{w} LHS: malformed term {Z.show(m)}")
            shape = tuple(sorted((len(t.up), len(t.down)) for t in rest))
            got[((len(dots[0].up), len(dots[0].down)) if dots else None, shape, len(eps))] += 1
            labs = tuple(sorted(x for t in m.tensors for x in t.up + t.down))
            if len(set(labs)) != a + b or len(labs) != a + b:
                raise Violation(f"{w} LHS: wrong indices in {Z.show(m)}")
            labels.add(labs)
        if got != want:
            raise Violation(f"{w} LHS: product rule violated: missing {list((want - got).elements())[:3]}, "
                            f"extra {list((got - want).elements())[:3]}")
        if len(labels) > 1:
            raise Violation(f"{w} LHS: terms use different indices {sorted(labels)}")
        ctx.count("LHS terms compared", len(monos))
        return labels


# ------------------------------------------------------------------ code
def code_text(case):
    """the f-term choice and the side must not change what the module computes"""
    return T.cachedT("generate_full_cc_python", "fcc", case["v"], only_ground_state=True, remove_f_terms=case.get("rf", False),
                     lhs_rhs=case.get("side", "RHS"))


def switches(v):
    return [f"at_least_{t}" for t in TAGS[1:v[0] + 1]] + list(FN.TTAGS[1:v[1] + 1])


@st.composite
def code_case(draw, tier):
    v = draw(affordable_truncation(1.0 if tier == "quick" else 3.0))
    A, N = draw(st.sampled_from([(2, 3), (3, 2), (2, 2)] if max(v) <= 3 else [(2, 2), (3, 2), (1, 2)]))
    off = sorted(draw(st.one_of(st.just(set()), st.sets(st.sampled_from(switches(v))))))
    return {"v": v, "A": A, "N": N, "data": draw(st.integers(0, 1000)), "off": off, "rf": draw(st.booleans()),
            "side": draw(st.sampled_from(["RHS", "LHS"]))}


class Code(_Fcc):
    id = "C08"
    rule = ("a case is (truncation, switches off, sizes, data seed); the generated module is executed on random tensors; "
            "connected, linked and unlinked contributions and the total of every projection are compared, symmetrised over "
            "mode indices, with a sum over independently enumerated diagrams; non-trivial = H, CC, S >= 2")
    assumptions = ("tensors are symmetric under interchange of mode indices, as the model's are",
                   "prefactors follow the documented rule x!/(m! n! k!); single-amplitude products are summed over all "
                   "permutations of their free indices",
                   "numpy.einsum evaluates the generated contractions")

    def explicit(self, tier):
        # one mode decides prefactors and the set of products, two modes the index order
        cap, full = (9, 2) if tier == "quick" else (30, 6)
        return [{"v": v, "A": 2, "N": 2 if cost(tuple(v)) <= full else 1, "data": 1, "off": []} for v in affordable(cap)]

    def examples(self, tier):
        return 500 if tier == "quick" else 2000

    def strategy(self, tier):
        return code_case(tier)

    def valid(self, case):
        return valid_trunc(case["v"]) and case["A"] >= 1 and case["N"] >= 1

    def run(self, case, ctx):
        v, A, N, off = case["v"], case["A"], case["N"], case["off"]
        what = f"full CC code (H,CC,S,P)={tuple(v)}"
        ns = G.load(code_text(case))
        M = min(v[1], v[3])
        want = sorted((a, n - a) for n in range(M + 1) for a in range(n + 1))
        if FN.projections(ns) != want:
            raise Violation(f"{what}: equations for projections {FN.projections(ns)} instead of {want}")
        self.evaluate(ns, v, A, N, case["data"], off, want, what, ctx)
        if cost(tuple(v)) < 0.3:
            # nothing may be left over from the first evaluation
            self.evaluate(ns, v, A % 2 + 1, 3 - N if N < 3 else 2, case["data"] + 1, [], want, what + " evaluated again", ctx)
        ctx.interesting(min(v[:3]) >= 2)

    def evaluate(self, ns, v, A, N, data, off, want, what, ctx):
        h, t = FN.tensors(v, A, N, data)
        tr = FN.flags(off)
        for (a, b) in want:
            exp, nterms = FN.expected(v, a, b, h, t, off, A, N)
            total = 0
            for kind, name in FN.KINDS.items():
                R = np.zeros((A, A) + (N,) * (a + b), dtype=complex)
                G.call(G.get(ns, f"add_m{a}_n{b}_{name}_terms"), R, FN.GROUND, tr, h, t, inout=1)
                total = total + exp[kind]
                self.same(R, exp[kind], f"{what} projection ({a},{b}) off={off}: {name} contribution")
                ctx.count("contributions compared")
                ctx.count(kind + " diagrams", nterms[kind])
            R = G.call(G.get(ns, f"compute_m{a}_n{b}_amplitude"), A, N, FN.GROUND, tr, h, t)
            if np.shape(R) != (A, A) + (N,) * (a + b):
                raise Violation(f"{what} projection ({a},{b}): amplitude of shape {np.shape(R)}")
            self.same(R, total, f"{what} projection ({a},{b}) off={off}: amplitude")
            try:
                G.call(G.get(ns, f"compute_m{a}_n{b}_amplitude"), A, N, types.SimpleNamespace(ground_state=False), tr, h, t)
            except Violation as e:
                if not isinstance(e.__cause__, NotImplementedError):
                    raise
            else:
                raise Violation(f"{what} projection ({a},{b}): a hot band request is not refused")

    def same(self, got, exp, what):
        got = FN.symmetric(np.asarray(got))
        scale = max(1.0, float(np.abs(exp).max()))
        err = float(np.abs(got - exp).max())
        if err > 1e-8 * scale:
            raise Violation(f"{what} differs from the sum over diagrams by {err:.6g} (magnitude {scale:.6g})")


class _Prepared:
    def __init__(self, owner, string, shapes):
        self.owner, self.string, self.shapes = owner, string, shapes

    def __call__(self, *ops):
        if tuple(np.shape(o) for o in ops) != self.shapes:
            raise Violation(f"contraction prepared for shapes {self.shapes} is called with {[np.shape(o) for o in ops]}")
        value = self.owner.answer(ops)
        return value if self.string is None else np.einsum(self.string, *ops)


class _Owner:
    """stands in for numpy.einsum and opt_einsum: records the default results, answers the prepared calls"""
    def __init__(self):
        self.recorded, self.calls, self.made, self.bare = {}, 0, 0, 0

    def einsum(self, string, *ops, **kw):
        out = np.einsum(string, *ops)
        self.recorded.setdefault(tuple(id(o) for o in ops), deque()).append(out)
        return out

    def contract_expression(self, *args, **kw):
        string = args[0] if args and isinstance(args[0], str) else None
        shapes = tuple(tuple(s) for s in args[string is not None:])
        self.made += 1
        self.bare += string is None
        return _Prepared(self, string, shapes)

    def answer(self, ops):
        self.calls += 1
        q = self.recorded.get(tuple(id(o) for o in ops))
        if not q:
            raise Violation("the optimized function evaluates a product the default function does not")
        return q.popleft()


class Optimized(_Fcc):
    id = "C09"
    rule = ("a case is (truncation, switches off, sizes, data seed); the prepared contraction list of every projection is "
            "consumed by the optimized function: each prepared contraction is called once with operands of the shapes it was "
            "prepared for, the products are those of the default function, and with equal product values the amplitudes "
            "agree; non-trivial = H, CC, S >= 2")
    assumptions = ("opt_einsum is replaced by a recording stand-in; a contraction prepared without subscripts (known finding) "
                   "is answered with the default function's value for the same operands",)
    explicit = Code.explicit
    valid = Code.valid

    def examples(self, tier):
        return 500 if tier == "quick" else 2000

    def strategy(self, tier):
        return code_case(tier)

    def run(self, case, ctx):
        v, A, N, off = case["v"], case["A"], case["N"], case["off"]
        what = f"full CC code (H,CC,S,P)={tuple(v)}"
        owner = _Owner()

        class _np:
            def __getattr__(self, name):
                return owner.einsum if name == "einsum" else getattr(np, name)
        ns = G.load(code_text(case), {"oe": types.SimpleNamespace(contract_expression=owner.contract_expression)})
        ns["np"] = _np()
        if FN.projections(ns, "_optimized") != FN.projections(ns):
            raise Violation(f"{what}: optimized functions for projections {FN.projections(ns, '_optimized')}")
        h, t = FN.tensors(v, A, N, case["data"])
        tr = FN.flags(off)
        for a, b in FN.projections(ns):
            owner.recorded.clear()
            owner.calls = owner.made = 0
            w = f"{what} projection ({a},{b}) off={off}"
            try:
                R = G.call(ns[f"compute_m{a}_n{b}_amplitude"], A, N, FN.GROUND, tr, h, t)
                paths = G.call(G.get(ns, f"compute_m{a}_n{b}_optimized_paths"), A, N, FN.GROUND, tr)
                if not isinstance(paths, dict) or (a, b) not in paths:
                    raise Violation("the prepared contractions are not filed under the projection")
                O = G.call(ns[f"compute_m{a}_n{b}_amplitude_optimized"], A, N, FN.GROUND, tr, h, t, paths)
            except Violation as e:
                raise Violation(f"{w}: {e}") from e
            if owner.calls != owner.made:
                raise Violation(f"{w}: {owner.made} contractions prepared, {owner.calls} used")
            left = sum(len(q) for q in owner.recorded.values())
            if left:
                raise Violation(f"{w}: {left} products of the default function are not evaluated by the optimized one")
            scale = max(1.0, float(np.abs(R).max()))
            if np.shape(O) != np.shape(R) or float(np.abs(O - R).max()) > 1e-9 * scale:
                raise Violation(f"{w}: optimized amplitude differs from the default one")
            ctx.count("contractions matched", owner.calls)
            if owner.bare:
                if BARE not in self.allowed:
                    raise Violation(f"{w}: contractions are prepared without subscripts, which opt_einsum does not accept")
                ctx.finding(BARE)
                owner.bare = 0
        self.master(ns, v, A, N, tr, owner, what, ctx)
        ctx.interesting(min(v[:3]) >= 2)

    def master(self, ns, v, A, N, tr, owner, what, ctx):
        """compute_all_optimized_paths gathers every projection"""
        try:
            allp = G.call(G.get(ns, "compute_all_optimized_paths"), A, N, FN.GROUND, tr)
        except Violation as e:
            if MASTER in self.allowed and isinstance(e.__cause__, TypeError) and "list indices" in str(e.__cause__):
                ctx.finding(MASTER)
                return
            raise
        if sorted(allp) != FN.projections(ns):
            raise Violation(f"{what}: all optimized paths lack a projection")
