"""generated code of the W operators, of the amplitude derivatives and of the residuals.

A symmetric tensor is determined by its values on x (x) ... (x) x, so every result is reduced to a
matrix valued polynomial in the mode vector x, and the oracle is a power series in a bookkeeping
variable: W is the exponential of T(x) = sum_m t_m(x) / m!, its derivative follows from the product
rule, the residual is a differential operator applied to W."""
import types
from math import factorial

import numpy as np
from hypothesis import strategies as st

from .. import core
from .. import genexec as G
from .. import target as T
from ..target import Violation

LEVELS = ["", "singles", "doubles", "triples", "quadruples", "quintuples", "sextuples"]
ANSATZ = ("VECI", "VE_MIXED", "VECC")
QUAD = "residual-h20-else"


def ansatz(name):
    return types.SimpleNamespace(**{a: a == name for a in ANSATZ}, ground_state=True)


def levels(L, quadratic=True):
    names = set(LEVELS[1:L + 1])

    def on(name):
        if name in LEVELS:
            return name in names
        if name == "quadratic":
            return quadratic
        if name == "cc_truncation_order":
            return f"level {L}"
        raise Violation(f"generated code asks for an unknown truncation switch {name}")
    return G.Flags(on)


def rand(rng, *shape):
    return rng.uniform(-1, 1, shape) + 1j * rng.uniform(-1, 1, shape)


def symm(t, order):
    return G.symmetrize_tensor(None, t, order) / factorial(order)


def symmetric(rng, A, N, order):
    """random tensor symmetric in its mode axes, as a sum of powers"""
    total = 0
    for _ in range(1 if N == 1 else 4):
        v, t = rand(rng, N), rand(rng, A, A)
        for _ in range(order):
            t = t[..., None] * v
        total = total + t
    return total


def at(t, x, lead=2):
    """t . x x ... x"""
    while t.ndim > lead:
        t = t @ x
    return t


# words: dict {(degree, number of letters > 1 capped at 2, dt used): matrix}
def word_sum(n, A, tx, kind, dtx=None, kmin=1):
    """sum over k >= kmin of 1/k! * (all ordered products of k letters of total degree n)
    tx[m] = t_m(x)/m!.  kind: VECI (single letter), VE_MIXED (at most one letter > 1), VECC (all).
    with dtx: exactly one letter replaced by its derivative"""
    words = {(0, 0, 0): np.eye(A, dtype=complex)}
    total = np.zeros((A, A), dtype=complex)
    kmax = 1 if kind == "VECI" else n
    for k in range(1, kmax + 1):
        new = {}
        for (d, big, used), mat in words.items():
            for m in tx:
                if d + m > n:
                    continue
                b = min(2, big + (m > 1))
                if kind == "VE_MIXED" and b == 2:
                    continue
                key = (d + m, b, used)
                new[key] = new.get(key, 0) + mat @ tx[m]
                if dtx is not None and not used:
                    key = (d + m, b, 1)
                    new[key] = new.get(key, 0) + mat @ dtx[m]
        words = new
        if k >= kmin:
            for (d, big, used), mat in words.items():
                if d == n and used == (dtx is not None):
                    total = total + mat / factorial(k)
    return total


def close(got, want, what):
    scale = max(1.0, float(np.abs(want).max()) if np.size(want) else 1.0)
    err = float(np.abs(got - want).max())
    if not err <= 1e-9 * scale:
        raise Violation(f"{what} differs from the expected value by {err:.6g} (magnitude {scale:.6g})")


def array(r, shape, what):
    if not isinstance(r, np.ndarray) or r.shape != shape:
        raise Violation(f"{what}: returned {type(r).__name__} of shape {np.shape(r)} instead of {shape}")
    return r


_ns = {}


def module(what, args, extra=None):
    key = (what, args)
    if key not in _ns:
        _ns[key] = G.load(T.cached(what, *args), extra)
    return _ns[key]


@st.composite
def size(draw):
    return draw(st.sampled_from([(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)]))


class _Base(core.Check):
    assumptions = ("symmetrize_tensor is the sum over all permutations of the mode axes",
                   "numpy.einsum plays opt_einsum.contract_expression, with shape checking",
                   "truncation levels are nested: doubles implies singles and so on")

    def examples(self, tier):
        return 2000 if tier == "quick" else 20000


class WCode(_Base):
    id = "C10"
    rule = ("a case is (highest order generated, ansatz, truncation level, sizes, data seed); default and optimized W operators "
            "of every order are compared with the power series of the exponential, amplitudes above the truncation level being "
            "random numbers that must not enter; non-trivial = highest order >= 3 and not VECI")

    def explicit(self, tier):
        return [{"max": m, "an": a, "L": L, "A": 2, "N": 2, "data": 1}
                for m in range(1, 7) for a in ANSATZ for L in range(1, 7)]

    def strategy(self, tier):
        return st.builds(lambda m, a, L, s, d: {"max": m, "an": a, "L": L, "A": s[0], "N": s[1], "data": d},
                         st.integers(1, 6), st.sampled_from(ANSATZ), st.integers(1, 6), size(), st.integers(0, 10000))

    def valid(self, c):
        return 1 <= c["max"] <= 6 and 1 <= c["L"] <= 6 and c["A"] >= 1 and c["N"] >= 1 and c["an"] in ANSATZ

    def run(self, c, ctx):
        top, L, A, N, an = c["max"], c["L"], c["A"], c["N"], c["an"]
        ns = module("generate_w_operator_equations_file", (top,))
        rng = np.random.default_rng(c["data"])
        t = tuple(rand(rng, A, A, *(N,) * m) for m in range(1, 7))
        backup = [x.copy() for x in t]
        x = rand(rng, N)
        tx = {m: at(t[m - 1], x) / factorial(m) for m in range(1, L + 1)}
        want = {n: factorial(n) * word_sum(n, A, tx, an) for n in range(1, top + 1)}
        tr = levels(L)
        head = f"W code up to order {top}, {an}, {LEVELS[L]}"
        vemx = G.call(G.get(ns, "compute_optimized_vemx_paths"), A, N, tr)
        vecc = G.call(G.get(ns, "compute_optimized_vecc_paths"), A, N, tr)
        for n in range(1, top + 1):
            what = f"{head}: W_{n}"
            r = G.call(G.get(ns, f"_calculate_order_{n}_w_operator"), A, N, t, ansatz(an), tr)
            close(at(array(r, (A, A) + (N,) * n, what), x), want[n], what)
            try:
                px, pc = vemx[n - 1], vecc[n - 1]
            except (IndexError, KeyError, TypeError) as e:
                raise Violation(f"{head}: no prepared contractions for order {n}") from e
            o = G.call(G.get(ns, f"_calculate_order_{n}_w_operator_optimized"), A, N, t, ansatz(an), tr, px, pc)
            close(at(array(o, (A, A) + (N,) * n, what + " optimized"), x), want[n], what + " optimized")
            ctx.count("orders compared", 2)
        for suffix, extra in (("", ()), ("_optimized", (vemx, vecc))):
            master = G.get(ns, "compute_w_operators" + suffix)
            # level -> highest order the wrapper computes
            need = {1: 3, 2: 4, 3: 5, 4: 6, 5: 6, 6: 6}[L]
            if need > top:
                continue
            if L >= 5:
                try:
                    G.call(master, A, N, t, ansatz(an), tr, *extra)
                except Violation as e:
                    if isinstance(e.__cause__, NotImplementedError):
                        ctx.count("quintuples refused")
                        continue
                    raise
                raise Violation(f"{head}: quintuples are not refused by compute_w_operators{suffix}")
            res = G.call(master, A, N, t, ansatz(an), tr, *extra)
            if not isinstance(res, tuple) or len(res) != 6:
                raise Violation(f"{head}: compute_w_operators{suffix} does not return six operators")
            for n in range(1, 7):
                what = f"{head}: compute_w_operators{suffix} W_{n}"
                if n > need:
                    if res[n - 1] is not None:
                        raise Violation(f"{what} is not None")
                else:
                    close(at(array(res[n - 1], (A, A) + (N,) * n, what), x), want[n], what)
            ctx.count("wrapper calls")
            try:
                G.call(master, A, N, t, ansatz(an), levels(0), *extra)
            except Violation:
                pass
            else:
                raise Violation(f"{head}: compute_w_operators{suffix} accepts a truncation without singles")
        if any(not np.array_equal(a, b) for a, b in zip(t, backup)):
            raise Violation(f"{head}: the amplitudes passed in are modified")
        ctx.interesting(top >= 3 and an != "VECI")


class _Residuals:
    """plays the generated residual module inside the dt module"""
    def __init__(self):
        self.value, self.calls = {}, []

    def __getattr__(self, name):
        if name.startswith("calculate_order_") and name.endswith("_residual"):
            n = int(name.split("_")[2])

            def f(A, N, trunc, h_args, w_args):
                self.calls.append((n, A, N, trunc, h_args, w_args))
                return self.value[n].copy()
            return f
        raise AttributeError(name)


class DtCode(_Base):
    id = "C11"
    rule = ("a case is (highest order generated, ansatz, truncation level, sizes, data seed); default and optimized derivative of "
            "every amplitude is compared with residual - W eps / n! - product rule terms of the exponential; non-trivial = "
            "highest order >= 3 and not VECI")
    explicit = WCode.explicit
    strategy = WCode.strategy
    valid = WCode.valid

    def run(self, c, ctx):
        top, L, A, N, an = c["max"], c["L"], c["A"], c["N"], c["an"]
        res = _Residuals()
        ns = module("generate_dt_amplitude_equations_file", (top,))
        G.get(ns, "residual_equations")         # imported by the module itself
        ns["residual_equations"] = res
        rng = np.random.default_rng(c["data"])
        t = tuple(rand(rng, A, A, *(N,) * m) for m in range(1, 7))
        dt = tuple(rand(rng, A, A, *(N,) * m) for m in range(1, 7))
        w = tuple(rand(rng, A, A, *(N,) * m) for m in range(1, 7))
        eps, x = rand(rng, A, A), rand(rng, N)
        res.value = {m: rand(rng, A, A, *(N,) * m) for m in range(0, 7)}
        h = object()
        tx = {m: at(t[m - 1], x) / factorial(m) for m in range(1, 7)}
        dtx = {m: at(dt[m - 1], x) / factorial(m) for m in range(1, 7)}
        tr = levels(L)
        head = f"dt code up to order {top}, {an}, {LEVELS[L]}"
        paths = G.call(G.get(ns, "compute_optimized_paths"), A, N, tr)
        for n in range(1, top + 1):
            for suffix, extra in (("", ()), ("_optimized", (paths,))):
                name = f"solve_{LEVELS[n]}_equations{suffix}"
                what = f"{head}: {name}"
                fn = G.get(ns, name)
                res.calls.clear()
                args = (A, N, ansatz(an), tr, eps, h, t, dt, w) + extra
                if n > L:
                    try:
                        G.call(fn, *args)
                    except Violation:
                        ctx.count("refused above the truncation")
                        continue
                    raise Violation(f"{what}: order above the truncation is not refused")
                r = array(G.call(fn, *args), (A, A) + (N,) * n, what)
                if len(res.calls) != 1 or res.calls[0][0] != n or res.calls[0][1:3] != (A, N) \
                        or res.calls[0][3] is not tr or res.calls[0][4] is not h or res.calls[0][5] is not w:
                    raise Violation(f"{what}: does not evaluate the order {n} residual once with its own arguments")
                dis = word_sum(n, A, tx, an, dtx, kmin=2) if an != "VECI" else 0
                want = factorial(n) * (at(res.value[n], x) - at(w[n - 1], x) @ eps / factorial(n) - dis)
                close(at(r, x), want, what)
                ctx.count("derivatives compared")
        ctx.interesting(top >= 3 and an != "VECI")


def contracted(w, x, k, free):
    """w_m . x^(m-k), k mode axes left (w symmetric)"""
    while w.ndim > 2 + k:
        w = w @ x
    return w


class Residual(_Base):
    id = "C12"
    rule = ("a case is (highest order, Hamiltonian rank, truncation level, which W are present, quadratic switch, sizes, data "
            "seed); every residual is compared, symmetrised, with the coefficient of x^n of H applied to W; non-trivial = order "
            ">= 2 and rank 2")
    assumptions = ("tensors are symmetric in their mode indices, the mixed Hamiltonian tensor is stored (annihilation, creation)",
                   "the quadratic switch stands for the two-quantum annihilation and creation tensors")

    def explicit(self, tier):
        return [{"max": m, "rank": r, "L": max(m, 1), "have": hv, "quad": q, "A": 2, "N": 2, "data": 1}
                for m in range(7) for r in (0, 1, 2) for hv in range(1, 9) for q in (True, False)]

    def strategy(self, tier):
        return st.builds(lambda m, r, L, hv, q, s, d: {"max": m, "rank": r, "L": L, "have": hv, "quad": q, "A": s[0],
                                                       "N": s[1], "data": d},
                         st.integers(0, 6), st.sampled_from([0, 1, 1, 2, 2, 2, 2]), st.integers(1, 6), st.integers(1, 8), st.booleans(),
                         size(), st.integers(0, 10000))

    def valid(self, c):
        return 0 <= c["max"] <= 6 and c["rank"] in (0, 1, 2) and 1 <= c["L"] <= 6 and 1 <= c["have"] <= 8 and min(c["A"], c["N"]) >= 1

    def run(self, c, ctx):
        top, A, N = c["max"], c["A"], c["N"]
        ns = module("generate_residual_equations_file", (top, c["rank"]))
        rng = np.random.default_rng(c["data"])
        h0, h01, h10, h11, h02, h20 = (rand(rng, A, A, *(N,) * k) for k in (0, 1, 1, 2, 2, 2))
        h02, h20 = symm(h02, 2), symm(h20, 2)
        full = [symmetric(rng, A, N, m) for m in range(1, c["have"] + 1)]
        w = tuple(full[m - 1] if m <= c["have"] else None for m in range(1, max(6, top + 2) + 1))
        x = rand(rng, N)
        tr = levels(c["L"], c["quad"])

        def W(m, k=0):
            """w_m . x^(m-k) / (m-k)!: the degree m-k part of the k-th gradient of W(x)"""
            if m == 0:
                return np.eye(A, dtype=complex) if k == 0 else 0
            if m < 0 or w[m - 1] is None:
                return np.zeros((A, A) + (N,) * k, dtype=complex)
            return contracted(w[m - 1], x, k, m) / factorial(m - k)
        for n in range(top + 1):
            what = f"residual code up to order {top}, rank {c['rank']}: order {n} (W up to {c['have']}, quadratic={c['quad']})"
            fn = G.get(ns, f"calculate_order_{n}_residual")
            args = (A, N, tr, (h0, h01, h10, h11, h02, h20), w)
            if max(n, 1) > c["L"]:
                try:
                    G.call(fn, *args)
                except Violation:
                    ctx.count("refused above the truncation")
                    continue
                raise Violation(f"{what}: order above the truncation level {c['L']} is not refused")
            r = array(G.call(fn, *args), (A, A) + (N,) * n, what)
            exp = h0 @ W(n)
            if c["rank"] >= 1:
                exp = exp + np.einsum("acm,cbm->ab", h01, W(n + 1, 1))
                exp = exp + (h10 @ x) @ W(n - 1)
            last = 0
            if c["rank"] == 2:
                if n >= 1:
                    exp = exp + np.einsum("acm,cbm->ab", h11 @ x, W(n, 1))
                if c["quad"]:
                    exp = exp + np.einsum("acmn,cbmn->ab", h02, W(n + 2, 2)) / 2
                    last = at(h20, x) @ W(n - 2) / 2 if n >= 2 else 0
            got = at(r, x)
            try:
                close(got, exp + last, what)
            except Violation:
                if QUAD not in self.allowed or n not in (2, 3) or w[n + 1] is None or c["rank"] != 2 or not c["quad"]:
                    raise
                close(got, exp, what)
                ctx.finding(QUAD)
            ctx.count("residuals compared")
        ctx.interesting(top >= 2 and c["rank"] == 2)


class Pipeline(_Base):
    """the three generated modules working together, imported as files of one package"""
    id = "C20"
    rule = ("a case is (ansatz, truncation level 1-4, highest orders generated, Hamiltonian rank, quadratic switch, optimized or not, sizes, "
            "data seed): W from t, the order 0 residual as eps, then the derivatives order by order, all from generated code; the "
            "derivative of the truncated exponential must equal H W - W eps at every order; non-trivial = level >= 2 and not VECI")
    assumptions = ("tensors are symmetric in their mode indices, the mixed Hamiltonian tensor is stored (annihilation, creation)",
                   "symmetrize_tensor is the sum over all permutations of the mode axes",
                   "levels above quadruples are refused by the W module")

    def explicit(self, tier):
        return [{"an": a, "L": L, "top": L, "rank": r, "quad": q, "opt": o, "A": 2, "N": 2, "data": 1}
                for a in ANSATZ for L in range(1, 5) for r in (1, 2) for q in (True, False) for o in (True, False)]

    def examples(self, tier):
        return 1600 if tier == "quick" else 12000

    def strategy(self, tier):
        return st.builds(lambda a, L, up, r, q, o, s, d: {"an": a, "L": L, "top": min(6, L + up), "rank": r, "quad": q, "opt": o, "A": s[0],
                                                         "N": s[1], "data": d},
                         st.sampled_from(ANSATZ), st.integers(1, 4), st.integers(0, 2), st.sampled_from([1, 2, 2]), st.booleans(),
                         st.booleans(), size(), st.integers(0, 10000))

    def valid(self, c):
        return c["an"] in ANSATZ and 1 <= c["L"] <= 4 and c["L"] <= c["top"] <= 6 and c["rank"] in (1, 2) and min(c["A"], c["N"]) >= 1

    def run(self, c, ctx):
        from .documents import _Package
        L, A, N, an, top = c["L"], c["A"], c["N"], c["an"], c["top"]
        key = ("package", top, c["rank"])
        if key not in _ns:
            pkg = _Package({"eqs/w_equations.py": T.cached("generate_w_operator_equations_file", 6),
                            "eqs/dt_equations.py": T.cached("generate_dt_amplitude_equations_file", top),
                            "eqs/residual_equations.py": T.cached("generate_residual_equations_file", top, c["rank"]),
                            "eqs/symmetrize.py": SYMMETRIZE})
            _ns[key] = [vars(pkg.load(m, f"generated {m}")) for m in ("w_equations", "residual_equations", "dt_equations")]
        wmod, rmod, dmod = _ns[key]
        head = f"{an} {LEVELS[L]}, rank {c['rank']}, quadratic={c['quad']}, {'optimized' if c['opt'] else 'default'}"
        rng = np.random.default_rng(c["data"])
        h = [rand(rng, A, A, *(N,) * k) for k in (0, 1, 1, 2, 2, 2)]
        h[4], h[5] = symm(h[4], 2), symm(h[5], 2)
        h0, h01, h10, h11, h02, h20 = h
        t = [symmetric(rng, A, N, m) for m in range(1, L + 1)] + [None] * (6 - L)
        x = rand(rng, N)
        tr, an_ = levels(L, c["quad"]), ansatz(an)
        if c["opt"]:
            paths = G.call(G.get(dmod, "compute_optimized_paths"), A, N, tr)
            wp = [G.call(G.get(wmod, f"compute_optimized_{k}_paths"), A, N, tr) for k in ("vemx", "vecc")]
            w = G.call(G.get(wmod, "compute_w_operators_optimized"), A, N, t, an_, tr, *wp)
        else:
            w = G.call(G.get(wmod, "compute_w_operators"), A, N, t, an_, tr)
        eps = G.call(G.get(rmod, "calculate_order_0_residual"), A, N, tr, tuple(h), w)
        dt = [None] * 6
        for n in range(1, L + 1):
            name = f"solve_{LEVELS[n]}_equations" + ("_optimized" if c["opt"] else "")
            args = (A, N, an_, tr, eps, tuple(h), t, tuple(dt), w) + ((paths,) if c["opt"] else ())
            dt[n - 1] = array(G.call(G.get(dmod, name), *args), (A, A) + (N,) * n, f"{head}: {name}")
        tx = {m: at(t[m - 1], x) / factorial(m) for m in range(1, L + 1)}
        dtx = {m: at(dt[m - 1], x) / factorial(m) for m in range(1, L + 1)}
        letters = {m: tx[m] for m in tx}
        have = {1: 3, 2: 4, 3: 5, 4: 6}[L]

        def W(m):
            return word_sum(m, A, letters, an) if 1 <= m <= have else (np.eye(A) if m == 0 else np.zeros((A, A)))

        def gradient(m, k):
            """k-th derivative in x of the degree m part of the wave operator, as a tensor (numerically exact: W is polynomial)"""
            wm = w[m - 1] if 1 <= m <= have else None
            return np.zeros((A, A) + (N,) * k) if wm is None else contracted(wm, x, k, m) / factorial(m - k)
        for n in range(1, have + 1):
            close(at(w[n - 1], x) / factorial(n), W(n), f"{head}: W_{n}")
        for n in range(0, L + 1):
            exp = h0 @ W(n) + np.einsum("acm,cbm->ab", h01, gradient(n + 1, 1))
            last = 0
            if n >= 1:
                exp = exp + (h10 @ x) @ W(n - 1)
            if c["rank"] == 2:
                if n >= 1:
                    exp = exp + np.einsum("acm,cbm->ab", h11 @ x, gradient(n, 1))
                if c["quad"]:
                    exp = exp + np.einsum("acmn,cbmn->ab", h02, gradient(n + 2, 2)) / 2
                    last = at(h20, x) @ W(n - 2) / 2 if n >= 2 else 0
            if n == 0:
                close(eps, exp, f"{head}: eps")
                continue
            exp = exp - W(n) @ eps
            got = word_sum(n, A, tx, an, dtx)
            try:
                close(got, exp + last, f"{head}: derivative of W at order {n}")
            except Violation:
                if QUAD not in self.allowed or n not in (2, 3) or c["rank"] != 2 or not c["quad"] or n + 2 > have:
                    raise
                close(got, exp, f"{head}: derivative of W at order {n}")
                ctx.finding(QUAD)
            ctx.count("orders compared")
        ctx.interesting(L >= 2 and an != "VECI")


SYMMETRIZE = '''
import itertools
import numpy as np

def symmetrize_tensor(N, tensor, order):
    lead = tensor.ndim - order
    out = np.zeros_like(tensor)
    for perm in itertools.permutations(range(order)):
        out = out + tensor.transpose(tuple(range(lead)) + tuple(lead + p for p in perm))
    return out
'''
