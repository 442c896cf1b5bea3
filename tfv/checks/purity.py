"""generated functions are functions: sequences of calls on one loaded module against the same call on a module just loaded"""
import types

import numpy as np
from hypothesis import strategies as st

from .. import core, eTnum
from .. import fccnum as FN
from .. import genexec as G
from .. import target as T
from ..target import Violation
from . import eT_code, full_cc, wops

SIZES = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)]
HOT = types.SimpleNamespace(ground_state=False)
PLAIN = {"w": "generate_w_operator_equations_file", "dt": "generate_dt_amplitude_equations_file",
         "residual": "generate_residual_equations_file"}


class _Mixed:
    """a prepared contraction whose value is some fixed function of its operands; the module's subscripts are not needed here"""
    def __init__(self, shapes):
        self.shapes = shapes

    def __call__(self, *ops):
        if tuple(np.shape(o) for o in ops) != self.shapes:
            raise ValueError("prepared for other shapes")
        x = 1.0 + 0j
        for k, o in enumerate(ops):
            x = x * (np.sum(o) + k + 1) / 10
        return x


def mixed(*args, **kw):
    return _Mixed(tuple(tuple(s) for s in args if not isinstance(s, str)))


def text_of(c):
    v = c["v"]
    if c["g"] == "eTz":
        return T.eT_code(v, c["side"])
    if c["g"] == "fcc":
        return T.cachedT("generate_full_cc_python", "fcc", v, only_ground_state=True, remove_f_terms=False, lhs_rhs="RHS")
    return T.cached(PLAIN[c["g"]], *v)


def load(c):
    return G.load(text_of(c), {"oe": types.SimpleNamespace(contract_expression=mixed)} if c["g"] == "fcc" else None)


def entries(c):
    """names a caller uses, as (name, what to do)"""
    g, v = c["g"], c["v"]
    if g == "eTz":
        return [f"compute_m0_n{p}_amplitude{s}" for p in range(min(v[1], v[4]) + 1) for s in ("", "_optimized")]
    if g == "fcc":
        return [f"compute_m{a}_n{n - a}_amplitude{s}" for n in range(min(v[1], v[3]) + 1) for a in range(n + 1) for s in ("", "_optimized")]
    if g == "w":
        return [f"_calculate_order_{n}_w_operator{s}" for n in range(1, v[0] + 1) for s in ("", "_optimized")] + \
            (["compute_w_operators", "compute_w_operators_optimized"] if v[0] == 6 else [])
    if g == "dt":
        return [f"solve_{wops.LEVELS[n]}_equations{s}" for n in range(1, v[0] + 1) for s in ("", "_optimized")]
    return [f"calculate_order_{n}_residual" for n in range(v[0] + 1)]


class _Residuals:
    def __init__(self, data, A, N):
        rng = np.random.default_rng(data + 7)
        self.value = {m: wops.rand(rng, A, A, *(N,) * m) for m in range(0, 7)}

    def __getattr__(self, name):
        return lambda *a: self.value[int(name.split("_")[2])].copy()


def arguments(c, call):
    """argument list (tensors made anew), before any prepared contractions"""
    g, v = c["g"], c["v"]
    A, N = SIZES[call["size"]]
    data = call["data"]
    if g == "eTz":
        d = eTnum.tensors(v, A, N, data)
        tr = eTnum.flags({"off": call["off"]})
        return [A, N, HOT if call["hot"] else eTnum.GROUND, tr, d["t"]] + ([d["h"], d["z"]] if c["side"] == "RHS" else [d["dT"], d["z"], d["dz"]])
    if g == "fcc":
        h, t = FN.tensors(v, A, N, data)
        return [A, N, HOT if call["hot"] else FN.GROUND, FN.flags(call["off"]), h, t]
    rng = np.random.default_rng(data)
    L, an = call["L"], wops.ansatz(wops.ANSATZ[call["an"]])
    t, dt, w = (tuple(wops.rand(rng, A, A, *(N,) * m) for m in range(1, 7)) for _ in range(3))
    if g == "w":
        return [A, N, t, an, wops.levels(L)]
    h = tuple(wops.rand(rng, A, A, *(N,) * k) for k in (0, 1, 1, 2, 2, 2))
    if g == "dt":
        return [A, N, an, wops.levels(L), wops.rand(rng, A, A), h, t, dt, w]
    w = tuple(x if m < call["have"] else None for m, x in enumerate(w)) + (None, None)
    return [A, N, wops.levels(L, not call["hot"]), h, w]


def prepared(c, ns, name, args):
    """the prepared contractions an optimized function takes, from the module itself"""
    g, A, N = c["g"], args[0], args[1]
    if not name.endswith("_optimized"):
        return []
    if g == "eTz":
        return [([], [])]
    if g == "fcc":
        a, b = name.split("_")[1][1:], name.split("_")[2][1:]
        return [G.call(G.get(ns, f"compute_m{a}_n{b}_optimized_paths"), A, N, FN.GROUND, args[3])]
    if g == "w":
        vemx, vecc = (G.call(G.get(ns, f"compute_optimized_{k}_paths"), A, N, args[4]) for k in ("vemx", "vecc"))
        if name.startswith("compute"):
            return [vemx, vecc]
        n = int(name.split("_")[3])
        return [vemx[n - 1], vecc[n - 1]]
    return [G.call(G.get(ns, "compute_optimized_paths"), A, N, args[3])]


def perform(c, ns, call, session=None):
    """-> list of arrays, or the exception's type; args are checked by G.call.  Within a session equal arguments are the same
    objects, and contractions are prepared once per size and set of switches, as a caller would"""
    names = entries(c)
    name = names[call["fn"] % len(names)]
    what = {k: call[k] for k in call if k not in ("fn", "scribble")}
    args = list(remember(session, "args" + core.canon(what), lambda: arguments(c, call)))
    if c["g"] == "dt":
        ns["residual_equations"] = _Residuals(call["data"], args[0], args[1])
    try:
        args += remember(session, core.canon([name, call["size"], call["off"], call["L"]]), lambda: prepared(c, ns, name, args))
        out = G.call(G.get(ns, name), *args)
    except Violation as e:
        if e.__cause__ is None:
            raise
        return type(e.__cause__).__name__, name
    inputs = list(G.arrays(args))
    held = [a.copy() for a in inputs]
    got = [np.array(x) for x in G.arrays(out)]
    if call["scribble"]:
        for x in G.arrays(out):
            x[...] = np.nan           # the result belongs to the caller
        if not all(np.array_equal(a, b) for a, b in zip(inputs, held)):
            raise Violation(f"the result of {name} shares memory with the tensors passed in")
    if session is not None:
        session["kept"].append((inputs, held, list(G.arrays(out)), got, call["scribble"], name))
    return got, name


def remember(session, key, make):
    if session is None:
        return make()
    if key not in session:
        session[key] = make()
    return session[key]


class Purity(core.Check):
    id = "C22"
    rule = ("a case is (python generator, truncation or orders, sequence of 2-8 calls with sizes, data, switches, default or optimized, hot band "
            "or not, and whether the caller overwrites the result): the module is loaded once and called in sequence; every result "
            "must equal the one a module just loaded gives for the same call, arguments and earlier results stay as they were; "
            "non-trivial = at least two calls that return numbers")
    assumptions = ("a full-CC contraction prepared without subscripts (known finding of C09) is played by a fixed function of its operands",)

    def explicit(self, tier):
        out = []

        def calls(n):
            """every entry three times: again with other sizes and switches, then as at first with the same tensors or others"""
            seq = []
            for k in range(3 * n):
                rnd, e = divmod(k, n)
                seq.append({"fn": e, "size": 1 if rnd == 1 else 3, "data": e % 5 + (rnd == 2 and e % 2), "off": [], "hot": False,
                            "L": 4 if rnd == 1 else 6, "an": 2 - rnd % 2, "have": 3 if rnd == 1 else 6, "scribble": k % 2 == 0})
            return seq
        for top in (6, 4, 2):
            for g, v in (("w", [top]), ("dt", [top]), ("residual", [top, 2])):
                c = {"g": g, "v": v}
                out.append({**c, "calls": calls(len(entries(c)))})
        for side in ("RHS", "LHS"):
            for v in ([2, 2, 1, 2, 2], [3, 3, 1, 2, 3], [1, 4, 1, 2, 4], [6, 2, 1, 3, 2]):
                c = {"g": "eTz", "v": v, "side": side}
                out.append({**c, "calls": calls(len(entries(c)))})
        for v in ([2, 2, 2, 2], [3, 3, 2, 3], [2, 2, 3, 2], [4, 1, 4, 1], [1, 4, 2, 4]):
            c = {"g": "fcc", "v": v}
            out.append({**c, "calls": calls(len(entries(c)))})
        return out

    def examples(self, tier):
        return 600 if tier == "quick" else 6000

    def strategy(self, tier):
        @st.composite
        def case(draw):
            g = draw(st.sampled_from(["eTz", "eTz", "fcc", "fcc", "w", "dt", "residual"]))
            i = st.integers
            c = {"g": g}
            if g == "eTz":
                CC = draw(i(1, 4))
                c["v"] = [draw(i(1, 6)), CC, 1, draw(i(1, 3 if CC < 3 else 2)), draw(i(1, 6))]
                c["side"] = draw(st.sampled_from(["RHS", "LHS"]))
                names = eT_code.switch_names(c["v"])
            elif g == "fcc":
                c["v"] = draw(full_cc.affordable_truncation(0.2))
                names = full_cc.switches(c["v"])
            else:
                c["v"] = [draw(i(1, 6))] + ([draw(i(1, 2))] if g == "residual" else [])
                names = None
            n = len(entries(c))
            c["calls"] = []
            for _ in range(draw(i(2, 8))):
                if c["calls"] and draw(i(0, 2)) == 0:       # an earlier call once more, perhaps in other numbers
                    call = dict(draw(st.sampled_from(c["calls"])))
                    if draw(st.booleans()):
                        call["data"] = draw(i(0, 9))
                else:
                    call = {"fn": draw(i(0, n - 1)), "size": draw(i(0, len(SIZES) - 1)), "data": draw(i(0, 9)),
                            "off": sorted(draw(st.sets(st.sampled_from(names), max_size=2))) if names and draw(st.booleans()) else [],
                            "hot": draw(i(0, 5)) == 0, "L": draw(st.sampled_from([6, 6, 4, 3, 2, 1])), "an": draw(i(0, 2)),
                            "have": draw(i(2, 6)), "scribble": draw(st.booleans())}
                c["calls"].append(call)
            return c
        return case()

    def valid(self, c):
        v = c["v"]
        if not c["calls"] or any(not 0 <= k["size"] < len(SIZES) or not 0 <= k["an"] < 3 or not 1 <= k["L"] <= 6 or not 0 <= k["have"] <= 6
                                 for k in c["calls"]):
            return False
        if c["g"] == "eTz":
            return eT_code.valid_trunc(v) and c["side"] in ("RHS", "LHS")
        if c["g"] == "fcc":
            return full_cc.valid_trunc(v)
        return len(v) == (2 if c["g"] == "residual" else 1) and 1 <= v[0] <= 6 and (len(v) == 1 or v[1] in (1, 2))

    def run(self, c, ctx):
        what = f"generated {c['g']} module {tuple(c['v'])}{' ' + c['side'] if 'side' in c else ''}"
        ns = load(c)
        session, numbers = {"kept": []}, 0
        for n, call in enumerate(c["calls"]):
            try:
                got, name = perform(c, ns, call, session)
                want, _ = perform(c, load(c), {**call, "scribble": False})
            except Violation as e:
                raise Violation(f"{what}, call {n + 1}: {e}") from e
            w = f"{what}: {name} as call {n + 1} of the session"
            if isinstance(got, str) or isinstance(want, str):
                if got != want and not (isinstance(got, str) and isinstance(want, str)):
                    raise Violation(f"{w}: {'refused' if isinstance(got, str) else 'answered'}, unlike in a module just loaded")
                ctx.count("calls refused")
                continue
            numbers += 1
            if len(got) != len(want) or any(a.shape != b.shape for a, b in zip(got, want)):
                raise Violation(f"{w}: another shape than from a module just loaded")
            for a, b in zip(got, want):
                if not np.allclose(a, b, rtol=0, atol=1e-10 * max(1.0, float(np.abs(b).max()) if b.size else 1.0)):
                    raise Violation(f"{w}: differs from a module just loaded by {np.abs(a - b).max():.6g}")
            for inputs, held, out, value, scribbled, who in session["kept"]:
                if not all(np.array_equal(a, b) for a, b in zip(inputs, held)):
                    raise Violation(f"{w}: changes the tensors passed to the earlier {who}")
                if not scribbled and not all(np.array_equal(a, b) for a, b in zip(out, value)):
                    raise Violation(f"{w}: changes the earlier result of {who}")
            ctx.count("calls compared")
        ctx.count(c["g"])
        ctx.interesting(numbers >= 2)
