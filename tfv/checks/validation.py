"""truncations: saving and loading, and refusal of what lies outside the allowed domain"""
import itertools as it
import json
import os

from hypothesis import strategies as st

from .. import core, ops
from .. import target as T
from ..target import Violation

NAME = {"H": "maximum_hamiltonian_rank", "CC": "maximum_coupled_cluster_rank", "S": "s_taylor_max_order", "P": "omega_max_order",
        "T": "maximum_T_rank", "eT": "eT_taylor_max_order"}
SHORT = {v: k for k, v in NAME.items()}
BYLEN = {3: "zhz", 4: "fcc", 5: "eTz"}


def acceptable(pairs):
    """the documented domain of a truncation file"""
    names = [k for k, _ in pairs]
    kind = BYLEN.get(len(names))
    if kind is None or any(n not in SHORT for n in names):
        return False
    if {SHORT[n] for n in names} != set(T.ORDER[kind]):
        return False
    return all(1 <= v <= T.MAXVAL[SHORT[n]] for n, v in pairs)


def spoilt(draw, kind):
    """truncation values with one or two entries possibly pushed over a limit; the rest small"""
    v = [draw(st.integers(1, 3)) if k != "T" else 1 for k in T.ORDER[kind]]
    for _ in range(draw(st.integers(0, 2))):
        i = draw(st.integers(0, len(v) - 1))
        m = T.MAXVAL[T.ORDER[kind][i]]
        v[i] = draw(st.sampled_from([0, -1, m + 1, m + 2, m, 1, -m, 100]))
    return v


class Validation(core.Check):
    id = "C15"
    rule = ("a case is a truncation file to save and load back, a truncation file to load, or a generator request with an existing "
            "target file; non-trivial = the content lies outside the allowed domain, or is a save/load round trip")
    assumptions = ("a refusal is any exception", "truncation values are integers; additional recognised keys in a dictionary passed "
                   "straight to a generator are not judged")

    def explicit(self, tier):
        out = []
        for kind in T.ORDER:
            names = T.ORDER[kind]
            dom = [list(v) for v in it.product(*[range(1, T.MAXVAL[k] + 1) for k in names])]
            for i in range(0, len(dom), 120):
                out.append({"mode": "trip", "kind": kind, "vs": dom[i:i + 120]})
            base = [1] * len(names)
            for i, k in enumerate(names):
                for x in (0, -1, T.MAXVAL[k] + 1, T.MAXVAL[k] + 2):
                    v = base[:i] + [x] + base[i + 1:]
                    out.append({"mode": "load", "pairs": [[NAME[a], b] for a, b in zip(names, v)]})
                    for g, gk in ops.TRUNC.items():
                        if gk == kind:
                            for side in ("LHS", "RHS"):
                                out.append({"mode": "gen", "g": g, "d": [[a, b] for a, b in zip(names, v)], "gs": True, "rf": False,
                                            "side": side, "old": "kept"})
                miss = [[a, 1] for a in names if a != k]
                out.append({"mode": "load", "pairs": [[NAME[a], b] for a, b in miss]})
                for j in NAME:
                    if j not in names:
                        out.append({"mode": "load", "pairs": [[NAME[a], b] for a, b in miss + [[j, 1]]]})
                out.append({"mode": "load", "pairs": [[NAME[a], b] for a, b in miss] + [["bogus_key", 1]]})
                for g, gk in ops.TRUNC.items():
                    if gk == kind:
                        out.append({"mode": "gen", "g": g, "d": miss, "gs": True, "rf": False, "side": "RHS", "old": "kept"})
            for g, gk in ops.TRUNC.items():
                if gk == kind:
                    for d in ([], [[a, 1] for a in names] + [["bogus_key", 1]]):
                        out.append({"mode": "gen", "g": g, "d": d, "gs": True, "rf": False, "side": "RHS", "old": "kept"})
            for other in T.ORDER:
                out.append({"mode": "load", "pairs": [[NAME[k], T.MAXVAL[k]] for k in names], "into": other})
                out.append({"mode": "load", "pairs": [[NAME[k], T.MAXVAL[k] + 1] for k in names], "into": other})
        out.append({"mode": "load", "pairs": []})
        out.append({"mode": "load", "pairs": [[n, 1] for n in SHORT]})
        for n in SHORT:
            out.append({"mode": "load", "pairs": [[n, 1]]})
        return out

    def examples(self, tier):
        return 8000 if tier == "quick" else 100000

    def strategy(self, tier):
        @st.composite
        def case(draw):
            mode = draw(st.sampled_from(["load", "load", "gen", "trip"]))
            kind = draw(st.sampled_from(sorted(T.ORDER)))
            names = list(T.ORDER[kind])
            if mode == "trip":
                v = [draw(st.integers(1, T.MAXVAL[k])) for k in names]
                return {"mode": mode, "kind": kind, "vs": [v], "order": draw(st.permutations(range(len(v)))),
                        "old": draw(st.sampled_from([0, 10, 5000]))}
            if mode == "load":
                v = [draw(st.integers(-1, T.MAXVAL[k] + 2)) if draw(st.booleans()) else draw(st.integers(1, T.MAXVAL[k])) for k in names]
                pairs = [[NAME[a], b] for a, b in zip(names, v)]
                for _ in range(draw(st.integers(0, 2))):
                    how = draw(st.sampled_from(["drop", "swap", "add"]))
                    if how in ("drop", "swap") and pairs:
                        pairs.pop(draw(st.integers(0, len(pairs) - 1)))
                    if how in ("swap", "add"):
                        new = draw(st.sampled_from(sorted(SHORT) + ["max_h_rank", "H", "bogus", "omega_max_orderr", "dt_order"]))
                        if new not in [p[0] for p in pairs]:
                            pairs.append([new, draw(st.integers(1, 2))])
                return {"mode": mode, "pairs": draw(st.permutations(pairs)), "into": draw(st.sampled_from([None, None] + sorted(T.ORDER)))}
            v = spoilt(draw, kind)
            d = [[a, b] for a, b in zip(names, v)]
            if draw(st.integers(0, 5)) == 0:
                d.pop(draw(st.integers(0, len(d) - 1)))
            g = draw(st.sampled_from([g for g in sorted(ops.TRUNC) if ops.TRUNC[g] == kind]))
            return {"mode": mode, "g": g, "d": draw(st.permutations(d)), "gs": draw(st.booleans()), "rf": draw(st.booleans()),
                    "side": draw(st.sampled_from(["LHS", "RHS"])), "old": draw(st.sampled_from(["kept", "", "x" * 3000]))}
        return case()

    def valid(self, case):
        if case["mode"] == "trip":
            names = T.ORDER[case["kind"]]
            return bool(case["vs"]) and all(len(v) == len(names) and all(1 <= x <= T.MAXVAL[k] for k, x in zip(names, v)) for v in case["vs"]) \
                and sorted(case.get("order", range(len(names)))) == list(range(len(names)))
        return case["mode"] != "load" or all(isinstance(n, str) and isinstance(x, int) for n, x in case["pairs"])

    def run(self, case, ctx):
        getattr(self, "_" + case["mode"])(case, ctx)
        ctx.count(case["mode"])

    def _trip(self, case, ctx):
        import importlib
        tr = importlib.import_module("truncations")
        path = os.path.join(T.scratch(), "cwd", "t.json")
        for v in case["vs"]:
            d = T.trunc_dict(case["kind"], v)
            if "order" in case:
                keys = list(d)
                d = {keys[i]: d[keys[i]] for i in case["order"]}
            before = list(d.items())
            with open(path, "w") as fp:
                fp.write("y" * case.get("old", 0))
            try:
                tr.save_trunc_to_JSON(path, d)
                with open(path) as fp:
                    raw = json.load(fp)
                back = tr.load_trunc_from_JSON(path)
            except Exception as e:  # noqa: BLE001
                raise Violation(f"saving and loading {case['kind']} {v}: {type(e).__name__}: {e}") from e
            if list(d.items()) != before:
                raise Violation(f"saving {case['kind']} {v} modified the dictionary passed in: {d}")
            want = {NAME[k]: x for k, x in zip(T.ORDER[case["kind"]], v)}
            if raw != want:
                raise Violation(f"truncation file for {case['kind']} {v} holds {raw}, not {want}")
            if back != d or set(map(type, back)) != set(map(type, d)):
                raise Violation(f"loading the saved {case['kind']} {v} gives {back}")
            ctx.count("round trips")
        ctx.interesting()

    def _load(self, case, ctx):
        import importlib
        tr = importlib.import_module("truncations")
        path = os.path.join(T.scratch(), "cwd", "l.json")
        ok = acceptable(case["pairs"])
        with open(path, "w") as fp:
            json.dump(dict(case["pairs"]), fp)
        # into: load into a dictionary the caller has filled before
        into = T.trunc_dict(case["into"], [1] * len(T.ORDER[case["into"]])) if case.get("into") else None
        before = into and dict(into)
        try:
            got = tr.load_trunc_from_JSON(path, into) if into else tr.load_trunc_from_JSON(path)
        except Exception as e:  # noqa: BLE001
            if ok:
                raise Violation(f"valid truncation file {case['pairs']} refused: {type(e).__name__}: {e}") from e
            if into != before:
                raise Violation(f"truncation file {case['pairs']} refused, but the provided dictionary was changed to {into}") from e
            ctx.interesting()
            ctx.count("file refused")
            return
        if into is not None:
            got = into
            ctx.count("loaded into a dictionary")
        if not ok:
            raise Violation(f"truncation file {case['pairs']} is outside the allowed domain but was loaded as {got}")
        if got != {getattr(T.tkeys(), SHORT[n]): x for n, x in case["pairs"]}:
            raise Violation(f"truncation file {case['pairs']} was loaded as {got}")
        ctx.count("file accepted")

    def _gen(self, case, ctx):
        kind = ops.TRUNC[case["g"]]
        tk = T.tkeys()
        names = {k for k, _ in case["d"]}
        bad = (not set(T.ORDER[kind]) <= names or "bogus_key" in names
               or any(not 1 <= v <= T.MAXVAL[k] for k, v in case["d"] if k in T.MAXVAL))
        if not bad:
            ctx.count("request inside the domain")
            return
        d = {getattr(tk, k) if k in NAME else k: v for k, v in case["d"]}
        root = T.scratch()
        os.chdir(os.path.join(root, "cwd"))
        path = os.path.join(root, "cwd", "g.out")
        with open(path, "w") as fp:
            fp.write(case["old"])
        generate = T.generator(case["g"])
        try:
            with T.quiet():
                generate(d, only_ground_state=case["gs"], remove_f_terms=case["rf"], lhs_rhs=case["side"], path=path)
        except Exception:  # noqa: BLE001
            with open(path) as fp:
                if fp.read() != case["old"]:
                    raise Violation(f"{case['g']} refused {case['d']} but changed the target file") from None
            ctx.interesting()
            ctx.count("request refused")
            return
        raise Violation(f"{case['g']} accepted {case['d']} ({case['side']}), which is outside the allowed domain")
