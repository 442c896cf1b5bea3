"""what every document written has to be, whatever its contents: a python module the consuming package can import, a
LaTeX document that is structurally sound, and never an answer to a hot band request"""
import ast
import builtins
import importlib
import os
import re
import symtable
import sys
import types
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from .. import core, eTnum, texform
from .. import fccnum as FN
from .. import genexec as G
from .. import target as T
from ..target import Violation
from . import eT_code, full_cc
from .wops import LEVELS

HOT = "eT-hot-band-alias"
KW = ("only_ground_state", "remove_f_terms", "lhs_rhs")
ORDERS = {"w": "generate_w_operator_equations_file", "dt": "generate_dt_amplitude_equations_file",
          "residual": "generate_residual_equations_file"}


def small_fcc(v, gs):
    v = list(v)
    while not gs and v[0] * v[1] * v[2] > 30:
        v[max(range(3), key=lambda i: v[i])] -= 1
    return v


def affordable_eT(v):
    return v[1] * v[3] <= 16


@st.composite
def eTz(draw):
    CC = draw(st.integers(1, 6))
    return [draw(st.integers(1, 6)), CC, 1, draw(st.integers(1, min(8, 16 // CC))), draw(st.integers(1, 6))]


@st.composite
def kwargs(draw):
    return {"gs": draw(st.booleans()), "rf": draw(st.booleans()), "side": draw(st.sampled_from(["RHS", "LHS"]))}


def kw(case):
    return {"only_ground_state": case["gs"], "remove_f_terms": case["rf"], "lhs_rhs": case["side"]}


# ------------------------------------------------------------------ python
class _Package:
    """a package laid out like the one that consumes the generated modules, on disk, imported by the real import machinery"""
    count = 0

    def __init__(self, files):
        _Package.count += 1
        self.name = f"tfvpkg{os.getpid()}_{_Package.count}"
        root = os.path.join(T.scratch(), "pkg")
        self.dir = os.path.join(root, self.name)
        os.makedirs(os.path.join(self.dir, "eqs"))
        self.files = {"__init__.py": "", "log_conf.py": "import logging\nlog = logging.getLogger('consumer')\n", "eqs/__init__.py": "",
                      "eqs/symmetrize.py": "def symmetrize_tensor(N, tensor, order):\n    return tensor\n",
                      "eqs/residual_equations.py": "", **files}
        for rel, text in self.files.items():
            with open(os.path.join(self.dir, rel), "w") as fp:
                fp.write(text)
        if root not in sys.path:
            sys.path.insert(0, root)
        importlib.invalidate_caches()
        if "opt_einsum" not in sys.modules:
            fake = types.ModuleType("opt_einsum")
            fake.contract_expression = G.contract_expression
            sys.modules["opt_einsum"] = fake

    def load(self, mod, what):
        try:
            return importlib.import_module(f"{self.name}.eqs.{mod}")
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{what}: cannot be imported: {type(e).__name__}: {e}") from e

    def close(self):
        for k in [k for k in sys.modules if k.split(".")[0] == self.name]:
            del sys.modules[k]
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)


def entry_points(kind, v):
    both = lambda names: names + [n + "_optimized" for n in names]      # noqa: E731
    if kind == "eTz":
        return both([f"compute_m0_n{p}_amplitude" for p in range(min(v[1], v[4]) + 1)])
    if kind == "fcc":
        mn = [(a, n - a) for n in range(min(v[1], v[3]) + 1) for a in range(n + 1)]
        return both([f"compute_m{a}_n{b}_amplitude" for a, b in mn]) + [f"compute_m{a}_n{b}_optimized_paths" for a, b in mn] + \
            ["compute_all_optimized_paths"]
    if kind == "w":
        return both([f"_calculate_order_{n}_w_operator" for n in range(1, v[0] + 1)] + ["compute_w_operators"]) + \
            ["compute_optimized_vemx_paths", "compute_optimized_vecc_paths"]
    if kind == "dt":
        return both([f"solve_{LEVELS[n]}_equations" for n in range(1, v[0] + 1)]) + ["compute_optimized_paths"]
    return [f"calculate_order_{n}_residual" for n in range(v[0] + 1)]


class Modules(core.Check):
    id = "C17"
    rule = ("a case is (python generator, truncation or orders, state, f-terms, side); the module written is imported as part of a "
            "package laid out like the consumer's, its functions and the names they use are resolved; non-trivial = any order or "
            "rank >= 2")
    assumptions = ("the consuming package offers numpy, opt_einsum, its own log_conf.log, symmetrize.symmetrize_tensor and "
                   "residual_equations",
                   "the W wrapper of a module of highest order k < 6 may name the operators above k, which its truncation check keeps "
                   "it from reaching")

    def explicit(self, tier):
        out = [{"g": "w", "v": [n]} for n in range(1, 7)] + [{"g": "dt", "v": [n]} for n in range(1, 7)]
        out += [{"g": "residual", "v": [n, r]} for n in range(7) for r in (0, 1, 2)]
        for gs in (True, False):
            for side in ("RHS", "LHS"):
                out += [{"g": "eTz", "v": [H, CC, 1, eT, P], "gs": gs, "rf": False, "side": side}
                        for H in range(1, 7) for CC in range(1, 7) for eT in range(1, 9) for P in (1, 3, 6) if CC * eT <= 8]
                out += [{"g": "eTz", "v": v, "gs": gs, "rf": True, "side": side} for v in ([2, 2, 1, 2, 2], [3, 2, 1, 8, 6], [1, 4, 1, 4, 2])]
            out += [{"g": "fcc", "v": v, "gs": gs, "rf": sum(v) % 2 == 1, "side": "RHS" if sum(v) % 3 else "LHS"}
                    for v in full_cc.everything(4e3 if tier == "quick" else 2e4)]
        for side in ("RHS", "LHS"):
            out += [{"g": "eTz", "v": v, "gs": True, "rf": False, "side": side} for v in eT_code.sweep("quick") if 8 < v[1] * v[3] <= 30]
        out += [{"g": "fcc", "v": v, "gs": True, "rf": sum(v) % 2 == 0, "side": "RHS"} for v in full_cc.affordable(4 if tier == "quick" else 20)
                if full_cc.work(v) > 4e3]
        return out

    def examples(self, tier):
        return 200 if tier == "quick" else 2000

    def strategy(self, tier):
        @st.composite
        def case(draw):
            g = draw(st.sampled_from(["eTz"] * 4 + ["fcc"] * 4 + ["residual"]))
            if g == "residual":
                return {"g": g, "v": [draw(st.integers(0, 6)), draw(st.integers(1, 2))]}
            return {"g": g, "v": draw(eTz()) if g == "eTz" else draw(full_cc.truncation(9e3)), **draw(kwargs())}
        return case()

    def valid(self, c):
        if c["g"] == "eTz":
            return eT_code.valid_trunc(c["v"]) and affordable_eT(c["v"])
        if c["g"] == "fcc":
            return full_cc.valid_trunc(c["v"])
        if c["g"] == "residual":
            return 0 <= c["v"][0] <= 6 and 0 <= c["v"][1] <= 2
        return len(c["v"]) == 1 and 1 <= c["v"][0] <= 6

    def run(self, c, ctx):
        g, v = c["g"], c["v"]
        if g in ("eTz", "fcc"):
            fn = "generate_eT_zhz_python" if g == "eTz" else "generate_full_cc_python"
            text = T.cachedT(fn, g, v, **kw(c))
        else:
            fn = ORDERS[g]
            text = T.cached(fn, *v)
        what = f"{fn} {tuple(v)} {[c[k] for k in ('gs', 'rf', 'side') if k in c]}"
        try:
            tree = ast.parse(text)
        except SyntaxError as e:
            raise Violation(f"{what}: not valid python: {e}") from e
        names = Counter(n.name for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef)))
        twice = [n for n, k in names.items() if k > 1]
        if twice:
            raise Violation(f"{what}: {twice[:3]} defined more than once")
        missing = [n for n in entry_points(g, v) if n not in names]
        if missing:
            raise Violation(f"{what}: lacks {missing[:3]}")
        pkg = _Package({"eqs/generated.py": text})
        try:
            mod = pkg.load("generated", what)
            known = set(vars(mod)) | set(dir(builtins))
            table = symtable.symtable(text, "generated", "exec")
            for fname, name in unresolved(table, known):
                if g == "w" and fname.startswith("compute_w_operators") and \
                        re.fullmatch(rf"_calculate_order_[{v[0] + 1}-6]_w_operator(_optimized)?", name):
                    continue
                raise Violation(f"{what}: {fname} uses {name}, which is not defined")
            for n in entry_points(g, v):
                if not callable(getattr(mod, n)):
                    raise Violation(f"{what}: {n} is not a function")
            used = {m.group(1) for m in re.finditer(r"\bnp\.([A-Za-z_]+)", text)}
            lost = [u for u in used if not hasattr(np, u)]
            if lost:
                raise Violation(f"{what}: numpy has no {lost[:3]}")
        finally:
            pkg.close()
        ctx.count(g)
        ctx.count("functions", len(names))
        ctx.interesting(max(v) >= 2)


def unresolved(table, known, out=None):
    for child in table.get_children():
        for s in child.get_symbols():
            if s.is_global() and s.is_referenced() and s.get_name() not in known:
                yield child.get_name(), s.get_name()
        yield from unresolved(child, known)


# ------------------------------------------------------------------ LaTeX
LATEX = {"fcc": "generate_full_cc_latex", "zhz": "generate_z_t_symmetric_latex", "eTz": "generate_eT_z_t_symmetric_latex",
         "w": "ground_state_w_equations_latex"}


class LatexForm(core.Check):
    id = "C18"
    rule = ("a case is (LaTeX generator, truncation or order, state, f-terms, side); the document written is read by a recogniser of "
            "groups, environments, alignments, math mode, delimiter pairs, scripts and command definitions; non-trivial = any "
            "rank >= 2")
    assumptions = ("what LaTeX insists on is modelled by the recogniser; no LaTeX is installed here",
                   "the excited-state W text is a fragment for a document with its own preamble and is not judged here")

    def explicit(self, tier):
        out = [{"g": "w", "v": [n], "gs": True, "rf": False, "side": "RHS"} for n in range(1, 15)]
        for rf in (False, True):
            out += [{"g": "zhz", "v": [H, CC, P], "gs": True, "rf": rf, "side": "RHS"}
                    for H in range(1, 7) for CC in range(1, 7) for P in range(1, 7)]
            for side in ("RHS", "LHS"):
                out += [{"g": "eTz", "v": v, "gs": True, "rf": rf, "side": side} for v in eT_code.sweep("quick", 6) if v[1] * v[3] <= 20]
        for v in full_cc.everything(5e4 if tier == "quick" else 1e6):
            for rf in (False, True):
                if v[3] <= 3:
                    out.append({"g": "fcc", "v": v, "gs": True, "rf": rf, "side": "RHS"})
                    if full_cc.excited_cost(v) < (2 if tier == "quick" else 20):
                        out.append({"g": "fcc", "v": v, "gs": False, "rf": rf, "side": "RHS"})
        return out

    def examples(self, tier):
        return 400 if tier == "quick" else 3000

    def strategy(self, tier):
        @st.composite
        def case(draw):
            g = draw(st.sampled_from(["fcc", "fcc", "zhz", "eTz", "eTz", "w"]))
            k = draw(kwargs())
            i = st.integers
            if g == "fcc":
                v = small_fcc(draw(full_cc.truncation(9e3)), k["gs"])
                v[3] = min(v[3], 3)
            elif g == "zhz":
                v = [draw(i(1, 6)) for _ in range(3)]
            elif g == "eTz":
                v = draw(eTz())
            else:
                v = [draw(i(1, 16))]
            if g != "fcc":
                k["gs"] = True
            return {"g": g, "v": v, **k}
        return case()

    def valid(self, c):
        g, v = c["g"], c["v"]
        if any(x < 1 for x in v):
            return False
        if g == "fcc":
            return full_cc.valid_trunc(v) and min(v[1], v[3]) <= 3 and (c["gs"] or full_cc.excited_cost(v) < 30)
        if not c["gs"]:
            return False
        if g == "zhz":
            return len(v) == 3 and max(v) <= 6
        if g == "eTz":
            return eT_code.valid_trunc(v) and affordable_eT(v)
        return len(v) == 1 and v[0] <= 16

    def run(self, c, ctx):
        g, v = c["g"], c["v"]
        what = f"{LATEX[g]} {tuple(v)} ground={c['gs']} rf={c['rf']} {c['side']}"
        text = T.cached(LATEX[g], *v) if g == "w" else T.cachedT(LATEX[g], g, v, **kw(c))
        for k, n in texform.document(text, what).items():
            ctx.count(k, n)
        ctx.count(g)
        ctx.interesting(max(v) >= 2)


# ------------------------------------------------------------------ hot bands
class HotBand(core.Check):
    id = "C19"
    rule = ("a case is (generator, truncation, f-terms, side, old contents of the target, sizes, data); the excited-state request is "
            "refused without touching the target, or, where a module is written, its ground-state functions return what the "
            "ground-state module's do and its hot band branch refuses; non-trivial = any rank >= 2")
    assumptions = ("the e^T z and z ansatz have equations for the ground state only, as their sources say",)

    def explicit(self, tier):
        out = []
        for H in range(1, 7):
            for CC in range(1, 7):
                out += [{"g": "zhz", "v": [H, CC, P]} for P in range(1, 7)]
                for eT in range(1, 9):
                    out += [{"g": "eTz latex", "v": [H, CC, 1, eT, P]} for P in (1, 6)]
                    if CC * eT <= 10:
                        out += [{"g": "eTz", "v": [H, CC, 1, eT, P]} for P in (1, 6)]
        out += [{"g": "fcc", "v": v} for v in full_cc.everything(4e3 if tier == "quick" else 2e4)]
        return [{**c, "side": s, "rf": sum(c["v"]) % 2 == 0, "old": sum(c["v"]) % 3 == 0, "A": 2, "N": 2, "data": 1, "off": []}
                for c in out for s in (("RHS", "LHS") if c["g"] != "fcc" else ("RHS",))]

    def examples(self, tier):
        return 240 if tier == "quick" else 2000

    def strategy(self, tier):
        @st.composite
        def case(draw):
            g = draw(st.sampled_from(["zhz", "eTz latex", "eTz", "eTz", "fcc"]))
            if g == "zhz":
                v = [draw(st.integers(1, 6)) for _ in range(3)]
            elif g == "fcc":
                v = small_fcc(draw(full_cc.truncation(9e3)), False)
            else:
                v = draw(eTz())
            off = []
            if g == "eTz":
                off = [f"h_at_least_{t}" for t in eTnum.TAGS[1:v[0] + 1]] + [f"z_at_least_{t}" for t in eTnum.TAGS[1:v[1] + 1]] + ["t_singles"]
            elif g == "fcc":
                off = full_cc.switches(v)
            off = sorted(draw(st.sets(st.sampled_from(off), max_size=3))) if off else []
            return {"g": g, "v": v, "side": draw(st.sampled_from(["RHS", "LHS"])), "rf": draw(st.booleans()), "old": draw(st.booleans()),
                    "A": 2, "N": 2, "data": draw(st.integers(0, 1000)), "off": off}
        return case()

    def valid(self, c):
        v = c["v"]
        if c["A"] < 1 or c["N"] < 1 or any(x < 1 or x > 8 for x in v):
            return False
        if c["g"] == "zhz":
            return len(v) == 3 and max(v) <= 6
        if c["g"] == "fcc":
            return full_cc.valid_trunc(v)
        return eT_code.valid_trunc(v) and affordable_eT(v)

    def run(self, c, ctx):
        g, v = c["g"], c["v"]
        ctx.count(g)
        ctx.interesting(max(v) >= 2)
        if g in ("zhz", "eTz latex"):
            return self.refused(c, ctx)
        return self.code(c, ctx)

    def refused(self, c, ctx):
        kind = c["g"].split()[0]
        fn = LATEX[kind]
        path = os.path.join(T.scratch(), "cwd", "hot.tex")
        old = "old contents\n" * 7 if c["old"] else None
        if os.path.exists(path):
            os.unlink(path)
        if old:
            with open(path, "w") as fp:
                fp.write(old)
        what = f"{fn} {tuple(c['v'])} excited state"
        generate = T.generator(fn)
        try:
            with T.quiet():
                generate(T.trunc_dict(kind, c["v"]), only_ground_state=False, remove_f_terms=c["rf"], lhs_rhs=c["side"], path=path)
        except NotImplementedError:
            pass
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{what}: fails with {type(e).__name__} instead of saying it is not implemented") from e
        else:
            raise Violation(f"{what}: not refused")
        if os.path.exists(path):
            with open(path) as fp:
                now = fp.read()
            if now != old:
                raise Violation(f"{what}: the refused request wrote to the target file")
        elif old:
            raise Violation(f"{what}: the refused request removed the target file")

    def code(self, c, ctx):
        g, v, A, N, side = c["g"], c["v"], c["A"], c["N"], c["side"]
        fn = "generate_eT_zhz_python" if g == "eTz" else "generate_full_cc_python"
        ground, hot = (G.load(T.cachedT(fn, g, v, only_ground_state=s, remove_f_terms=c["rf"], lhs_rhs=side)) for s in (True, False))
        what = f"{fn} {tuple(v)} {side}, excited state"
        no = types.SimpleNamespace(ground_state=False)
        if g == "eTz":
            d = eTnum.tensors(v, A, N, c["data"])
            tr = eTnum.flags(c)
            if eTnum.projections(hot) != eTnum.projections(ground):
                raise Violation(f"{what}: other projections than the ground-state module")
            for p in eTnum.projections(ground):
                for opt in (False, True):
                    a = eTnum.call(ground, p, side, A, N, tr, d, opt)
                    b = eTnum.call(hot, p, side, A, N, tr, d, opt)
                    if not np.allclose(a, b, rtol=0, atol=1e-9 * max(1.0, float(np.abs(a).max()))):
                        raise Violation(f"{what}: projection {p}: the ground-state branch differs from the ground-state module")
                    for ns, w in ((ground, "ground-state module"), (hot, "excited-state module")):
                        try:
                            r = eTnum.call(ns, p, side, A, N, tr, d, opt, ansatz=no)
                        except Violation as e:
                            if isinstance(e.__cause__, NotImplementedError):
                                continue
                            raise
                        if ns is hot and HOT in self.allowed and np.allclose(r, a, rtol=0, atol=1e-9 * max(1.0, float(np.abs(a).max()))):
                            ctx.finding(HOT)
                            continue
                        raise Violation(f"{what}: projection {p}: the {w} answers a hot band request")
                    ctx.count("amplitudes compared")
            return
        h, t = FN.tensors(v, A, N, c["data"])
        tr = FN.flags(c.get("off", ()))
        if FN.projections(hot) != FN.projections(ground):
            raise Violation(f"{what}: other projections than the ground-state module")
        for a, b in FN.projections(ground):
            name = f"compute_m{a}_n{b}_amplitude"
            x, y = (G.call(G.get(ns, name), A, N, FN.GROUND, tr, h, t) for ns in (ground, hot))
            if not np.allclose(x, y, rtol=0, atol=1e-9 * max(1.0, float(np.abs(x).max()))):
                raise Violation(f"{what}: projection ({a},{b}): the ground-state branch differs from the ground-state module")
            for suffix, extra in (("", ()), ("_optimized", ({(a, b): [[], [], []]},))):
                try:
                    G.call(G.get(hot, name + suffix), A, N, no, tr, h, t, *extra)
                except Violation as e:
                    if isinstance(e.__cause__, NotImplementedError):
                        continue
                    raise
                raise Violation(f"{what}: projection ({a},{b}): a hot band request is answered ({name + suffix})")
            ctx.count("amplitudes compared")
