"""a document goes to its target and nowhere else: every way to spell the target, no target at all, anything lying around"""
import hashlib
import os
import pathlib
import shutil
import tempfile

from hypothesis import strategies as st

from .. import core, ops
from .. import target as T
from ..target import Violation

# the documented names of documents requested without a target
DEFAULT = {
    "generate_w_operator_equations_file": "w_operator_equations.py", "generate_dt_amplitude_equations_file": "dt_amplitude_equations.py",
    "generate_residual_equations_file": "residual_equations.py", "ground_state_w_equations_latex": "ground_state_w_equations.tex",
    "excited_state_w_equations_latex": "thermal_w_equations.tex",
}
SPELL = ("absolute", "plain", "dot", "sub", "up", "twisted", "pathlib", "positional")
NAMES = ("out", "out.py", "out.tex", "a b.py", "\u03c9.tex", "residual_equations.py", "thermal_w_equations.tex", "output.txt", "truncs.json", "a" * 120)
DECOYS = tuple(DEFAULT.values()) + ("out", "out.py~", "out.py.bak", "output.txt", "latex_zhz.txt", "truncs.json", "full_cc_equations.py",
                                    "ground_state_full_cc_symmetric_equations.tex", "sub/out.py", "sub/residual_equations.py")
KW0 = {"only_ground_state": True, "remove_f_terms": False, "lhs_rhs": "RHS"}


def tree(root):
    out = {}
    for d, dirs, files in os.walk(root):
        out[os.path.relpath(d, root)] = "directory"
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as fp:
                out[os.path.relpath(p, root)] = hashlib.sha1(fp.read()).hexdigest()
    return out


_want = {}


class Targets(core.Check):
    id = "C23"
    rule = ("a case is (generator, request, spelling of the target or none, name, files lying around, old contents of the target); non-trivial = "
            "other files lie around, or the target is not a plain new file")
    assumptions = ("the log file opened when the package is imported lies elsewhere and is not looked at",)

    def explicit(self, tier):
        out = []
        small = [{"g": g, "v": {"fcc": [2, 2, 2, 2], "zhz": [2, 2, 2], "eTz": [2, 2, 1, 2, 2]}[k], "kw": dict(KW0, lhs_rhs=s)}
                 for g, k in ops.TRUNC.items() for s in ("LHS", "RHS")]
        small += [{"g": g, "v": [3, 2][:n], "kw": {}} for g, n in ops.PLAIN.items()]
        for n, op in enumerate(small):
            for s in SPELL:
                if s == "positional" and op["g"] in ops.TRUNC:
                    continue
                out.append({"op": op, "spell": s, "name": NAMES[n % len(NAMES)], "decoys": list(range(len(DECOYS))), "old": 0})
        for g, n in ops.PLAIN.items():
            for order in range(1, 4 if g == "excited_state_w_equations_latex" else 7):
                for old in (0, 3000):
                    out.append({"op": {"g": g, "v": [order, 2][:n], "kw": {}}, "spell": "default", "name": "", "decoys": [5, 8, 13], "old": old})
        return out

    def examples(self, tier):
        return 1500 if tier == "quick" else 15000

    def strategy(self, tier):
        @st.composite
        def case(draw):
            op = draw(ops.operation())
            spell = draw(st.sampled_from(SPELL + ("default", "default")))
            if op["g"] in ops.TRUNC and spell in ("positional", "default"):
                spell = "dot"
            if draw(st.integers(0, 5)) == 0 and op["g"] in ops.TRUNC:       # a refused request
                op["v"][draw(st.integers(0, len(op["v"]) - 1))] = draw(st.sampled_from([0, 9]))
            return {"op": op, "spell": spell, "name": draw(st.sampled_from(NAMES)),
                    "decoys": draw(st.lists(st.integers(0, len(DECOYS) - 1), unique=True)), "old": draw(st.sampled_from([0, 0, 1, 300000]))}
        return case()

    def smaller(self, case):
        if case["old"]:
            yield dict(case, old=0)
        if case["decoys"]:
            yield dict(case, decoys=[])
            for i in range(len(case["decoys"])):
                yield dict(case, decoys=case["decoys"][:i] + case["decoys"][i + 1:])
        if case["spell"] not in ("plain", "default"):
            yield dict(case, spell="plain")
        if case["name"] not in ("", "out"):
            yield dict(case, name="out")

    def run(self, case, ctx):
        op, spell = case["op"], case["spell"]
        key = repr(op)
        if key not in _want:
            if len(_want) > 300:
                _want.clear()
            _want[key] = ops.perform(op)
        want = _want[key].get("text")
        T.modules()
        root = tempfile.mkdtemp(prefix="target_", dir=T.scratch())
        try:
            self._serve(case, op, spell, want, root, ctx)
        finally:
            os.chdir(os.path.join(T.scratch(), "cwd"))
            shutil.rmtree(root, ignore_errors=True)

    def _serve(self, case, op, spell, want, root, ctx):
        here = os.path.join(root, "here")
        for d in ("here", "here/sub", "here/x"):
            os.mkdir(os.path.join(root, d))
        for i in case["decoys"]:
            with open(os.path.join(here, DECOYS[i]), "w") as fp:
                fp.write(f"contents of {DECOYS[i]}\n" * 40)
        name = case["name"] or DEFAULT.get(op["g"], "out")
        if spell == "default":
            target = os.path.join(here, DEFAULT[op["g"]])
        else:
            target = os.path.join({"sub": here + "/sub", "up": root, "absolute": here + "/x"}.get(spell, here), name)
        if os.path.exists(target):
            os.unlink(target)
        if case["old"] and op["g"] != "excited_state_w_equations_latex":
            with open(target, "w") as fp:
                fp.write("%" * case["old"])
        before = tree(root)
        os.chdir(here)
        args, kw = ops.arguments(op), dict(op["kw"])
        given = {"absolute": target, "plain": name, "dot": "./" + name, "sub": "sub/" + name, "up": "../" + name, "twisted": "x/../sub/.././" + name,
                 "pathlib": pathlib.Path(name), "positional": name}.get(spell)
        if spell == "positional":
            args += (given,)
        elif spell != "default":
            kw["path"] = given
        what = f"{op['g']} {op['v']} {op['kw']}, target {str(given) if given else 'not given'},"
        fn = T.generator(op["g"])
        failed = None
        try:
            with T.quiet():
                fn(*args, **kw)
        except Exception as e:  # noqa: BLE001
            failed = e
        if os.getcwd() != here:
            raise Violation(f"{what} changed the working directory to {os.getcwd()}")
        if failed is None and want is None:
            raise Violation(f"{what} was served, but refused for another target")
        if failed is not None and want is not None:
            raise Violation(f"{what} raised {type(failed).__name__}: {failed}")
        after = tree(root)
        rel = os.path.relpath(target, root)
        others = sorted(f for f in set(before) | set(after) if before.get(f) != after.get(f) and f != rel)
        if others:
            raise Violation(f"{what} created, changed or removed {others}")
        if want is None:
            if before.get(rel) != after.get(rel):
                raise Violation(f"{what} was refused, but changed its target")
        elif not os.path.isfile(target):
            raise Violation(f"{what} wrote no file of that name")
        else:
            with open(target, encoding="utf-8") as fp:
                if fp.read() != want:
                    raise Violation(f"{what} wrote another text than for a new file of another name")
        ctx.count(spell)
        ctx.count("refused" if want is None else "served")
        ctx.interesting(bool(case["decoys"] or case["old"] or spell != "absolute"))
