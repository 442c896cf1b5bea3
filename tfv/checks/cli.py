"""the command line driver: every request is refused without output or writes exactly the documented file"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from .. import core, ops
from .. import target as T
from ..target import Violation
from .validation import BYLEN, NAME

BY_ANSATZ = {v: k for k, v in T.ANSATZ.items()}
LATEX = {"fcc": "generate_full_cc_latex", "zhz": "generate_z_t_symmetric_latex", "eTz": "generate_eT_z_t_symmetric_latex"}
PYTHON = {"fcc": "generate_full_cc_python", "eTz": "generate_eT_zhz_python"}
STEM = {"fcc": "full_cc", "zhz": "z_t", "eTz": "eT_z_t"}
TRUE, FALSE = ("True", "true", "1", "yes"), ("False", "false", "0", "no")


def documented_name(kind, v, code, lhs, gs, rf):
    pre, post = "ground_state_" if gs else "", "_no_f_terms" if rf else ""
    if not code:
        return f"{pre}{STEM[kind]}_{'special_LHS_terms' if lhs else 'symmetric_equations'}{post}.tex"
    if kind == "fcc":
        return f"{pre}full_cc_{'special_LHS_equations' if lhs else 'equations'}{post}.py"
    H, CC, T1, eT, P = v
    return f"eT_zhz_eqs_{'LHS' if lhs else 'RHS'}_H({H})_P({P})_T({T1})_exp({eT})_Z({CC}).py"


def expected(case):
    """-> None (refusal) or (file name, text)"""
    v = case["v"]
    if case["via"] not in ("t", "p") or len(v) not in BYLEN:
        return None
    kind = BYLEN[len(v)]
    if case["a"] is not None and BY_ANSATZ.get(case["a"]) != kind:
        return None
    if any(not 1 <= x <= T.MAXVAL[k] for k, x in zip(T.ORDER[kind], v)):
        return None
    table = PYTHON if case["c"] else LATEX
    if kind not in table:
        return None
    rf = case["rf"] in TRUE
    op = {"g": table[kind], "v": v, "kw": {"only_ground_state": not case["es"], "remove_f_terms": rf,
                                          "lhs_rhs": "LHS" if case["lhs"] else "RHS"}}
    res = ops.perform(op)
    if "text" not in res:
        return None
    return documented_name(kind, v, case["c"], case["lhs"], not case["es"], rf), res["text"]


class Cli(core.Check):
    id = "C16"
    rule = ("a case is a driver command line (values on the line or in a file, ansatz, side, state, f terms, code/LaTeX, log "
            "destination, old output present); non-trivial = the request must produce a file, or is refused for a reason other "
            "than missing values")
    assumptions = ("a refusal is a nonzero exit status", "the text itself is judged by the other properties: here it has to be what "
                   "the generator writes for the same request")

    def explicit(self, tier):
        base = {"via": "t", "v": [1, 1, 1, 1], "a": None, "c": False, "lhs": False, "es": False, "rf": None, "log": None, "s": False,
                "old": 0, "long": False, "prev": 0}
        out = [dict(base, via="none", v=[]), dict(base, via="both"), dict(base, v=[1, 1]), dict(base, v=[1] * 6),
               dict(base, a="full_cc"), dict(base, a="z_t ansatz"), dict(base, v=[1, 1, 1], c=True), dict(base, v=[2, 1, 3, 0]),
               dict(base, via="missing")]
        for v in ([2, 1, 3], [2, 3, 1, 2], [3, 2, 1, 4, 1]):
            for via in ("t", "p"):
                for c in (False, True):
                    for lhs in (False, True):
                        out.append(dict(base, v=v, via=via, c=c, lhs=lhs))
                        out.append(dict(base, v=v, via=via, c=c, lhs=lhs, es=True, rf="True", long=True))
            out.append(dict(base, v=v, prev=3, old=1))
            out.append(dict(base, v=[7] + v[1:], old=100))
            out.append(dict(base, v=[7] + v[1:], old=100, c=True, via="p"))
            out.append(dict(base, v=v, rf="False"))
            for a in T.ANSATZ.values():
                out.append(dict(base, v=v, a=a))
        return out

    def examples(self, tier):
        return 700 if tier == "quick" else 6000

    def strategy(self, tier):
        @st.composite
        def case(draw):
            n = draw(st.sampled_from([3, 4, 5, 3, 4, 5, 3, 4, 5, 2, 6, 1]))
            if n in BYLEN:
                names = T.ORDER[BYLEN[n]]
                hi = {3: {"H": 6, "CC": 6, "P": 6}, 4: {"H": 4, "CC": 2, "S": 3, "P": 2}, 5: {"H": 6, "CC": 3, "T": 1, "eT": 4, "P": 6}}[n]
                v = [draw(st.integers(1, hi[k])) for k in names]
                if draw(st.integers(0, 5)) == 0:
                    i = draw(st.integers(0, n - 1))
                    v[i] = draw(st.sampled_from([0, T.MAXVAL[names[i]] + 1, -1]))
                kind = BYLEN[n]
            else:
                v, kind = [1] * n, "fcc"
            a = draw(st.sampled_from([None, None, None, T.ANSATZ[kind], T.ANSATZ[kind], "full cc", "z_t ansatz", "eT_z_t ansatz", "cc"]))
            b = st.booleans()
            return {"via": draw(st.sampled_from(["t", "p", "t", "p", "t", "p", "t", "p", "both"])), "v": v, "a": a, "c": draw(b),
                    "lhs": draw(b), "es": draw(st.sampled_from([False, False, True])),
                    "rf": draw(st.sampled_from([None, None, "True", "False", "true", "false", "1", "0", "yes", "no"])),
                    "log": draw(st.sampled_from([None, "my.log"])), "s": draw(st.sampled_from([False, False, False, True])),
                    "old": draw(st.sampled_from([0, 0, 1, 90000])), "long": draw(b), "prev": draw(st.sampled_from([0, 3, 4, 5]))}
        return case()

    def smaller(self, case):
        for k, x in (("a", None), ("rf", None), ("log", None), ("s", False), ("old", 0), ("prev", 0), ("long", False), ("es", False), ("lhs", False)):
            if case[k] != x:
                yield dict(case, **{k: x})
        for i, x in enumerate(case["v"]):
            if x > 1:
                yield dict(case, v=case["v"][:i] + [1] + case["v"][i + 1:])

    def drive(self, argv, cwd):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        return subprocess.run([sys.executable, os.path.join(T.SRC, "driver.py")] + argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL, capture_output=True,
                              text=True, timeout=300)

    def argv(self, case):
        L = case["long"]
        out = []
        if case["a"] is not None:
            out += ["--ansatz" if L else "-a", case["a"]]
        if case["c"]:
            out += ["--code" if L else "-c"]
        if case["lhs"]:
            out += ["-lhs"]
        if case["es"]:
            out += ["--excited_state" if L else "-es"]
        if case["rf"] is not None:
            out += ["--remove_f_terms" if L else "-rf", case["rf"]]
        if case["log"] is not None:
            out += ["--log_path" if L else "-l", case["log"]]
        if case["s"]:
            out += ["--stdlog" if L else "-s"]
        if case["via"] in ("t", "both"):
            out += ["-t"] + [str(x) for x in case["v"]]
        if case["via"] in ("p", "both"):
            out += ["--path" if L else "-p", "in.json"]
        if case["via"] == "missing":
            out += ["-p", "absent.json"]
        return out

    def run(self, case, ctx):
        want = expected(case)
        root = tempfile.mkdtemp(prefix="cli_", dir=T.scratch())
        try:
            self._run(case, ctx, want, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def _run(self, case, ctx, want, root):
        cwd = os.path.join(root, "w")
        os.mkdir(cwd)
        kind = BYLEN.get(len(case["v"]))
        stored = None
        if kind:
            stored = {NAME[k]: x for k, x in zip(T.ORDER[kind], case["v"])}
            with open(os.path.join(cwd, "in.json"), "w") as fp:
                json.dump(stored, fp)
        target = want[0] if want else None
        if not want and kind in (PYTHON if case["c"] else LATEX):
            target = documented_name(kind, case["v"], case["c"], case["lhs"], not case["es"], case["rf"] in TRUE)
        old = set()
        if case["old"] and target:
            with open(os.path.join(cwd, target), "w") as fp:
                fp.write("%" * case["old"])
            old = set() if want else {target}
        if case.get("prev"):         # the truncation file of an earlier request
            k0 = BYLEN[case["prev"]]
            with open(os.path.join(root, "truncs.json"), "w") as fp:
                json.dump({NAME[k]: 1 for k in T.ORDER[k0]}, fp)
        argv = self.argv(case)
        p = self.drive(argv, cwd)
        cmd = "driver.py " + " ".join(argv)
        made = {f for f in os.listdir(cwd) if f.endswith((".tex", ".py"))}
        if want is None:
            if p.returncode == 0:
                raise Violation(f"{cmd} {case['v']}: must be refused, but exited 0 and wrote {sorted(made)}")
            if made != old:
                raise Violation(f"{cmd}: refused, but wrote {sorted(made ^ old)}")
            for f in old:
                with open(os.path.join(cwd, f)) as fp:
                    if fp.read() != "%" * case["old"]:
                        raise Violation(f"{cmd}: refused, but changed the existing {f}")
            ctx.count("refused")
            ctx.interesting(case["via"] != "none")
            return
        name, text = want
        if p.returncode:
            raise Violation(f"{cmd} {case['v']}: exit status {p.returncode}: {p.stderr.strip()[-300:]}")
        if made != {name}:
            raise Violation(f"{cmd} {case['v']}: wrote {sorted(made)} instead of {name}")
        with open(os.path.join(cwd, name)) as fp:
            got = fp.read()
        if got != text:
            raise Violation(f"{cmd} {case['v']}: {name} differs from what the generator writes for this request")
        log = case["log"] or "default_logging_file.txt"
        if not case["s"] and not os.path.isfile(os.path.join(cwd, log)):
            raise Violation(f"{cmd}: no log file {log}")
        ctx.interesting()
        ctx.count("written " + name.rsplit(".", 1)[1])
        if case["via"] == "t":
            saved = os.path.join(root, "truncs.json")
            try:
                with open(saved) as fp:
                    got = json.load(fp)
            except (OSError, ValueError) as e:
                raise Violation(f"{cmd}: ../truncs.json unusable: {e}") from e
            if got != stored:
                raise Violation(f"{cmd}: ../truncs.json holds {got}")
            # the saved file reproduces the request
            os.unlink(os.path.join(cwd, name))
            again = dict(case, via="p")
            shutil.copy(saved, os.path.join(cwd, "in.json"))
            p = self.drive(self.argv(again), cwd)
            if p.returncode or not os.path.isfile(os.path.join(cwd, name)):
                raise Violation(f"{cmd}: repeating the request from the saved truncation file fails: {p.stderr.strip()[-300:]}")
            with open(os.path.join(cwd, name)) as fp:
                if fp.read() != text:
                    raise Violation(f"{cmd}: repeating the request from the saved truncation file gives another text")
            ctx.count("repeated from the saved file")
