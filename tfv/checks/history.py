"""the text written depends on the request only: not on earlier requests, the interpreter's string
hashing, the order of the truncation's keys or what the target file held"""
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from .. import core, ops
from .. import target as T
from ..target import Violation


def fresh(op, hashseed):
    # another day somewhere, another user, another terminal
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), TZ="Etc/GMT+12" if hashseed % 2 else "Etc/GMT-14", USER="somebody",
               LOGNAME="somebody", TERM="dumb", COLUMNS="40", HOME=T.scratch())
    if hashseed % 3 == 0:       # and under the plainest locale there is
        env.update(LC_ALL="C", LANG="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
    op = {k: v for k, v in op.items() if k not in ("order", "junk", "hs", "rel")}
    if hashseed % 4 == 1:       # and with other logging (everything is a lot)
        small = op["g"] not in ops.TRUNC or max(op["v"]) * op["v"][1] <= 12
        op["level"] = "DEBUG" if small and hashseed % 8 == 1 else "CRITICAL"
    p = subprocess.run([sys.executable, "-m", "tfv.fresh"], input=json.dumps(op), capture_output=True, text=True, cwd=core.VERIF,
                       env=env, timeout=300)
    if p.returncode or not p.stdout:
        raise RuntimeError(f"fresh interpreter failed: {p.stderr[-2000:]}")
    return json.loads(p.stdout)


class History(core.Check):
    id = "C14"
    rule = ("a case is a history of 1-8 generator requests (long explicit ones too), refused ones among them, made in one process, each with a hash seed for the reference, an optional "
            "permutation of the truncation's keys and optional old contents of the target file; every text written must equal the "
            "one a fresh interpreter with another hash seed writes for the same request alone; non-trivial = at least two requests")
    assumptions = ("the excited-state W document, which keeps the header of an existing file, is written to a new file",)

    def explicit(self, tier):
        out = []
        for v in ([6, 2, 4, 2], [5, 2, 5, 2], [6, 3, 3, 3]):
            out.append({"ops": [{"g": "generate_full_cc_python", "v": v, "hs": 1, "junk": 0,
                                 "kw": {"only_ground_state": True, "remove_f_terms": False, "lhs_rhs": "RHS"}}]})
        out.append({"ops": [{"g": "generate_full_cc_latex", "v": [4, 2, 3, 2], "hs": h, "junk": 0,
                             "kw": {"only_ground_state": False, "remove_f_terms": False, "lhs_rhs": "RHS"}} for h in (1, 2)]})
        # neighbours: every pair of requests that differ in one choice, both ways round
        for g, v in (("generate_full_cc_latex", [1, 3, 2, 2]), ("generate_full_cc_python", [2, 2, 2, 2]),
                     ("generate_z_t_symmetric_latex", [2, 3, 3]), ("generate_eT_z_t_symmetric_latex", [2, 2, 1, 2, 2]),
                     ("generate_eT_zhz_python", [2, 2, 1, 2, 2])):
            def op(v=v, **kw):
                return {"g": g, "v": v, "hs": 3 if kw else 9, "junk": 0,
                        "kw": dict({"only_ground_state": True, "remove_f_terms": False, "lhs_rhs": "RHS"}, **kw)}
            others = [op(only_ground_state=False), op(remove_f_terms=True), op(lhs_rhs="LHS")]
            others += [op(v=[y + (i == j) * (-1 if y > 1 else 1) for j, y in enumerate(v)]) for i in range(len(v))
                       if not (len(v) == 5 and i == 2)]
            for o in others:
                out.append({"ops": [o, op(), o]})
            # a refused request in between
            for bad in ([7] + v[1:], v[:-1] + [0]):
                out.append({"ops": [op(), op(v=bad), op(lhs_rhs="LHS"), op()]})
            # a long session: only its end is compared
            out.append({"ops": [op(**o["kw"]) for o in others] * 4 + [dict(o, rel=1) for o in others[:3]] + [op()], "skip": 4 * len(others)})
        plain = [{"g": g, "v": ([n, 2] if g == "generate_residual_equations_file" else [n]), "kw": {}, "hs": n * 3, "junk": 0, "rel": n % 2}
                 for n in (1, 3, 2) for g in sorted(ops.PLAIN)]
        out.append({"ops": plain * 5, "skip": 4 * len(plain)})
        for g in ("generate_w_operator_equations_file", "generate_dt_amplitude_equations_file", "generate_residual_equations_file"):
            def op1(*v):
                return {"g": g, "v": list(v), "kw": {}, "hs": 9, "junk": 0}
            rank = [2] if g == "generate_residual_equations_file" else []
            out.append({"ops": [op1(4, *rank), op1(8, *rank), op1(4, *rank), op1(6, *rank), op1(2, *rank)]})
        return out

    def examples(self, tier):
        return 240 if tier == "quick" else 1200

    def strategy(self, tier):
        @st.composite
        def case(draw):
            lst = [draw(ops.operation())]
            for _ in range(draw(st.integers(0, 5))):
                # a neighbour of an earlier request, or an unrelated one
                lst.append(draw(ops.variation(draw(st.sampled_from(lst)))) if draw(st.integers(0, 2)) else draw(ops.operation()))
            if draw(st.integers(0, 3)) == 0:     # a request outside the allowed domain somewhere in the history
                op = dict(draw(st.sampled_from(lst)))
                op["v"] = list(op["v"])
                if op["g"] in ops.TRUNC:
                    op["v"][draw(st.integers(0, len(op["v"]) - 1))] = draw(st.sampled_from([0, 9, -1]))
                elif op["g"] not in ("ground_state_w_equations_latex", "excited_state_w_equations_latex"):
                    op["v"][0] = draw(st.integers(7, 9))
                lst.insert(draw(st.integers(0, len(lst))), op)
            if draw(st.booleans()):
                lst.append(dict(lst[0]))         # a repeat at the end of the history
            lst = [dict(op) for op in lst]
            for op in lst:
                op["rel"] = draw(st.integers(0, 1))
                op["hs"] = draw(st.integers(1, 50))
                op["junk"] = draw(st.sampled_from([0, 0, 1, 200000]))
            return {"ops": lst}
        return case()

    def smaller(self, case):
        if case.get("skip"):
            n = len(case["ops"])
            for i in (n - 1, n // 2):
                yield {"ops": case["ops"][i:], "skip": max(0, case["skip"] - i)}
        for i in range(len(case["ops"])):
            if len(case["ops"]) > 1:
                yield {"ops": case["ops"][:i] + case["ops"][i + 1:]}
        for i, op in enumerate(case["ops"]):
            for k in ("order",):
                if k in op:
                    yield {"ops": case["ops"][:i] + [{a: b for a, b in op.items() if a != k}] + case["ops"][i + 1:]}
            if op["junk"]:
                yield {"ops": case["ops"][:i] + [dict(op, junk=0)] + case["ops"][i + 1:]}

    def run(self, case, ctx):
        path = os.path.join(T.scratch(), "cwd", "history.out")
        for n, op in enumerate(case["ops"]):
            if os.path.exists(path):
                os.unlink(path)
            if op["junk"] and op["g"] != "excited_state_w_equations_latex":
                with open(path, "w") as fp:
                    fp.write("x" * op["junk"])
            got = ops.perform(op, "./history.out" if op.get("rel") else path)
            if n < case.get("skip", 0):
                continue
            want = fresh(op, op["hs"])
            if "changed" in got or "changed" in want:
                raise Violation(f"{op['g']} {op['v']}: {got.get('changed') or want.get('changed')}")
            if got != want:
                a, b = got.get("text", ""), want.get("text", "")
                i = next((i for i, (x, y) in enumerate(zip(a.splitlines(), b.splitlines())) if x != y), -1)
                raise Violation(f"{op['g']} {op['v']} {op['kw']} as request {n + 1} of the history differs from a fresh interpreter's "
                                f"output (line {i}): {got.get('error') or a.splitlines()[i][:200] if a else got} / "
                                f"{want.get('error') or b.splitlines()[i][:200] if b else want}")
            ctx.count(op["g"])
            ctx.count("repeat" if op in case["ops"][:n] else "first")
        ctx.interesting(len(case["ops"]) >= 2)
