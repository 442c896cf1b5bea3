#!/usr/bin/env python3
"""development aid (no check uses it): plants small mechanical changes in a scratch copy of the repository and
reports those that pass the repository's tests; a second phase runs the checks against the survivors.

  mutate.py cover  OUT.json                 lines of /repo/termfactory the public generators execute
  mutate.py phase1 COVER.json OUT.jsonl N SEED [file...]   N random mutants -> survivors of the test suite
  mutate.py filter OUT.jsonl DIFF.jsonl SAME.jsonl      does the mutant change any text of a corpus of requests?
  mutate.py phase2 OUT.jsonl RESULT.jsonl   checks against survivors
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

SRC = "/repo/termfactory"
CHECKS = {
    "code_eT_zhz.py": ["C01", "C02", "C04", "C03", "C17", "C19", "C14"], "latex_eT_zhz.py": ["C05", "C01", "C02", "C04", "C18", "C14"],
    "latex_zhz.py": ["C06", "C05", "C01", "C18", "C14"], "latex_full_cc.py": ["C07", "C08", "C09", "C06", "C18", "C19", "C14"], "code_full_cc.py": ["C08", "C09", "C17", "C19", "C14"],
    "code_w_equations.py": ["C10", "C17", "C20"], "code_dt_equations.py": ["C11", "C17", "C20"], "code_residual_equations.py": ["C12", "C17", "C20"],
    "latex_w_equations.py": ["C13", "C18"], "helper_funcs.py": ["C10", "C11", "C13", "C12"], "truncations.py": ["C15", "C16", "C14"],
    "truncation_keys.py": ["C15", "C16", "C14"], "driver.py": ["C16"], "_glue_.py": ["C16", "C15"],
    "common_imports.py": ["C05", "C06", "C07", "C08", "C01", "C10", "C11"], "latex_defines.py": ["C07", "C05", "C13"],
    "namedtuple_defines.py": ["C07", "C05"], "reference_latex_headers.py": ["C18", "C13"], "code_import_statements_module.py": ["C01", "C08", "C10", "C17"],
}


def cover(out):
    sys.path.insert(0, "/verif")
    from tfv import target as T
    import threading
    hits = {}

    def tr(frame, ev, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(SRC):
            return None
        hits.setdefault(os.path.basename(fn), set()).add(frame.f_lineno)
        return tr
    sys.settrace(tr)
    threading.settrace(tr)
    glue = T.modules()
    kw = lambda **k: dict(dict(only_ground_state=True, remove_f_terms=False, lhs_rhs="RHS", path=os.path.join(T.scratch(), "o")), **k)
    for side in ("RHS", "LHS"):
        for rf in (False, True):
            for v in ([6, 6, 6], [3, 3, 3]):
                glue.generate_z_t_symmetric_latex(T.trunc_dict("zhz", v), **kw(lhs_rhs=side, remove_f_terms=rf))
            for v in ([3, 3, 1, 3, 3], [6, 4, 1, 4, 4], [1, 6, 1, 2, 6], [2, 1, 1, 8, 1], [1, 1, 1, 1, 1]):
                glue.generate_eT_z_t_symmetric_latex(T.trunc_dict("eTz", v), **kw(lhs_rhs=side, remove_f_terms=rf))
                glue.generate_eT_zhz_python(T.trunc_dict("eTz", v), **kw(lhs_rhs=side))
            for gs in (True, False):
                for v in ([2, 2, 3, 2], [4, 2, 2, 2], [3, 3, 3, 3], [1, 1, 1, 1], [2, 3, 5, 3]):
                    if not gs and v[1] == 3:
                        continue
                    glue.generate_full_cc_latex(T.trunc_dict("fcc", v), **kw(lhs_rhs=side, remove_f_terms=rf, only_ground_state=gs))
                    glue.generate_full_cc_python(T.trunc_dict("fcc", v), **kw(lhs_rhs=side, remove_f_terms=rf, only_ground_state=gs))
    p = os.path.join(T.scratch(), "o")
    for n in (1, 2, 3, 4, 5, 6):
        glue.generate_w_operator_equations_file(n, path=p)
        glue.generate_dt_amplitude_equations_file(n, path=p)
        glue.ground_state_w_equations_latex(n, path=p)
    for n in (1, 2, 3):
        glue.excited_state_w_equations_latex(n, path=p)
    for n in (0, 2, 6):
        glue.generate_residual_equations_file(n, 2, path=p)
    sys.settrace(None)
    for f in ("driver.py", "truncations.py", "truncation_keys.py", "_glue_.py"):
        hits[f] = set(range(1, 1000))
    T.cleanup()
    json.dump({k: sorted(v) for k, v in hits.items()}, open(out, "w"))


SWAP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!=", ">=", "<="], ast.NotEq: ["=="],
        ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
ARITH = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "//", ast.Pow: "*"}


def offsets(text):
    o = [0]
    for line in text.splitlines(keepends=True):
        o.append(o[-1] + len(line))
    return o


def mutants(fname, lines):
    text = open(os.path.join(SRC, fname)).read()
    assert text.isascii() or True
    tree = ast.parse(text)
    off = offsets(text)

    def pos(ln, col):
        line = text[off[ln - 1]:off[ln]]
        return off[ln - 1] + len(line.encode()[:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    out = []

    def add(n, a, b, new, what):
        if n.lineno in lines and text[a:b] != new:
            out.append((fname, n.lineno, a, b, new, what))
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            mid = text[a:b]
            if "(" in mid or ")" in mid or "\n" in mid:
                continue
            for new in SWAP.get(type(n.ops[0]), []):
                add(n, a, b, f" {new} ", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in ARITH:
            a, b = span(n.left)[1], span(n.right)[0]
            mid = text[a:b]
            if "(" in mid or ")" in mid or "\n" in mid or isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, "value", None), str):
                continue
            add(n, a, b, f" {ARITH[type(n.op)]} ", "arith")
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            mid = text[a:b]
            if mid.strip() in ("and", "or"):
                add(n, a, b, " or " if mid.strip() == "and" else " and ", "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, span(n)[0], span(n)[1], "(" + text[slice(*span(n.operand))] + ")", "not")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            for d in (1, -1):
                add(n, *span(n), str(n.value + d), "const")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, *span(n), str(not n.value), "boolconst")
        elif isinstance(n, (ast.If, ast.While)):
            for new in ("True", "False"):
                add(n.test, *span(n.test), new, "cond")
        elif isinstance(n, (ast.Continue, ast.Break)):
            add(n, *span(n), "pass", "jump")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                and n.value.func.attr in ("append", "extend", "remove", "sort", "update", "add", "pop", "insert"):
            add(n, *span(n), "pass", "delcall")
        elif isinstance(n, ast.AugAssign):
            add(n, *span(n), "pass", "delaug")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("deepcopy", "copy"):
            inner = n.args[0] if n.args else n.func.value
            add(n, *span(n), text[slice(*span(inner))], "nocopy")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max", "sorted", "set", "sum", "abs"):
            if n.func.id in ("min", "max"):
                add(n, *span(n.func), {"min": "max", "max": "min"}[n.func.id], "minmax")
            elif n.func.id == "sorted":
                add(n, *span(n.func), "list", "sorted")
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not (isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "print", "range")):
            for x, y in zip(n.args, n.args[1:]):
                if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(y, (ast.Name, ast.Attribute)):
                    (a, b), (c, d) = span(x), span(y)
                    add(n, a, d, text[c:d] + text[b:c] + text[a:b], "argswap")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, *span(n), text[slice(*span(n.value))], "noslice")
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for u, w in (("m_lhs", "n_lhs"), ("m_h", "n_h"), ("m_t", "n_t"), ("m_o", "n_o"), ("m", "n")):
                if n.attr in (u, w):
                    a, b = span(n)
                    add(n, b - len(n.attr), b, w if n.attr == u else u, "attr")
    return text, out


def apply(repo, m):
    fname, _, a, b, new, _ = m
    path = os.path.join(repo, "termfactory", fname)
    text = open(os.path.join(SRC, fname)).read()
    new = text[:a] + new + text[b:]
    try:
        compile(new, fname, "exec")
    except SyntaxError:
        return False
    with open(path, "w") as fp:
        fp.write(new)
    return True


def restore(repo, fname):
    shutil.copy(os.path.join(SRC, fname), os.path.join(repo, "termfactory", fname))


def phase1(coverf, out, n, seed, files):
    lines = {k: set(v) for k, v in json.load(open(coverf)).items()}
    allm = []
    for f in sorted(lines):
        if files and f not in files or f == "log_conf.py":
            continue
        allm += mutants(f, lines[f])[1]
    random.Random(seed).shuffle(allm)
    print(len(allm), "possible mutants")
    allm = allm[:n]
    pool = Queue()
    for i in range(8):
        d = f"/tmp/mw{i}"
        if not os.path.isdir(d):
            shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))
        for f in os.listdir(SRC):
            if f.endswith(".py"):
                shutil.copy(os.path.join(SRC, f), os.path.join(d, "termfactory", f))
        pool.put(d)
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
    fp = open(out, "a")

    def one(m):
        d = pool.get()
        try:
            if not apply(d, m):
                return
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--disable-warnings"],
                                   cwd=d, env=env, capture_output=True, timeout=150)
                ok = r.returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
            if ok:
                fp.write(json.dumps(m) + "\n")
                fp.flush()
        finally:
            restore(d, m[0])
            pool.put(d)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, allm))


CORPUS = r"""
import sys, hashlib, json
sys.path.insert(0, '/verif')
from tfv import target as T
out = []
def go(fn, *a, **k):
    try:
        out.append(T.generate(fn, *a, **k))
    except T.Violation as e:
        out.append(type(e.__cause__).__name__)
B = (True, False)
for v in ([1,1,1],[2,2,2],[6,6,6],[3,4,2],[1,5,5]):
    for rf in B:
        go("generate_z_t_symmetric_latex", T.trunc_dict("zhz", v), only_ground_state=True, remove_f_terms=rf, lhs_rhs="RHS")
for v in ([1,1,1,1,1],[2,2,1,2,2],[6,4,1,4,6],[3,6,1,2,6],[2,2,1,8,1],[4,3,1,5,2],[1,6,1,3,6]):
    for side in ("LHS", "RHS"):
        for rf in B:
            go("generate_eT_z_t_symmetric_latex", T.trunc_dict("eTz", v), only_ground_state=True, remove_f_terms=rf, lhs_rhs=side)
        for gs in B:
            go("generate_eT_zhz_python", T.trunc_dict("eTz", v), only_ground_state=gs, remove_f_terms=False, lhs_rhs=side)
for v in ([1,1,1,1],[2,2,2,2],[6,2,3,2],[2,6,2,3],[3,3,4,3],[2,2,6,2],[3,4,2,6],[1,3,5,3],[6,1,6,1],[5,5,2,5]):
    for gs in B:
        if gs or v[0]*v[1]*v[2] <= 24:
            for rf in B:
                go("generate_full_cc_latex", T.trunc_dict("fcc", v), only_ground_state=gs, remove_f_terms=rf, lhs_rhs="RHS")
            go("generate_full_cc_python", T.trunc_dict("fcc", v), only_ground_state=gs, remove_f_terms=False, lhs_rhs="RHS")
for n in range(1, 7):
    go("generate_w_operator_equations_file", n)
    go("generate_dt_amplitude_equations_file", n)
    go("generate_residual_equations_file", n, 2)
for n in range(0, 7):
    go("generate_residual_equations_file", n, 1)
for n in range(1, 13):
    go("ground_state_w_equations_latex", n)
for n in range(1, 5):
    go("excited_state_w_equations_latex", n)
T.cleanup()
print(hashlib.sha1(json.dumps(out).encode()).hexdigest())
"""


def digest(repo):
    try:
        r = subprocess.run(["python3-vt", "-c", CORPUS], env=dict(os.environ, TFV_REPO=repo, PYTHONHASHSEED="0"), capture_output=True, text=True, timeout=400)
        return r.stdout.strip() or "error " + r.stderr[-200:]
    except subprocess.TimeoutExpired:
        return "timeout"


def filt(inp, diff, same):
    """survivors that change the text written for a corpus of requests / those that do not"""
    base = digest("/repo")
    print(base)
    pool = Queue()
    for i in range(8):
        pool.put(f"/tmp/mw{i}")
    done = set()
    for f in (diff, same):
        if os.path.exists(f):
            done |= set(open(f))

    def one(line):
        if line in done:
            return
        m, d = json.loads(line), pool.get()
        try:
            apply(d, m)
            with open(same if digest(d) == base else diff, "a") as fp:
                fp.write(line)
        finally:
            restore(d, m[0])
            pool.put(d)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, open(inp)))


def phase2(inp, out):
    d = "/tmp/mw0"
    done = set()
    if os.path.exists(out):
        done = {json.dumps(json.loads(x)["m"]) for x in open(out)}
    fp = open(out, "a")
    for line in open(inp):
        m = json.loads(line)
        if json.dumps(m) in done:
            continue
        apply(d, m)
        res = "MISSED"
        for c in CHECKS[m[0]]:
            try:
                r = subprocess.run(["/verif/check", c, "quick"], env=dict(os.environ, TFV_REPO=d), capture_output=True, text=True, timeout=900)
                rc, so = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, so = 99, ""
            if rc:
                res = f"{c} rc={rc} " + so[:150]
                if rc == 1:
                    break
        text = open(os.path.join(SRC, m[0])).read().splitlines()
        fp.write(json.dumps({"m": m, "res": res, "line": text[m[1] - 1].strip()}) + "\n")
        fp.flush()
        restore(d, m[0])


if __name__ == "__main__":
    if sys.argv[1] == "cover":
        cover(sys.argv[2])
    elif sys.argv[1] == "filter":
        filt(*sys.argv[2:5])
    elif sys.argv[1] == "phase1":
        phase1(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), sys.argv[6:])
    else:
        phase2(sys.argv[2], sys.argv[3])
