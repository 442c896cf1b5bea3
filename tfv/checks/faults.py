"""a request is served in full or fails loudly: what lies beyond the implemented orders, a target that cannot be opened, and a
disk that takes only part of the text"""
import contextlib
import os
import resource
import shutil
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from .. import core, ops
from .. import target as T
from ..target import Violation
from .cli import LATEX, PYTHON, documented_name

W, DT, RES = "generate_w_operator_equations_file", "generate_dt_amplitude_equations_file", "generate_residual_equations_file"
FCC = "generate_full_cc_latex"
KW0 = {"only_ground_state": True, "remove_f_terms": False, "lhs_rhs": "RHS"}
PLACES = ("nodir", "isdir", "infile")


def beyond(g, v):
    """is the request above what the generator implements (a truncation inside the allowed domain, where it takes one)"""
    if g in (W, DT):
        return v[0] > 6
    if g == RES:
        return v[0] > 6 or v[1] > 2
    return g == FCC and min(v[1], v[3]) > 3


@contextlib.contextmanager
def disk(k):
    """files of this process can not grow beyond k bytes, as on a full disk"""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (k, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def request(op, path):
    """-> the exception the generator ended with, or None"""
    args = ops.arguments(op)
    fn = T.generator(op["g"])
    try:
        with T.quiet():
            fn(*args, path=path, **op["kw"])
    except Exception as e:  # noqa: BLE001
        return e
    return None


def read(path):
    with open(path, "rb") as fp:
        return fp.read()


def save(op, path):
    import importlib
    T.modules()
    tr = importlib.import_module("truncations")
    try:
        with T.quiet():
            tr.save_trunc_to_JSON(path, T.trunc_dict(op["kind"], op["v"]))
    except Exception as e:  # noqa: BLE001
        return e
    return None


def perform(op, path):
    return save(op, path) if op["g"] == "save" else request(op, path)


class Faults(core.Check):
    id = "C21"
    rule = ("a case is (generator or truncation saver or driver command line, request, fault): a request above the implemented orders "
            "with an old or no target, a target that cannot be opened, or a disk that takes k bytes of the text; non-trivial = "
            "the fault keeps the request from being served")
    assumptions = ("a loud failure is any exception, on the command line a nonzero exit status",
                   "a disk that fills up is stood for by the RLIMIT_FSIZE of the process")

    def explicit(self, tier):
        out = []
        far = [(g, [n]) for g in (W, DT) for n in (7, 8, 9, 12, 20)]
        far += [(RES, [n, r]) for n in range(0, 10) for r in (0, 1, 2, 3, 4) if n > 6 or r > 2]
        for g, v in far:
            for old in (-1, 0, 5000):
                out.append({"mode": "limit", "op": {"g": g, "v": v, "kw": {}}, "old": old})
        for H in (1, 2, 6):
            for CC in (4, 5, 6):
                for P in (4, 5, 6):
                    for rf in (False, True):
                        out.append({"mode": "limit", "op": {"g": FCC, "v": [H, CC, 1, P], "kw": dict(KW0, remove_f_terms=rf)}, "old": 700})
        small = [{"g": g, "v": {"fcc": [2, 2, 2, 2], "zhz": [2, 2, 2], "eTz": [2, 2, 1, 2, 2]}[k], "kw": dict(KW0, lhs_rhs=s)}
                 for g, k in ops.TRUNC.items() for s in ("LHS", "RHS")]
        small += [{"g": g, "v": [3, 2][:n], "kw": {}} for g, n in ops.PLAIN.items()]
        small += [{"g": "save", "kind": k, "v": [1] * len(T.ORDER[k])} for k in T.ORDER]
        for op in small:
            out += [{"mode": "open", "op": op, "where": w} for w in PLACES]
            out += [{"mode": "disk", "op": op, "k": k, "old": old} for k in (0, 1, 5, 500, 995, 999, 1000, 1001) for old in (-1, 100)]
        for kind, v in (("zhz", [1, 1, 1]), ("fcc", [2, 1, 2, 1]), ("eTz", [1, 1, 1, 2, 1])):
            for c in (False, True):
                if c and kind == "zhz":
                    continue
                for lhs in (False, True):
                    for fault in ("isdir", 1, 999):
                        out.append({"mode": "cli", "kind": kind, "v": v, "c": c, "lhs": lhs, "fault": fault})
        return out

    def examples(self, tier):
        return 900 if tier == "quick" else 12000

    def strategy(self, tier):
        @st.composite
        def case(draw):
            i = st.integers
            mode = draw(st.sampled_from(["limit"] * 3 + ["open"] * 2 + ["disk"] * 4 + ["cli"]))
            if mode == "limit":
                g = draw(st.sampled_from([W, DT, RES, RES, FCC]))
                if g in (W, DT):
                    v, kw = [draw(i(7, 24))], {}
                elif g == RES:
                    v, kw = [draw(i(0, 12)), draw(i(0, 6))], {}
                else:
                    v = [draw(i(1, 6)), draw(i(4, 6)), draw(i(1, 2)), draw(i(4, 6))]
                    kw = dict(KW0, remove_f_terms=draw(st.booleans()), lhs_rhs=draw(st.sampled_from(["LHS", "RHS"])))
                return {"mode": mode, "op": {"g": g, "v": v, "kw": kw}, "old": draw(st.sampled_from([-1, 0, 1, 3000]))}
            if mode == "cli":
                kind = draw(st.sampled_from(["zhz", "fcc", "eTz"]))
                v = [1 if k == "T" else draw(i(1, 2)) for k in T.ORDER[kind]]
                return {"mode": mode, "kind": kind, "v": v, "c": kind != "zhz" and draw(st.booleans()), "lhs": draw(st.booleans()),
                        "fault": draw(st.one_of(st.just("isdir"), i(0, 999)))}
            if draw(i(0, 9)) == 0:
                kind = draw(st.sampled_from(sorted(T.ORDER)))
                op = {"g": "save", "kind": kind, "v": [draw(i(1, T.MAXVAL[k])) for k in T.ORDER[kind]]}
            else:
                op = draw(ops.operation())
            if mode == "open":
                return {"mode": mode, "op": op, "where": draw(st.sampled_from(PLACES))}
            return {"mode": mode, "op": op, "k": draw(st.one_of(i(0, 1001), st.sampled_from([0, 999, 1000]))),
                    "old": draw(st.sampled_from([-1, -1, 10, 300000]))}
        return case()

    def smaller(self, case):
        if case.get("old", -1) > 0:
            yield dict(case, old=-1)
        if case["mode"] in ("open", "disk") and case["op"]["g"] in ops.TRUNC:
            v = case["op"]["v"]
            for j, x in enumerate(v):
                if x > 1:
                    yield dict(case, op=dict(case["op"], v=v[:j] + [1] + v[j + 1:]))

    def run(self, case, ctx):
        root = tempfile.mkdtemp(prefix="fault_", dir=T.scratch())
        os.chdir(os.path.join(T.scratch(), "cwd"))
        T.modules()
        try:
            getattr(self, "_" + case["mode"])(case, ctx, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        ctx.count(case["mode"])

    # ---------------------------------------------------------------- orders which are not implemented
    def _limit(self, case, ctx, root):
        op = case["op"]
        if not beyond(op["g"], op["v"]):
            return
        path = os.path.join(root, "out")
        if case["old"] >= 0:
            with open(path, "w") as fp:
                fp.write("%" * case["old"])
        what = f"{op['g']} {op['v']} {op['kw']}"
        if request(op, path) is None:
            raise Violation(f"{what} is above what is implemented, but was answered")
        if case["old"] < 0 and os.path.exists(path):
            raise Violation(f"{what} failed, but left a target file behind")
        if case["old"] >= 0 and (not os.path.isfile(path) or read(path) != b"%" * case["old"]):
            raise Violation(f"{what} failed, but changed the existing target file")
        if os.listdir(root) != (["out"] if case["old"] >= 0 else []):
            raise Violation(f"{what} failed, but left {os.listdir(root)}")
        ctx.interesting()

    # ---------------------------------------------------------------- targets which cannot be opened
    def _open(self, case, ctx, root):
        op, where = case["op"], case["where"]
        if where == "nodir":
            path = os.path.join(root, "absent", "out")
        elif where == "isdir":
            path = os.path.join(root, "out")
            os.mkdir(path)
        else:
            path = os.path.join(root, "plain", "out")
            with open(os.path.join(root, "plain"), "w") as fp:
                fp.write("kept")
        before = sorted(os.listdir(root))
        e = perform(op, path)
        served = os.path.isfile(path)
        if e is None and not served:
            raise Violation(f"{op['g']} {op['v']} {op.get('kw')}: the target ({where}) cannot be written, but nothing was raised")
        if not served and sorted(os.listdir(root)) != before:
            raise Violation(f"{op['g']} {op['v']}: unwritable target ({where}), but {sorted(os.listdir(root))} appeared")
        if where == "isdir" and os.path.isdir(path) and os.listdir(path):
            raise Violation(f"{op['g']} {op['v']}: wrote {os.listdir(path)} into the directory at its target path")
        if where == "infile" and read(os.path.join(root, "plain")) != b"kept":
            raise Violation(f"{op['g']} {op['v']}: changed a file which is not its target")
        ctx.interesting()

    # ---------------------------------------------------------------- a disk that fills up
    def _disk(self, case, ctx, root):
        op = case["op"]
        ref, path = os.path.join(root, "ref"), os.path.join(root, "out")
        if perform(op, ref) is not None:
            ctx.count("not served at all")          # refused for a reason of its own (C19 and others judge that)
            return
        want = read(ref)
        if case["old"] >= 0 and op["g"] != "excited_state_w_equations_latex":
            with open(path, "w") as fp:
                fp.write("%" * case["old"])
        # k: thousandths of the text that fit, the ends exactly
        k = case["k"]
        room = len(want) - (1000 - k) if k >= 995 else min(k, 5) if k <= 5 else k * len(want) // 1000
        room = max(room, 0)
        what = f"{op['g']} {op['v']} {op.get('kw')}: the disk takes {room} of {len(want)} bytes"
        with disk(room):
            e = perform(op, path)
        if room >= len(want):
            if e is not None:
                raise Violation(f"{what}, but the request failed: {type(e).__name__}: {e}")
            if read(path) != want:
                raise Violation(f"{what}, but another text was written")
            ctx.count("just fits")
            return
        if e is None:
            raise Violation(f"{what}, but nothing was raised")
        ctx.interesting()

    # ---------------------------------------------------------------- the same on the command line
    def _cli(self, case, ctx, root):
        kind, v, c, lhs, fault = case["kind"], case["v"], case["c"], case["lhs"], case["fault"]
        op = {"g": (PYTHON if c else LATEX)[kind], "v": v, "kw": dict(KW0, lhs_rhs="LHS" if lhs else "RHS")}
        ref = os.path.join(root, "ref")
        if request(op, ref) is not None:
            ctx.count("not served at all")
            return
        size = len(read(ref))
        cwd = os.path.join(root, "w")
        os.mkdir(cwd)
        name = documented_name(kind, v, c, lhs, True, False)
        room = None
        if fault == "isdir":
            os.mkdir(os.path.join(cwd, name))
        else:
            room = fault * (size - 1) // 999
        argv = (["-c"] if c else []) + (["-lhs"] if lhs else []) + ["-t"] + [str(x) for x in v]
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)

        def limit():
            resource.setrlimit(resource.RLIMIT_FSIZE, (room, room))
        p = subprocess.run([sys.executable, os.path.join(T.SRC, "driver.py")] + argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True,
                           timeout=300, preexec_fn=None if room is None else limit)
        if p.returncode == 0:
            raise Violation(f"driver.py {' '.join(argv)}: "
                            + ("a directory is in the place of the document" if room is None else f"the disk takes {room} of {size} bytes")
                            + ", but the exit status is 0")
        ctx.interesting()
