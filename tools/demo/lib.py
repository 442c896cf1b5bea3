"""helpers of a demonstration: run the generators of the tree in the current directory (cwd = repository root)"""
import ast, contextlib, importlib, io, itertools, logging, os, shutil, sys, tempfile, types
import numpy as np

ROOT = os.getcwd()
SCRATCH = tempfile.mkdtemp(prefix="demo_")
os.makedirs(os.path.join(SCRATCH, "cwd"))
os.chdir(os.path.join(SCRATCH, "cwd"))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, "termfactory"))


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


with quiet():
    glue = importlib.import_module("_glue_")
    tk = importlib.import_module("truncation_keys").TruncationsKeys
logging.raiseExceptions = False


def trunc(**kw):
    return {getattr(tk, k): v for k, v in kw.items()}


def write(what, *args, path=None, **kw):
    path = path or os.path.join(SCRATCH, "cwd", "out.txt")
    with quiet():
        getattr(glue, what)(*args, path=path, **kw)
    with open(path) as fp:
        return fp.read()


def symmetrize(N, t, order):
    lead = t.ndim - order
    return sum(t.transpose(tuple(range(lead)) + tuple(lead + p for p in q)) for q in itertools.permutations(range(order)))


class Expr:
    def __init__(self, s, shapes):
        self.s, self.shapes = s, shapes

    def __call__(self, *ops):
        assert [tuple(o.shape) for o in ops] == [tuple(s) for s in self.shapes], (self.shapes, [o.shape for o in ops])
        return np.einsum(self.s, *ops)


def load(text):
    tree = ast.parse(text)
    tree.body = [n for n in tree.body
                 if not (isinstance(n, ast.ImportFrom) and n.level)
                 and not (isinstance(n, ast.Import) and n.names[0].name.startswith("opt_einsum"))]
    class Log:
        def __getattr__(self, n):
            return lambda *a, **k: None
    ns = {"oe": types.SimpleNamespace(contract_expression=lambda s, *sh, **k: Expr(s, sh)), "symmetrize_tensor": symmetrize, "log": Log(), "__name__": "gen"}
    exec(compile(tree, "<generated>", "exec"), ns)
    return ns


class Flags:
    def __init__(self, off=(), **attr):
        self._off, self._attr = set(off), attr

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in self.__dict__.get("_attr", {}):
            return self._attr[n]
        if n.startswith("confirm_at_least"):
            return lambda *a, **k: None
        return n not in self._off


def finish(ok, msg):
    os.chdir("/")
    shutil.rmtree(SCRATCH, ignore_errors=True)
    print(("ok: " if ok else "BROKEN: ") + msg)
    sys.stdout.flush()
    os._exit(0 if ok else 1)


def ones(A, N, el, r):
    return np.ones((A,) * el + (N,) * r)


def eT(H, CC, eTo, P, side, p, off=(), optimized=False, t=1.0, scale=None):
    """one surface, one mode: evaluate the equation of projection p with tensors given by scale(kind, m, n)"""
    scale = scale or (lambda k, m, n: 1.0)
    ns = load(write("generate_eT_zhz_python", trunc(H=H, CC=CC, T=1, eT=eTo, P=P), only_ground_state=True, lhs_rhs=side))
    h = {(m, n): ones(1, 1, 2, m + n) * scale("h", m, n) for m in range(H + 1) for n in range(H + 1)}
    z = {(m, 0): ones(1, 1, 1, m) * scale("z", m, 0) for m in range(CC + 1)}
    dz = {(m, 0): ones(1, 1, 1, m) * scale("dz", m, 0) for m in range(CC + 1)}
    dT = {(m, 0): ones(1, 1, 0, m) * scale("dT", m, 0) for m in range(1, 7)}
    ta = {(0, 1): ones(1, 1, 0, 1) * t, (1, 0): ones(1, 1, 0, 1) * t}
    args = [1, 1, types.SimpleNamespace(ground_state=True), Flags(off), ta] + ([h, z] if side == "RHS" else [dT, z, dz])
    if optimized:
        args.append(([], []))
    return complex(np.asarray(ns[f"compute_m0_n{p}_amplitude" + ("_optimized" if optimized else "")](*args)).ravel()[0]).real


def equations(text):
    """the bodies of the align environments of a LaTeX document"""
    return [b.split(r"\end{align}")[0] for b in text.split(r"\begin{align}")[1:]]
