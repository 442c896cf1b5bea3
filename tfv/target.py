"""Access to the code under test: /repo/termfactory, through its public generators only."""
import contextlib
import importlib
import io
import logging
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("TFV_REPO", "/repo")
SRC = os.path.join(REPO, "termfactory")

_scratch = None


class Violation(AssertionError):
    """the code under test broke the property"""


def scratch():
    """per process scratch tree; the working directory is one level below it
    (the driver writes ../truncs.json, importing opens log files in the cwd)"""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        root = tempfile.mkdtemp(prefix="tfv_")
        os.makedirs(os.path.join(root, "cwd"))
        _scratch = (os.getpid(), root)
        os.chdir(os.path.join(root, "cwd"))
    return _scratch[1]


def cleanup():
    global _scratch
    if _scratch is not None and _scratch[0] == os.getpid():
        os.chdir("/")
        shutil.rmtree(_scratch[1], ignore_errors=True)
        _scratch = None


_quiet = None


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def modules():
    """import the code under test: it must be importable (a tree without this module is looked through for the generators)"""
    global _quiet
    scratch()
    sys.dont_write_bytecode = True
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    try:
        with quiet():
            glue = importlib.import_module("_glue_")
    except (OSError, MemoryError):
        raise
    except Exception as e:  # noqa: BLE001
        if not (isinstance(e, ModuleNotFoundError) and e.name == "_glue_"):
            raise Violation(f"importing the package raises {type(e).__name__}: {e}") from e
        glue = None
    logging.raiseExceptions = False
    return glue


def generator(name):
    """a public generator, wherever the tree defines it (harness error when it is nowhere)"""
    glue = modules()
    if hasattr(glue, name):
        return getattr(glue, name)
    for f in sorted(os.listdir(SRC)):
        if f.endswith(".py") and f not in ("driver.py", "__init__.py"):
            with open(os.path.join(SRC, f)) as fp:
                if f"def {name}(" not in fp.read():
                    continue
            with quiet():
                return getattr(importlib.import_module(f[:-3]), name)
    raise RuntimeError(f"no generator {name} in {SRC}")


def tkeys():
    modules()
    return importlib.import_module("truncation_keys").TruncationsKeys


# truncation order on the command line, per ansatz (README / driver)
ORDER = {
    "zhz": ("H", "CC", "P"),
    "fcc": ("H", "CC", "S", "P"),
    "eTz": ("H", "CC", "T", "eT", "P"),
}
ANSATZ = {"zhz": "z_t ansatz", "fcc": "full cc", "eTz": "eT_z_t ansatz"}
MAXVAL = {"H": 6, "CC": 6, "S": 6, "P": 6, "T": 1, "eT": 8}


def trunc_dict(kind, values):
    tk = tkeys()
    return {getattr(tk, name): v for name, v in zip(ORDER[kind], values)}


def generate(what, *args, **kw):
    """call a public generator; the text it wrote is returned, any exception is a violation"""
    fn = generator(what)
    root = scratch()
    path = os.path.join(root, "cwd", "generated.out")
    with contextlib.suppress(FileNotFoundError):
        os.unlink(path)
    os.chdir(os.path.join(root, "cwd"))
    try:
        with quiet():
            fn(*args, path=path, **kw)
    except Exception as e:     # noqa: BLE001  every listed input is inside the documented domain
        raise Violation(f"{what}{args}{kw or ''} raised {type(e).__name__}: {e}") from e
    try:
        with open(path) as fp:
            return fp.read()
    except FileNotFoundError as e:
        raise Violation(f"{what}{args} wrote no file") from e


_cache = {}


def _keep(key, text):
    if len(_cache) >= 400 or sum(map(len, _cache.values())) > 5e7:
        _cache.clear()
    _cache[key] = text


def cached(what, *args, **kw):
    key = (what, args, tuple(sorted(kw.items())))
    if key not in _cache:
        _keep(key, generate(what, *args, **kw))
    return _cache[key]


def eT_code(values, side, rf=False):
    return cachedT("generate_eT_zhz_python", "eTz", values, only_ground_state=True, remove_f_terms=rf, lhs_rhs=side)


def cachedT(what, kind, values, **kw):
    key = (what, kind, tuple(values), tuple(sorted(kw.items())))
    if key not in _cache:
        _keep(key, generate(what, trunc_dict(kind, values), **kw))
    return _cache[key]
