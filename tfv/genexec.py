"""Execute generated python modules.  Their third party / package imports are replaced by
stand-ins: `opt_einsum.contract_expression` is played by numpy, `symmetrize_tensor` is the sum
over all permutations of the mode axes (its documented meaning)."""
import ast
import itertools
import types

import numpy as np

from .target import Violation


def symmetrize_tensor(N, tensor, order):
    lead = tensor.ndim - order
    out = np.zeros_like(tensor)
    for perm in itertools.permutations(range(order)):
        out = out + tensor.transpose(tuple(range(lead)) + tuple(lead + p for p in perm))
    return out


class _Expression:
    def __init__(self, string, shapes):
        self.string, self.shapes = string, shapes

    def __call__(self, *ops):
        if [tuple(np.shape(o)) for o in ops] != [tuple(s) for s in self.shapes]:
            raise ValueError(f"contract_expression({self.string}) prepared for {self.shapes}, "
                             f"called with {[np.shape(o) for o in ops]}")
        return np.einsum(self.string, *ops)


def contract_expression(string, *shapes, **kw):
    # the real library parses the string here: do the same
    np.einsum(string, *[np.zeros(s) for s in shapes])
    return _Expression(string, shapes)


class _Log:
    def __getattr__(self, name):
        return lambda *a, **k: None


def load(text, extra=None):
    """compile and run a generated module; returns its namespace.  The stand-ins take the place of what the module
    itself imports: a module that does not import a name does not get it"""
    try:
        tree = ast.parse(text)
    except SyntaxError as e:
        raise Violation(f"generated module is not valid python: {e}") from e
    extra = dict(extra or {})
    have = {
        "opt_einsum": extra.pop("oe", None) or types.SimpleNamespace(contract_expression=contract_expression),
        "symmetrize": types.SimpleNamespace(symmetrize_tensor=symmetrize_tensor),
        "log_conf": types.SimpleNamespace(log=_Log()),
        "residual_equations": extra.pop("residual_equations", types.SimpleNamespace()),
    }
    ns, body = {"__name__": "generated"}, []
    for node in tree.body:
        if isinstance(node, ast.ImportFrom) and (node.level or node.module in have):
            for alias in node.names:
                module = node.module or alias.name
                if module not in have:
                    raise Violation(f"generated module imports the unknown {module}")
                value = getattr(have[module], alias.name, None) if node.module else have[module]
                if value is None:
                    raise Violation(f"generated module imports the unknown {module}.{alias.name}")
                ns[alias.asname or alias.name] = value
        elif isinstance(node, ast.Import):
            rest = []
            for alias in node.names:
                if alias.name in have:
                    ns[alias.asname or alias.name] = have[alias.name]
                else:
                    rest.append(alias)
            if rest:
                node.names = rest
                body.append(node)
        else:
            body.append(node)
    tree.body = body
    ns.update(extra)
    try:
        exec(compile(tree, "<generated>", "exec"), ns)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"generated module does not load: {type(e).__name__}: {e}") from e
    return ns


def get(ns, name):
    if name not in ns:
        raise Violation(f"generated module lacks the function {name}")
    return ns[name]


def arrays(x):
    """every array inside nested containers"""
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, dict):
        for k in x:
            yield from arrays(x[k])
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from arrays(y)


def call(fn, *args, inout=0):
    """call a generated function; the arrays passed in (but for the first `inout` arguments) must come out as they went in"""
    held = list(arrays(args[inout:]))
    before = [a.copy() for a in held]
    try:
        out = fn(*args)
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(f"generated function {getattr(fn, '__name__', fn)} raised {type(e).__name__}: {e}") from e
    after = list(arrays(args[inout:]))
    if len(after) != len(held) or any(a is not b for a, b in zip(after, held)) or \
            not all(np.array_equal(a, b) for a, b in zip(held, before)):
        raise Violation(f"generated function {getattr(fn, '__name__', fn)} modifies the tensors passed in")
    return out


LEVELS = ("", "singles", "doubles", "triples", "quadruples", "quintuples", "sextuples")


class NotConfirmed(Exception):
    """what the truncation object of the consuming package raises when its level is too low"""


class Flags:
    """the truncation / ansatz object generated code receives.  `on` decides each attribute."""
    def __init__(self, on, level=6):
        object.__setattr__(self, "_on", on)
        object.__setattr__(self, "_level", level)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name.startswith("confirm_at_least_"):
            need = LEVELS.index(name[len("confirm_at_least_"):])
            return lambda *a, **k: self._confirm(need)
        return self._on(name)

    def _confirm(self, need):
        if need > self._level:
            raise NotConfirmed(f"truncation below {LEVELS[need]}")
