"""Numeric oracle of the e^T z-ansatz code: random tensors, polynomial model (tfv/poly.py)."""
import itertools
import re
import types

import numpy as np

from . import genexec as G
from . import poly as P
from . import target as T
from .target import Violation

TAGS = ("constant", "linear", "quadratic", "cubic", "quartic", "quintic", "sextic")


SWITCHES = {f"{x}_at_least_{t}" for x in "hz" for t in TAGS} | {
    "t_singles", "t_doubles", "t_triples", "t_quadruples", "t_quintuples", "t_sextuples"}


def sym(t, nel):
    r = t.ndim - nel
    if r < 2:
        return t
    out = 0
    for p in itertools.permutations(range(r)):
        out = out + t.transpose(tuple(range(nel)) + tuple(nel + q for q in p))
    return out


def tensors(values, A, N, data):
    """random tensors of complex integers; symmetric under interchange of mode indices (as the model's are)"""
    H, CC = values[0], values[1]
    rng = np.random.default_rng(data)

    def R(*s):
        return rng.integers(-3, 4, size=s) + 1j * rng.integers(-3, 4, size=s)
    d = {"t": {(0, 1): R(N)}}
    d["h"] = {(m, n): sym(R(*((A, A) + (N,) * (m + n))), 2) for m in range(H + 1) for n in range(H + 1 - m)}
    d["z"] = {(m, 0): sym(R(*((A,) + (N,) * m)), 1) for m in range(CC + 1)}
    d["dz"] = {(m, 0): sym(R(*((A,) + (N,) * m)), 1) for m in range(CC + 1)}
    d["dT"] = {(m, 0): sym(R(*((N,) * m)), 0) for m in range(1, max(H, 2) + 1)}
    # scale the high rank symmetrised tensors down to keep every magnitude comparable
    for grp in ("h", "z", "dz", "dT"):
        for k, v in d[grp].items():
            d[grp][k] = v / max(1, P.factorial(sum(k)) // 4)
    return d


def flags(case):
    """run time truncation object.  case['off']: list of attribute names that are False"""
    off = set(case.get("off", ()))

    def on(name):
        if name not in SWITCHES:
            raise AttributeError(f"the generated code asks for the run-time switch {name}, which does not exist")
        return name not in off
    return G.Flags(on, case.get("level", 6))


def model(values, d, side, off=()):
    """(full polynomial, T^0 correction polynomial) of the equation"""
    H, CC, _, eT, _ = values
    N = d["t"][(0, 1)].shape[0]
    hon = lambda k: k == 0 or f"h_at_least_{TAGS[k]}" not in off      # noqa: E731
    zon = lambda k: k == 0 or f"z_at_least_{TAGS[k]}" not in off      # noqa: E731
    zp, dzp = {}, {}
    for (m, _), v in d["z"].items():
        if zon(m):
            P.add_into(zp, P.from_tensor(v, 1, N, 1 / P.factorial(m)))
    tot = {}
    if side == "RHS":
        for (m, n), v in d["h"].items():
            if (m + n < 3 or m == 0) and hon(max(m, n)):
                P.add_into(tot, P.apply_operator(v, m, n, zp, N, 2, lambda a, b: a @ b))
        missing = P.apply_operator(d["h"][(0, 0)], 0, 0, zp, N, 2, lambda a, b: a @ b)
    else:
        for (m, _), v in d["dz"].items():
            if zon(m):
                P.add_into(dzp, P.from_tensor(v, 1, N, 1 / P.factorial(m)))
        P.add_into(tot, dzp)
        for (m, _), v in d["dT"].items():
            if m <= min(2, H) and hon(m):
                P.add_into(tot, P.apply_operator(v, m, 0, zp, N, 0, lambda a, b: a * b))
        missing = dzp
    K = 0 if "t_singles" in off else eT
    return P.truncated_shift(d["t"][(0, 1)], tot, N, K), missing


_ns = {}


def namespace(values, side, rf=False):
    key = (tuple(values), side, rf)
    if key not in _ns:
        if len(_ns) > 60:
            _ns.clear()
        _ns[key] = G.load(T.eT_code(values, side, rf))
    return _ns[key]


GROUND = types.SimpleNamespace(ground_state=True)


def call(ns, p, side, A, N, tr, d, optimized=False, ansatz=GROUND):
    name = f"compute_m0_n{p}_amplitude" + ("_optimized" if optimized else "")
    args = [A, N, ansatz, tr, d["t"]]
    args += [d["h"], d["z"]] if side == "RHS" else [d["dT"], d["z"], d["dz"]]
    if optimized:
        args.append(([], []))
    keys = {k: set(d[k]) for k in d}
    out = np.asarray(G.call(G.get(ns, name), *args))
    if keys != {k: set(d[k]) for k in d}:
        raise Violation(f"{name} modifies the dictionaries passed in")
    if out.shape != (A,) + (N,) * p:
        raise Violation(f"{name} returned shape {out.shape} instead of {(A,) + (N,) * p}")
    return out


def distance(got, exp, N):
    """largest difference between the polynomial of tensor `got` and polynomial `exp`; and magnitude"""
    g = P.from_tensor(got, 1, N, 1)
    err = mag = 0.0
    for k in set(g) | set(exp):
        e = np.asarray(exp.get(k, 0.0))
        err = max(err, float(np.abs(np.asarray(g.get(k, 0.0)) - e).max()))
        mag = max(mag, float(np.abs(e).max()))
    return err, mag


def projections(ns):
    out = sorted(int(m.group(1)) for k in ns for m in [re.fullmatch(r"compute_m0_n(\d+)_amplitude", k)] if m)
    extra = [k for k in ns if re.fullmatch(r"compute_m[1-9]\d*_n\d+_amplitude", k)]
    if extra:
        raise Violation(f"unexpected projections {extra}")
    return out


def compare(case, values, side, ctx, allow_missing, optimized=False):
    A, N = case["A"], case["N"]
    what = f"eT z ansatz {side} code, truncation (H,CC,T,eT,P)={tuple(values)}"
    ns = namespace(values, side, case.get("rf", False))
    want = list(range(min(values[1], values[4]) + 1))
    if projections(ns) != want:
        raise Violation(f"{what}: equations for projections {projections(ns)} instead of {want}")
    evaluate(ns, case, values, side, A, N, case["data"], want, what, ctx, allow_missing, optimized)
    if values[1] * values[3] <= 12:
        # nothing may be left over from the first evaluation
        evaluate(ns, case, values, side, A % 2 + 1, 3 - N if N < 3 else 2, case["data"] + 1, want, what + " evaluated again", ctx,
                 allow_missing, optimized)


def evaluate(ns, case, values, side, A, N, data, want, what, ctx, allow_missing, optimized):
    d = tensors(values, A, N, data)
    off = tuple(case.get("off", ()))
    full, missing = model(values, d, side, off)
    tr = flags(case)
    for p in want:
        if max(p, 1) > case.get("level", 6):
            try:
                call(ns, p, side, A, N, tr, d, optimized)
            except Violation as e:
                if isinstance(e.__cause__, G.NotConfirmed):
                    ctx.count("refused below the amplitude's level")
                    continue
                raise
            raise Violation(f"{what}, projection {p}: answered although the run-time truncation stops at {G.LEVELS[case['level']]}")
        exp = P.homogeneous(full, p)
        short = P.add_into(dict(exp), P.homogeneous(missing, p), -1)
        if side == "LHS":
            exp = short         # the bare dz of this order is the unknown the equations are solved for
        got = call(ns, p, side, A, N, tr, d, optimized)
        tol = 1e-8
        err, mag = distance(got, exp, N)
        ctx.count("projections compared")
        if err <= tol * max(1.0, mag):
            continue
        if allow_missing is not None and side == "RHS":
            err2, mag2 = distance(got, short, N)
            if err2 <= tol * max(1.0, mag2):
                ctx.finding(allow_missing)
                continue
            err = min(err, err2)
        raise Violation(f"{what}, projection {p}, A={A}, N={N}, off={list(off)}: generated code differs from "
                        f"the truncated operator algebra by {err:.6g} (magnitude {mag:.6g})")
