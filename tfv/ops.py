"""generator operations as data: {"g": name, "kind": ansatz or None, "v": values, "kw": keyword arguments}"""
import os

from hypothesis import strategies as st

from . import target as T

TRUNC = {
    "generate_full_cc_latex": "fcc", "generate_full_cc_python": "fcc", "generate_z_t_symmetric_latex": "zhz",
    "generate_eT_z_t_symmetric_latex": "eTz", "generate_eT_zhz_python": "eTz",
}
PLAIN = {
    "generate_w_operator_equations_file": 1, "generate_dt_amplitude_equations_file": 1, "generate_residual_equations_file": 2,
    "ground_state_w_equations_latex": 1, "excited_state_w_equations_latex": 1,
}


def arguments(op):
    if op["g"] in TRUNC:
        kind = TRUNC[op["g"]]
        d = T.trunc_dict(kind, op["v"])
        order = op.get("order")
        if order:
            keys = list(d)
            d = {keys[i]: d[keys[i]] for i in order}
        return (d,)
    return tuple(op["v"])


def perform(op, path=None):
    """-> {"text": ...} or {"error": exception type}; anything printed is dropped"""
    os.chdir(os.path.join(T.scratch(), "cwd"))
    own = path is None
    path = path or os.path.join(T.scratch(), "cwd", "op.out")
    if own and os.path.exists(path):
        os.unlink(path)
    args = arguments(op)
    before = [dict(a) if isinstance(a, dict) else a for a in args]
    generate = T.generator(op["g"])
    try:
        with T.quiet():
            generate(*args, path=path, **op["kw"])
    except Exception as e:  # noqa: BLE001
        return {"error": type(e).__name__}
    if [list(a.items()) if isinstance(a, dict) else a for a in args] != \
            [list(a.items()) if isinstance(a, dict) else a for a in before]:
        return {"changed": "the truncation passed in was modified"}
    with open(path) as fp:
        return {"text": fp.read()}


@st.composite
def operation(draw, big=1):
    g = draw(st.sampled_from(sorted(TRUNC) * 2 + sorted(PLAIN)))
    i = st.integers
    if g in TRUNC:
        kind = TRUNC[g]
        gs = draw(st.sampled_from([True, True, False]))
        if kind == "zhz":
            v = [draw(i(1, 6 if gs else 3)) for _ in range(3)]
        elif kind == "eTz":
            CC = draw(i(1, 4))
            v = [draw(i(1, 6)), CC, 1, draw(i(1, 5 if CC < 4 else 3)), draw(i(1, 6))]
        else:
            v = draw(st.sampled_from([[1, 1, 1, 1], [2, 2, 2, 2], [3, 3, 3, 3], [4, 2, 3, 2], [2, 3, 4, 2], [6, 2, 4, 2], [5, 2, 5, 2],
                                      [6, 3, 3, 3], [1, 6, 1, 3], [3, 1, 6, 1], [2, 2, 3, 3], [6, 1, 4, 1], [4, 3, 2, 3]]))
            v = list(v)
            gs = draw(st.booleans()) if v[0] * v[1] * v[2] <= 12 or v == [4, 2, 3, 2] else True
        kw = {"only_ground_state": gs, "remove_f_terms": draw(st.booleans()), "lhs_rhs": draw(st.sampled_from(["LHS", "RHS"]))}
        if g == "generate_full_cc_latex" and min(v[1], v[3]) > 3:
            v[3] = 3
        op = {"g": g, "v": v, "kw": kw}
        if draw(st.booleans()):
            op["order"] = draw(st.permutations(range(len(v))))
        return op
    if g == "generate_residual_equations_file":
        v = [draw(i(0, 6)), draw(i(1, 2))]
    elif g == "excited_state_w_equations_latex":
        v = [draw(i(1, 3))]
    elif g == "ground_state_w_equations_latex":
        v = [draw(i(1, 12))]
    else:
        v = [draw(i(1, 6))]
    return {"g": g, "v": v, "kw": {}}


@st.composite
def variation(draw, op):
    """a request close to an earlier one: the kind of neighbour that a stale cache or shared object confuses with it"""
    op = dict(op, v=list(op["v"]), kw=dict(op["kw"]))
    op.pop("order", None)
    for _ in range(draw(st.integers(1, 2))):
        if op["g"] not in TRUNC:
            op["v"][0] = max(1, op["v"][0] - 1) if draw(st.booleans()) else op["v"][0]
            continue
        what = draw(st.sampled_from(["only_ground_state", "remove_f_terms", "lhs_rhs", "v", "v", "g"]))
        if what == "g":
            same = sorted(k for k, x in TRUNC.items() if x == TRUNC[op["g"]])
            op["g"] = draw(st.sampled_from(same))
        elif what == "lhs_rhs":
            op["kw"][what] = "LHS" if op["kw"][what] == "RHS" else "RHS"
        elif what == "v":
            j = draw(st.integers(0, len(op["v"]) - 1))
            op["v"][j] = max(1, op["v"][j] - draw(st.integers(1, 2)))
        elif what == "only_ground_state" and op["kw"][what] and prodsize(op["v"]) > 40:
            continue
        else:
            op["kw"][what] = not op["kw"][what]
    if op["g"] == "generate_full_cc_latex" and min(op["v"][1], op["v"][3]) > 3:
        op["v"][3] = 3
    return op


def prodsize(v):
    n = 1
    for x in v[:3]:
        n *= x
    return n
