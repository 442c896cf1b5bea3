"""Independent reference model: polynomial (bosonic Fock space) algebra.

A creation operator a_i^dagger acts as multiplication by x_i, an annihilation
operator a_i as d/dx_i, the vacuum is the constant polynomial 1.  A polynomial
is a dict {sorted tuple of mode indices: coefficient array}, i.e. the key
(0, 0, 2) is the monomial x0*x0*x2.  Coefficients are numpy arrays carrying the
electronic indices.  Nothing in here looks at the code under test.
"""
from itertools import product
from math import factorial


def add_into(dst, src, scale=1):
    for key, val in src.items():
        if key in dst:
            dst[key] = dst[key] + scale * val
        else:
            dst[key] = scale * val
    return dst


def from_tensor(tensor, nof_el, N, weight):
    """polynomial weight * sum_{i..} T[..., i...] x_i...   (mode indices are the trailing axes)"""
    out = {}
    rank = tensor.ndim - nof_el
    for idx in product(range(N), repeat=rank):
        key = tuple(sorted(idx))
        val = weight * tensor[(Ellipsis,) + idx] if rank else weight * tensor
        out[key] = out[key] + val if key in out else val
    return out


def derivative(poly, i):
    out = {}
    for key, val in poly.items():
        c = key.count(i)
        if c:
            lst = list(key)
            lst.remove(i)
            k = tuple(lst)
            out[k] = out[k] + c * val if k in out else c * val
    return out


def mul_x(poly, idx):
    if not idx:
        return dict(poly)
    out = {}
    for key, val in poly.items():
        k = tuple(sorted(key + tuple(idx)))
        out[k] = out[k] + val if k in out else val
    return out


def multiply(p, q, op):
    """product of two polynomials, coefficients combined by `op` (order is kept)"""
    out = {}
    for k1, v1 in p.items():
        for k2, v2 in q.items():
            k = tuple(sorted(k1 + k2))
            v = op(v1, v2)
            out[k] = out[k] + v if k in out else v
    return out


def apply_operator(tensor, m, n, poly, N, nof_el, op):
    """1/(m! n!) sum T[..., i1..im, j1..jn] x_i1..x_im d_j1..d_jn  poly"""
    out = {}
    derivs = {(): poly}
    for lev in range(n):
        nxt = {}
        for js, p in derivs.items():
            for j in range(N):
                d = derivative(p, j)
                if d:
                    nxt[js + (j,)] = d
        derivs = nxt
    w = 1.0 / (factorial(m) * factorial(n))
    for js, p in derivs.items():
        for iss in product(range(N), repeat=m):
            coef = tensor[(Ellipsis,) + iss + js] if (m + n) else tensor
            for key, val in p.items():
                k = tuple(sorted(key + iss))
                v = w * op(coef, val)
                out[k] = out[k] + v if k in out else v
    return out


def truncated_shift(t_vec, poly, N, K):
    """sum_{k<=K} (t . d)^k / k!  poly, with scalar t_i"""
    total = {}
    cur = dict(poly)
    for k in range(K + 1):
        add_into(total, cur, 1.0 / factorial(k))
        if k == K:
            break
        nxt = {}
        for i in range(N):
            add_into(nxt, derivative(cur, i), t_vec[i])
        cur = nxt
        if not cur:
            break
    return total


def homogeneous(poly, deg):
    return {k: v for k, v in poly.items() if len(k) == deg}
