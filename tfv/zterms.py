"""Term-level oracle for the Z ansaetze LaTeX.

A term is identified by how its creation / annihilation indices are connected; the expected
coefficient follows from the operator algebra  sum_{k<=K} (t.d)^k/k!  (H z)  with
H = sum 1/(m!n!) h x^m d^n and z = sum 1/m! z x^m  (see tfv/poly.py for the executable model)."""
from collections import Counter
from fractions import Fraction
from math import comb, factorial

from . import latexparse as LP
from .target import Violation

import re

ENV = re.compile(r"\\begin\{(equation|align)\}(.*?)\\end\{\1\}", re.S)
HEADING = re.compile(r"\\(?:paragraph|(?:sub)*section)\*?\{([^{}]*)\}")
RANKS = ("0 order", "linear", "quadratic", "cubic", "quartic", "quintic", "sextic", "septic", "octic")


class Block(tuple):
    """(omega label string, lhs text or None, rhs text or None) with the defining equation and the heading above"""
    define = heading = None


def heading_before(body, pos):
    found = [m.group(1) for m in HEADING.finditer(strip(body[:pos]))]
    return next((h for h in reversed(found) if any(r in h.lower() for r in RANKS)), None)


def strip(text):
    return LP.strip_comments(text)


def check_heading(heading, rank, what):
    h = (heading or RANKS[0]).lower()
    if [i for i, r in enumerate(RANKS) if re.search(rf"\b{r}\b", h)] != [rank]:
        raise Violation(f"{what}: printed under the heading {heading!r}")


def omega_labels(omega, what):
    labels = re.findall(r"\\(?:up|down)\{\s*(\w+)\s*\}", strip(omega))
    if len(set(labels)) != len(labels) or len(labels) != sum(omega_rank(omega)):
        raise Violation(f"{what}: the projection operator repeats or lacks an index: {omega}")
    return sorted(labels)


def check_frame(block, a, b, what, with_z=True):
    """the projection operator, the definition i dt/dtau = G, the derivative of z and the heading, all of one rank and set of indices"""
    labels = omega_labels(block[0], what)
    check_heading(block.heading, a + b, what)
    sides = block.define.split("=")
    if len(sides) != 2:
        raise Violation(f"{what}: no definition of G: {block.define!r}")
    t, g = parse(sides[0], what), parse(sides[1].replace(r"\hat{G}", r"\bW"), what)
    if len(t) != 1 or len(g) != 1 or t[0][:4] != (1, 0, 0, 1) or g[0][:4] != (1, 0, 0, 0) or len(t[0].tensors) != 1 or len(g[0].tensors) != 1:
        raise Violation(f"{what}: the definition of G is malformed: {block.define!r}")
    for ten, name, dot in ((t[0].tensors[0], "t", True), (g[0].tensors[0], "W", False)):
        if (ten.name, ten.dot, len(ten.up), len(ten.down)) != (name, dot, b, a) or sorted(ten.up + ten.down) != labels:
            raise Violation(f"{what}: the definition of G does not match the projection operator: {block.define!r}")
    if with_z:
        z = parse(block[1] or "", what)
        if len(z) != 1 or z[0][:4] != (1, 0, 0, 1) or len(z[0].tensors) != 1:
            raise Violation(f"{what}: the left hand side is not i dz/dtau: {block[1]!r}")
        ten = z[0].tensors[0]
        if (ten.name, ten.dot) != ("z", True) or sorted(ten.up + ten.down) != labels:
            raise Violation(f"{what}: the left hand side does not match the projection operator: {show(z[0])}")


def check_note(text, rf, what):
    if (re.search(r"terms with a \$f\$ prefactor have been removed", text) is not None) != rf:
        raise Violation(f"{what}: the document {'does not say' if rf else 'says'} that f terms were removed")


def blocks(text):
    """a Block for every generated equation"""
    body = text.split(r"\begin{document}", 1)[-1]
    out, omega, define = [], None, ""
    for m in ENV.finditer(body):
        content = m.group(2)
        om = re.match(r"\s*\\hat\{\\Omega\}\s*=\s*(.*?)\\qquad(.*)", content, re.S)
        if om and r"\cdots" not in om.group(1):
            omega, define = om.group(1).strip(), om.group(2)
            continue
        if omega is not None and (re.search(r"LHS\s*&=", content) or re.search(r"RHS\s*&=", content)):
            content = re.sub(r"\\(begin|end)\{split\}", "", content)
            parts = re.split(r"(LHS|RHS)\s*&=", content)
            d = {parts[i]: parts[i + 1] for i in range(1, len(parts), 2)}
            blk = Block((omega, d.get("LHS"), d.get("RHS")))
            blk.define, blk.heading = define, heading_before(body, m.start())
            out.append(blk)
            omega = None
    return out


def omega_rank(omega):
    """(ups, downs) of the printed projection operator"""
    omega = LP.strip_comments(omega)
    return len(re.findall(r"\\up\{", omega)), len(re.findall(r"\\down\{", omega))


def parse(text, what):
    try:
        return LP.parse(text)
    except (LP.ParseError, ValueError) as e:
        raise Violation(f"{what}: the printed equation cannot be read as a formula: {e}") from e


def index_check(mono, nof_ext, what):
    """every index is external (once) or contracted (once up, once down, on different tensors);
    returns {label: [(tensor position, 'u'/'d'), ...]}"""
    where = {}
    for pos, t in enumerate(mono.tensors):
        for lab in t.up:
            where.setdefault(lab, []).append((pos, "u"))
        for lab in t.down:
            where.setdefault(lab, []).append((pos, "d"))
    ext = 0
    for lab, spots in where.items():
        if len(spots) == 1:
            ext += 1
        elif len(spots) == 2:
            (p1, s1), (p2, s2) = spots
            if p1 == p2 or s1 == s2:
                raise Violation(f"{what}: index {lab} is not contracted up-down between two tensors in {show(mono)}")
        else:
            raise Violation(f"{what}: index {lab} appears {len(spots)} times in {show(mono)}")
    if ext != nof_ext:
        raise Violation(f"{what}: {ext} free indices instead of {nof_ext} in {show(mono)}")
    return where


def show(mono):
    s = f"{mono.coef}"
    if mono.f:
        s += f" f^{mono.f}"
    if mono.fbar:
        s += f" fbar^{mono.fbar}"
    for t in mono.tensors:
        s += f" {'d' if t.dot else ''}{t.name}^{''.join(t.up)}_{''.join(t.down)}"
    return s


def pruned_h(m, n, H):
    """Hamiltonian terms the Z ansaetze keep: all up to quadratic, pure annihilation above"""
    return m + n <= H and (m + n <= 2 or m == 0)


# --------------------------------------------------------------------------- eT z ansatz
def expected_eT(values, side, p):
    """{(kh, kz, hm, hn, zm, dz): (coefficient, fbar)} of the order p equation"""
    H, CC, _, eT, _ = values
    out = {}
    for zm in range(CC + 1):
        for m in range(H + 1):
            for n in range(H + 1 - m):
                if side == "RHS":
                    if not pruned_h(m, n, H):
                        continue
                elif n or m > 2:
                    continue
                dz = side == "LHS" and m == 0
                if n > zm:
                    continue
                for kh in range(m + 1):
                    for kz in range(zm - n + 1):
                        if kh + kz > eT:
                            continue
                        he, ze = m - kh, zm - n - kz
                        if he + ze != p:
                            continue
                        c = Fraction(1, factorial(kh) * factorial(kz) * factorial(he) * factorial(n) * factorial(ze))
                        out[(kh, kz, m, n, zm, dz)] = (c, kh + kz + n)
    return out


def signature_eT(mono, p, side, what):
    where = index_check(mono, p, what)
    tname = "t" if side == "RHS" else "s"
    ts, h, z = [], None, None
    for pos, t in enumerate(mono.tensors):
        if t.name == tname and not t.dot:
            if t.up or len(t.down) != 1:
                raise Violation(f"{what}: t amplitude of the wrong shape in {show(mono)}")
            ts.append(pos)
        elif (side == "RHS" and t.name == "h" and not t.dot) or (side == "LHS" and t.name == "t" and t.dot):
            if h is not None:
                raise Violation(f"{what}: more than one Hamiltonian in {show(mono)}")
            h = pos
        elif t.name == "z":
            if z is not None or t.down:
                raise Violation(f"{what}: unexpected z in {show(mono)}")
            z = pos
        else:
            raise Violation(f"{what}: unexpected tensor in {show(mono)}")
    if z is None:
        raise Violation(f"{what}: no z in {show(mono)}")
    zt = mono.tensors[z]
    if side == "RHS":
        if h is None or zt.dot:
            raise Violation(f"{what}: malformed term {show(mono)}")
        if mono.i:
            raise Violation(f"{what}: stray i in {show(mono)}")
    else:
        if (h is None) != zt.dot or mono.i != 1:
            raise Violation(f"{what}: malformed derivative term {show(mono)}")
    m = len(mono.tensors[h].up) if h is not None else 0
    n = len(mono.tensors[h].down) if h is not None else 0
    kh = kz = hz = 0
    for lab, spots in where.items():
        if len(spots) == 2:
            (up,) = [q for q, s in spots if s == "u"]
            (dn,) = [q for q, s in spots if s == "d"]
            if dn in ts and up == h:
                kh += 1
            elif dn in ts and up == z:
                kz += 1
            elif dn == h and up == z:
                hz += 1
            else:
                raise Violation(f"{what}: contraction of {lab} makes no sense in {show(mono)}")
        else:
            if spots[0][1] != "u":
                raise Violation(f"{what}: free index {lab} is down in {show(mono)}")
    if kh + kz != len(ts) or hz != n:
        raise Violation(f"{what}: uncontracted annihilation index in {show(mono)}")
    return (kh, kz, m, n, len(zt.up), zt.dot)


def split_eT_rhs(monos, p, what):
    """separate first (bare h), middle and last (i dt z) parts"""
    bare, mid, last = [], [], []
    for m in monos:
        names = [t.name for t in m.tensors]
        if any(t.dot for t in m.tensors):
            last.append(m)
        elif "z" in names:
            mid.append(m)
        else:
            bare.append(m)
    return bare, mid, last


LETTERS = "ijklmnopqr"


def check_bare(bare, ups, downs, what):
    """h^{..}_{..} (1 - delta_{x gamma})"""
    if len(bare) != 2 or {m.coef for m in bare} != {1, -1}:
        raise Violation(f"{what}: bare Hamiltonian term is wrong: {[show(m) for m in bare]}")
    for m in bare:
        names = sorted(t.name for t in m.tensors)
        want = ["h"] if m.coef == 1 else ["delta", "h"]
        h = [t for t in m.tensors if t.name == "h"]
        if names != want or m.f or m.fbar or m.i or len(h[0].up) != ups or len(h[0].down) != downs \
                or len(set(h[0].up + h[0].down)) != ups + downs:
            raise Violation(f"{what}: bare Hamiltonian term is wrong: {show(m)}")


def compare(found, expected, what, tolerated=None, notes=None):
    """found: list of (signature, coef, fbar, mono)"""
    got = {}
    for sig, coef, fbar, mono in found:
        if sig not in expected:
            raise Violation(f"{what}: unexpected term {show(mono)} (signature {sig})")
        if sig in got:
            raise Violation(f"{what}: term printed twice: {show(mono)}")
        got[sig] = True
        c, fb = expected[sig]
        if fbar != fb:
            raise Violation(f"{what}: fbar power {fbar} instead of {fb} in {show(mono)}")
        if coef != c:
            if tolerated and tolerated(sig, coef, c):
                if notes is not None:
                    notes.append((sig, coef, c, mono))
                continue
            raise Violation(f"{what}: coefficient {coef} instead of {c} in {show(mono)}")
    missing = sorted(set(expected) - set(got))
    if missing:
        raise Violation(f"{what}: missing term(s) {missing[:4]}")


def mixed_overcount(sig, got, want):
    """known finding: terms with p>=1 t's on h and q>=1 t's on z are printed 1/C(p+q,p) too small"""
    kh, kz = sig[0], sig[1]
    return kh > 0 and kz > 0 and got * comb(kh + kz, kh) == want


def no_f(expected, fpos=1):
    return expected


# --------------------------------------------------------------------------- z ansatz (no eT)
def expected_zhz(values, a, b):
    """omega with a `up` and b `down` operators: {(m, n, zm, c): (coef, fbar)}"""
    H, CC, _ = values
    out = {}
    for m in range(H + 1):
        for n in range(H + 1 - m):
            if not pruned_h(m, n, H):
                continue
            for zm in range(CC + 1):
                c = n - a
                if c < 0 or c > zm or m + zm - c != b:
                    continue
                coef = Fraction(1, factorial(m) * factorial(c) * factorial(n - c) * factorial(zm - c))
                out[(m, n, zm, c)] = (coef, c)
    return out


def signature_zhz(mono, a, b, what):
    where = index_check(mono, a + b, what)
    names = sorted(t.name for t in mono.tensors if t.name != "delta")
    if names != ["h", "z"] or mono.i or mono.f or any(t.dot for t in mono.tensors):
        raise Violation(f"{what}: malformed term {show(mono)}")
    h = next(t for t in mono.tensors if t.name == "h")
    z = next(t for t in mono.tensors if t.name == "z")
    if z.down:
        raise Violation(f"{what}: z with annihilation indices {show(mono)}")
    c = set(h.down) & set(z.up)
    ext_up = len(h.up) + len(z.up) - len(c)
    ext_dn = len(h.down) - len(c)
    if (ext_dn, ext_up) != (a, b):
        raise Violation(f"{what}: free indices do not match the projection in {show(mono)}")
    return (len(h.up), len(h.down), len(z.up), len(c))


def check_last(last, a, b, CC, what):
    """-i sum ( dt z ): every way to hand the free indices to dt and z, z purely creation"""
    got = Counter()
    for m in last:
        if m.i != 1 or m.coef != -1 or m.f or m.fbar or len(m.tensors) != 2:
            raise Violation(f"{what}: malformed derivative product {show(m)}")
        t, z = m.tensors
        if not (t.name == "t" and t.dot and z.name == "z" and not z.dot):
            raise Violation(f"{what}: malformed derivative product {show(m)}")
        labels = t.up + t.down + z.up + z.down
        got[(len(t.up), len(t.down), len(z.up), len(z.down))] += 1
        yield m, labels
    want = Counter({(b - k, a, k, 0): 1 for k in range(b + 1)})
    if got != want:
        raise Violation(f"{what}: derivative products {dict(got)} instead of {dict(want)}")
