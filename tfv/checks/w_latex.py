"""LaTeX of the W operators: cumulant-like expansion over partitions"""
import os
import re
from collections import Counter
from fractions import Fraction
from math import factorial, prod

from hypothesis import strategies as st

from .. import core
from .. import target as T
from ..target import Violation
from .full_cc import partitions

ODD = ["", "   ", "\\begin{equation}", "\\end{document}", "\\usepackage{amsmath}  "]
FACTOR = re.compile(r"\\bt(?:\^(?:\{(\d+)\}|(\d)))?(?:_(?:\{(\d+)\}|(\d)))?")


def parse_term(text, what):
    """-> (coefficient, Counter{(m, n): power})"""
    s, coef, out = text.strip(), Fraction(1), Counter()
    m = re.match(r"\\frac\{1\}\{([^{}]*)\}", s)
    if m:
        for f in m.group(1).split("*"):
            g = re.fullmatch(r"(\d+)(!?)", f.strip())
            if not g:
                raise Violation(f"{what}: cannot read the prefactor of {text!r}")
            coef /= factorial(int(g.group(1))) if g.group(2) else int(g.group(1))
        s = s[m.end():]
    while s:
        power, par = 1, s.startswith("(")
        m = FACTOR.match(s[1:] if par else s)
        if not m or not m.group(0) or m.group(0) == r"\bt":
            raise Violation(f"{what}: cannot read {s!r} in {text!r}")
        up, down = (int(m.group(1) or m.group(2) or 0), int(m.group(3) or m.group(4) or 0))
        s = (s[1:] if par else s)[m.end():]
        if par:
            g = re.match(r"\)\^(?:\{(\d+)\}|(\d)(?!\d))", s)
            if not g:
                raise Violation(f"{what}: cannot read the power in {text!r}")
            power = int(g.group(1) or g.group(2))
            s = s[g.end():]
        out[(up, down)] += power
        s = s.strip()
    return coef, out


def check_rhs(text, up, down, mixed_single, what):
    text = text.strip()
    m = re.fullmatch(r"\\hat\{S\}\((.*)\)", text, re.S)
    if m:
        text = m.group(1)
    elif up + down > 1:
        raise Violation(f"{what}: not symmetrised")
    got = {}
    for term in text.split(" + "):
        c, ts = parse_term(term, what)
        key = tuple(sorted(ts.elements()))
        if key in got:
            raise Violation(f"{what}: {key} appears twice")
        got[key] = c
    want = {}
    for part in partitions(up, down, up + down):
        part = tuple(sorted(part))
        if len(part) == 1 and down and not mixed_single:
            continue
        want[part] = Fraction(1, prod(factorial(k) for k in Counter(part).values()))
    if set(got) != set(want):
        raise Violation(f"{what}: missing {sorted(set(want) - set(got))[:3]}, unexpected {sorted(set(got) - set(want))[:3]}")
    for k in want:
        if got[k] != want[k]:
            raise Violation(f"{what}: coefficient {got[k]} instead of {want[k]} for {k}")
    return len(want)


class WLatex(core.Check):
    patience = 600
    id = "C13"
    rule = ("a case is (ground/excited, maximum order, the lines, blank and odd ones included, already in the target file); the written LaTeX is parsed and "
            "each W operator compared with an independent enumeration of amplitude partitions and multiplicity factors; "
            "non-trivial = order >= 3")
    assumptions = ("orders up to 17 (ground; 20 in the thorough tier) and 5 (excited), the affordable ones",
                   "a W operator with lower index lists the products of two or more amplitudes")

    def explicit(self, tier):
        return [{"ex": True, "n": 5, "header": None}] + [{"ex": False, "n": n, "header": None} for n in range(1, 18)] + \
            [{"ex": True, "n": n, "header": h} for n in range(1, 5) for h in (None, 29)] + \
            [{"ex": True, "n": 2, "header": 40, "odd": o} for o in ([[28, ""]], [[0, ""]], [[28, "   "], [27, ""]], [[k, ODD[2]] for k in range(29)])]

    def examples(self, tier):
        return 60 if tier == "quick" else 300

    def strategy(self, tier):
        return st.one_of(
            st.builds(lambda n, h: {"ex": False, "n": n, "header": h}, st.integers(1, 16 if tier == "quick" else 20), st.one_of(st.none(), st.integers(0, 60))),
            st.builds(lambda n, h, o: {"ex": True, "n": n, "header": h, "odd": sorted(map(list, o.items()))},
                      st.integers(1, 4 if tier == "thorough" else 3), st.one_of(st.none(), st.integers(29, 60)),
                      st.dictionaries(st.one_of(st.integers(0, 28), st.sampled_from([0, 28])), st.sampled_from(ODD), max_size=4)))

    def valid(self, c):
        return 1 <= c["n"] <= (5 if c["ex"] else 20) and (c["header"] is None or c["header"] >= (29 if c["ex"] else 0))

    def run(self, c, ctx):
        fn = "excited_state_w_equations_latex" if c["ex"] else "ground_state_w_equations_latex"
        path = os.path.join(T.scratch(), "cwd", "w.tex")
        if os.path.exists(path):
            os.unlink(path)
        odd = dict(c.get("odd", ()))         # header lines that are blank or look like part of the document
        lines = [(odd.get(i, f"% line {i}.") if i < 29 else f"% line {i}.") + "\n" for i in range(c["header"] or 0)]
        if c["header"] is not None:
            with open(path, "w") as fp:
                fp.write("".join(lines))
        generate = T.generator(fn)
        try:
            with T.quiet():
                generate(c["n"], path=path)
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{fn}({c['n']}) raised {type(e).__name__}: {e}") from e
        with open(path) as fp:
            text = fp.read()
        what = f"{fn}({c['n']})"
        if c["ex"]:
            if c["header"] is not None:
                if not text.startswith("".join(lines[:29])) or any(x in text for x in lines[29:]):
                    raise Violation(f"{what}: an existing file does not keep exactly its 29 header lines")
                text = text[len("".join(lines[:29])):]
            self.excited(text, c["n"], what, ctx)
        else:
            if any(x in text for x in lines if x.startswith("%")):
                raise Violation(f"{what}: old file contents survive")
            if not text.lstrip().startswith(r"\documentclass") or not text.rstrip().endswith(r"\end{document}"):
                raise Violation(f"{what}: not a complete document")
            self.ground(text, c["n"], what, ctx)
        ctx.interesting(c["n"] >= 3)

    def ground(self, text, n, what, ctx):
        m = re.search(r"\\begin\{align\}(.*?)\\end\{align\}", text, re.S)
        if not m:
            raise Violation(f"{what}: no align environment")
        rows = [r for r in m.group(1).split("\\\\\n")]
        seen = []
        for row in rows:
            g = re.fullmatch(r"\s*\\bW\^\{(\d+)\} &= (.*?)\s*", row, re.S)
            if not g:
                raise Violation(f"{what}: cannot read {row!r}")
            k = int(g.group(1))
            seen.append(k)
            if k == 0:
                if g.group(2) != "1":
                    raise Violation(f"{what}: W^0 is not 1")
            else:
                ctx.count("partitions compared", check_rhs(g.group(2), k, 0, True, f"{what}, W^{k}"))
        if seen != list(range(n + 1)):
            raise Violation(f"{what}: operators {seen}")

    def excited(self, text, n, what, ctx):
        m = re.search(r"\\begin\{equation\}(.*?)\\end\{equation\}", text, re.S)
        if not m:
            raise Violation(f"{what}: no equation environment")
        seen = Counter()
        for row in re.split(r"\\\\\s*\n", m.group(1)):
            if not row.strip():
                continue
            g = re.fullmatch(r"\s*\\textbf\{W\}\^\{?(\d+)\}?(?:_\{?(\d+)\}?)? = (.*?)\s*", row, re.S)
            if not g:
                raise Violation(f"{what}: cannot read {row!r}")
            a, b = int(g.group(1)), int(g.group(2) or 0)
            seen[(a, b)] += 1
            if (a, b) == (0, 0):
                if g.group(3) != "1":
                    raise Violation(f"{what}: W^0 is not 1")
            else:
                ctx.count("partitions compared", check_rhs(g.group(3), a, b, False, f"{what}, W^{a}_{b}"))
        want = Counter([(0, 0)] + [(k, 0) for k in range(1, n + 1)] + [(k - i, i) for k in range(2, n + 1) for i in range(1, k)])
        if seen != want:
            raise Violation(f"{what}: operators {sorted(seen.elements())} instead of {sorted(want)}")
