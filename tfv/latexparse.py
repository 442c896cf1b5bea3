"""Parser for the LaTeX equations termfactory writes: turns an expression into a list of
monomials (rational coefficient, powers of f and fbar, power of i, tensors), distributing
products over sums.  It looks only at the mathematics: colours, spacing, line breaks,
`\\Big`, `\\left` etc. carry no meaning."""
import re
from collections import namedtuple
from fractions import Fraction
from math import factorial

Tensor = namedtuple("Tensor", "name up down dot extra")      # labels: tuples of letters
Mono = namedtuple("Mono", "coef f fbar i tensors")


class ParseError(Exception):
    pass


TOKEN = re.compile(r"\\[A-Za-z]+|\\[^A-Za-z]|[A-Za-z]|\d+|[{}()\^_+\-*!,&=\[\]/~;:.|'\"<>]|\s+")
IGNORE = {r"\Big", r"\big", r"\Bigg", r"\bigg", r"\Bigl", r"\Bigr", r"\bigl", r"\bigr", r"\left", r"\right",
          r"\sum", r"\,", r"\;", r"\!", r"\:", r"\ ", r"\quad", r"\qquad", "&", r"\\", r"\nonumber",
          r"\displaystyle"}
COLOURS = {r"\blue", r"\red", r"\magenta", r"\green", r"\color"}
TENSORS = {r"\bh": "h", r"\bt": "t", r"\bs": "s", r"\bz": "z", r"\bw": "w", r"\bW": "W", r"\bc": "c",
           r"\bd": "d", r"\delta": "delta", r"\varepsilon": "eps", r"\epsilon": "eps"}
GREEK = {r"\gamma", r"\tau", r"\delta", r"\varepsilon", r"\epsilon", r"\chi", r"\psi"}


def strip_comments(text):
    return re.sub(r"(?<!\\)%[^\n]*", "", text)


def tokenize(text):
    text = strip_comments(text)
    text = re.sub(r"\\textit\{[^{}]*\}", " 0 ", text)     # "no ... terms"
    out, pos = [], 0
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise ParseError(f"unexpected {text[pos:pos + 20]!r}")
        tok = m.group()
        pos = m.end()
        if tok.isspace() or tok in IGNORE or tok in COLOURS:
            continue
        out.append(tok)
    return out


ONE = Mono(Fraction(1), 0, 0, 0, ())


def mul(a, b):
    return [Mono(x.coef * y.coef, x.f + y.f, x.fbar + y.fbar, x.i + y.i, x.tensors + y.tensors)
            for x in a for y in b]


class Parser:
    def __init__(self, text):
        self.toks = tokenize(text)
        self.pos = 0

    def peek(self, k=0):
        return self.toks[self.pos + k] if self.pos + k < len(self.toks) else None

    def take(self, expect=None):
        tok = self.peek()
        if tok is None or (expect is not None and tok != expect):
            raise ParseError(f"expected {expect!r}, found {tok!r} near {' '.join(self.toks[max(0, self.pos - 8):self.pos + 8])}")
        self.pos += 1
        return tok

    def group(self):
        """raw tokens of a {...} group"""
        self.take("{")
        depth, out = 1, []
        while True:
            tok = self.take()
            if tok == "{":
                depth += 1
            elif tok == "}":
                depth -= 1
                if depth == 0:
                    return out
            out.append(tok)

    # ---- sums and products
    def expr(self, closers=()):
        total = []
        sign = 1
        seen_term = False
        while True:
            tok = self.peek()
            if tok is None or tok in closers:
                break
            if tok == "+":
                self.take()
                if not seen_term and total:
                    raise ParseError("dangling + (an empty term)")
                sign, seen_term = 1, False
                continue
            if tok == "-":
                self.take()
                sign, seen_term = -1, False
                continue
            if seen_term:
                raise ParseError("internal")
            prod = self.product(closers)
            total += [m._replace(coef=sign * m.coef) for m in prod]
            seen_term = True
        return total, seen_term

    def product(self, closers):
        cur = [ONE]
        while True:
            tok = self.peek()
            if tok is None or tok in closers or tok in "+-":
                return cur
            cur = mul(cur, self.factor())

    def exponent(self):
        if self.peek() != "^":
            return 1
        self.take()
        if self.peek() == "{":
            toks = self.group()
            if len(toks) != 1 or not toks[0].isdigit():
                raise ParseError(f"bad exponent {toks}")
            return int(toks[0])
        return int(self.take())

    def factor(self):
        tok = self.take()
        if tok == "(":
            inner, _ = self.expr(closers=(")",))
            self.take(")")
            n = self.exponent()
            out = [ONE]
            for _ in range(n):
                out = mul(out, inner)
            return out
        if tok == "{":
            inner, _ = self.expr(closers=("}",))
            self.take("}")
            return inner
        if tok == "*":
            return [ONE]
        if tok.isdigit():
            val = int(tok)
            if self.peek() == "!":
                self.take()
                val = factorial(val)
            return [ONE._replace(coef=Fraction(val))]
        if tok == r"\frac":
            num, den = self.number(self.group()), self.number(self.group())
            return [ONE._replace(coef=num / den)]
        if tok == "f":
            return [ONE._replace(f=self.exponent())]
        if tok == "i":
            return [ONE._replace(i=1)]
        if tok == r"\bar":
            g = self.group()
            if g != ["f"]:
                raise ParseError(f"bar over {g}")
            return [ONE._replace(fbar=self.exponent())]
        if tok == r"\mathds":
            nxt = self.take()
            if nxt == "{":
                nxt = self.take()
                self.take("}")
            if nxt != "1":
                raise ParseError("mathds of something else than 1")
            return [ONE]
        if tok == r"\dv":
            inner = Parser.of(self.group())
            t = inner.factor()
            if inner.peek() is not None or len(t) != 1 or len(t[0].tensors) != 1:
                raise ParseError("derivative of something else than one tensor")
            if self.group() != [r"\tau"]:
                raise ParseError("derivative not in tau")
            return [ONE._replace(tensors=(t[0].tensors[0]._replace(dot=True),))]
        if tok == r"\hat":
            inner = Parser.of(self.group())
            t = inner.factor()
            if inner.peek() is not None or len(t) != 1 or len(t[0].tensors) != 1:
                raise ParseError("hat over something else than one tensor")
            ten = t[0].tensors[0]
            up, down, extra = self.scripts()
            return [ONE._replace(tensors=(ten._replace(up=ten.up + up, down=ten.down + down, extra=ten.extra + extra),))]
        if tok in TENSORS:
            up, down, extra = self.scripts()
            return [ONE._replace(tensors=(Tensor(TENSORS[tok], up, down, False, extra),))]
        raise ParseError(f"unknown factor {tok!r} near {' '.join(self.toks[max(0, self.pos - 8):self.pos + 8])}")

    @classmethod
    def of(cls, toks):
        p = cls.__new__(cls)
        p.toks, p.pos = toks, 0
        return p

    def number(self, toks):
        p = Parser.of(toks)
        val, _ = p.expr()
        if p.peek() is not None or len(val) != 1 or val[0].tensors or val[0].f or val[0].fbar or val[0].i:
            raise ParseError(f"not a number: {toks}")
        return val[0].coef

    def scripts(self):
        up, down, extra = (), (), ()
        while self.peek() in ("^", "_"):
            which = self.take()
            toks = self.group() if self.peek() == "{" else [self.take()]
            labels, ext, comma = [], [], False
            for t in toks:
                if t in "{}":
                    continue
                if t == ",":
                    comma = True
                elif t in GREEK:
                    ext.append(t)
                elif comma:
                    ext.append(t)
                elif t == "0":
                    pass
                elif len(t) == 1 and t.isalpha():
                    labels.append(t)
                elif t.isdigit():
                    labels.append(t)
                else:
                    raise ParseError(f"bad label {t!r}")
            if which == "^":
                up = tuple(labels)
            else:
                down = tuple(labels)
            extra = extra + tuple(ext)
        return up, down, extra


def parse(text):
    p = Parser(text)
    out, _ = p.expr()
    if p.peek() is not None:
        raise ParseError(f"trailing {' '.join(p.toks[p.pos:p.pos + 10])}")
    return [m for m in out if m.coef]
