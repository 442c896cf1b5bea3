"""what LaTeX itself insists on: a small recogniser of the structure of a document.

Not a typesetter: it follows groups, environments, math mode, alignments and \\left..\\right pairs, knows which
package provides which command, and reports what a LaTeX run would stop at."""
import re

from .target import Violation

TOKEN = re.compile(r"\\[A-Za-z]+\*?|\\.|\\\n|[{}$&^_]|\n[ \t]*\n|[^\\{}$&^_\n]+|\n", re.S)

# commands by provider; the kernel list is wide on purpose
KERNEL = set("""begin end section subsection subsubsection paragraph subparagraph chapter part textit textbf textrm texttt emph text
hat bar tilde vec dot ddot frac sqrt sum prod int left right big Big bigg Bigg bigl bigr Bigl Bigr biggl biggr Biggl Biggr langle rangle
qquad quad hspace vspace newpage clearpage pagebreak linebreak newline noindent indent smallskip medskip bigskip hfill vfill hphantom vphantom phantom
cdots ldots dots cdot times equiv approx neq leq geq le ge to rightarrow leftarrow Rightarrow mapsto dagger prime infty partial nabla forall
exists in notin subset cup cap wedge vee otimes oplus pm mp sim simeq propto ell hbar Re Im exp log ln sin cos tan max min lim
alpha beta gamma delta epsilon varepsilon zeta eta theta vartheta iota kappa lambda mu nu xi pi rho sigma tau upsilon phi varphi chi psi omega
Gamma Delta Theta Lambda Xi Pi Sigma Upsilon Phi Psi Omega mathrm mathbf mathit mathcal mathsf mathtt mbox label ref item title author date
maketitle tableofcontents footnote small large Large normalsize footnotesize displaystyle textstyle scriptstyle underline overline overbrace
underbrace limits nolimits nonumber notag quad hline caption centering color usepackage documentclass newcommand renewcommand input include
par stackrel binom mathop operatorname not lbrace rbrace lvert rvert lVert rVert vert Vert mid star ast circ bullet""".split())
PACKAGE = {
    "physics": "dv pdv ket bra braket mel ketbra comm acomm qty abs norm expval ev dd tr Tr eval order".split(),
    "amsmath": "text dfrac tfrac eqref intertext tag binom operatorname".split(),
    "simplewick": "contraction bcontraction contracted".split(),
    "dsfont": ["mathds"], "bm": ["bm"], "color": "color colorbox textcolor".split(), "xcolor": "color colorbox textcolor".split(),
    "amssymb": "mathbb mathfrak".split(), "amsfonts": "mathbb mathfrak".split(), "graphicx": ["includegraphics"],
}
NEEDS_PACKAGE = {c: {p for p in PACKAGE if c in PACKAGE[p]} for p in PACKAGE for c in PACKAGE[p]}
MATHENV = {"equation", "equation*", "align", "align*", "gather", "gather*", "multline", "multline*", "displaymath", "eqnarray"}
INNER = {"split", "aligned", "gathered", "matrix", "pmatrix", "bmatrix", "array", "cases"}
PACKENV = {"align", "align*", "gather", "gather*", "multline", "multline*", "equation*", "split", "aligned", "gathered", "matrix",
           "pmatrix", "bmatrix", "cases"}
MATHONLY = set("frac sqrt sum prod int hat bar tilde left right cdot cdots tau gamma delta lambda omega Omega Psi psi chi varepsilon dv mel "
               "mathds bm equiv approx times".split())


def strip_comments(text):
    return re.sub(r"(?<!\\)%[^\n]*\n[ \t]*", "", text)


def preamble(head, what):
    packs = set()
    for m in re.finditer(r"\\usepackage(?:\[[^\]]*\])?\{([^{}]*)\}", head):
        packs |= {p.strip() for p in m.group(1).split(",")}
    defs = set(re.findall(r"\\(?:newcommand|renewcommand|providecommand|NewDocumentCommand|DeclareMathOperator|def|DeclareRobustCommand)"
                          r"\*?\s*\{?\\([A-Za-z]+)", head))
    if not re.match(r"\s*\\documentclass(?:\[[^\]]*\])?\{[a-z]+\}", head):
        raise Violation(f"{what}: does not start with a document class")
    if len(re.findall(r"\\documentclass", head)) != 1:
        raise Violation(f"{what}: several document classes")
    balance(head, what + ", preamble")
    return packs, defs


def group(text, at):
    """the contents of the brace group that starts at or after `at`, and where it ends"""
    at = text.index("{", at)
    depth, i = 0, at
    while i < len(text):
        if text[i] == "\\":
            i += 2
            continue
        depth += {"{": 1, "}": -1}.get(text[i], 0)
        i += 1
        if depth == 0:
            return text[at + 1:i - 1], i
    return text[at + 1:], len(text)


def symbols(head, body, what):
    """the commands the preamble defines for the equations: one definition each, each prints its argument once, different ones print
    different signs, \\bx prints an x, \\up a creation and \\down an annihilation operator"""
    defs = {}
    for m in re.finditer(r"\\(newcommand|NewDocumentCommand)\s*\{?\\([A-Za-z]+)\}?(\[\d\]|\{(?:[^{}]|\{[^{}]*\})*\}(?=\s*\{))?", head):
        name = m.group(2)
        if name in defs:
            raise Violation(f"{what}: \\{name} is defined twice")
        text, _ = group(head, m.end())
        defs[name] = (bool(m.group(3)), re.sub(r"\s+", "", text))
    used = {n for n in defs if re.search(r"\\" + n + r"(?![A-Za-z])", body)}
    seen = {}
    for n in sorted(used):
        takes, text = defs[n]
        if text.count("#1") != (1 if takes else 0):
            raise Violation(f"{what}: \\{n} prints its argument {text.count('#1')} times: {text}")
        if text in seen:
            raise Violation(f"{what}: \\{n} and \\{seen[text]} print the same: {text}")
        seen[text] = n
        letters = re.sub(r"\\[A-Za-z]+", " ", text)
        if re.fullmatch(r"b[A-Za-z]", n) and n[1] not in letters:
            raise Violation(f"{what}: \\{n} prints {text}")
        if n in ("up", "down") and ("dagger" in text) != (n == "up"):
            raise Violation(f"{what}: \\{n} prints {text}")
    return len(used)


def balance(text, what):
    depth = 0
    for m in re.finditer(r"\\.|[{}]", text, re.S):
        depth += {"{": 1, "}": -1}.get(m.group(0), 0)
        if depth < 0:
            raise Violation(f"{what}: closing brace without an opening one")
    if depth:
        raise Violation(f"{what}: {depth} unclosed brace(s)")


def document(text, what):
    """raise Violation unless `text` is one complete, structurally sound document; returns counts"""
    text = strip_comments(text)
    parts = text.split(r"\begin{document}")
    if len(parts) != 2:
        raise Violation(f"{what}: {len(parts) - 1} \\begin{{document}}")
    packs, defs = preamble(parts[0], what)
    body, sep, rest = parts[1].partition(r"\end{document}")
    if not sep or rest.strip():
        raise Violation(f"{what}: text after, or no, \\end{{document}}")
    counts = scan(body, packs, defs, what)
    counts["symbols"] = symbols(parts[0], body, what)
    return counts


def scan(body, packs, defs, what):
    stack = []           # ("{",), ("env", name), ("$",), ("left",)
    math = 0             # > 0 inside math
    counts = {"groups": 0, "environments": 0, "delimiter pairs": 0, "commands": 0}
    row = {}             # alignment depth -> number of & in the current row
    script = [set()]     # per group level: which of ^ _ the last atom already carries
    last_script = None   # script just opened at this level, awaiting its argument
    pos = 0

    def bad(msg):
        lo = max(0, pos - 60)
        raise Violation(f"{what}: {msg} at ...{body[lo:pos + 30]!r}")

    def atom():
        """a new atom starts at this level"""
        nonlocal last_script
        if last_script is not None:
            last_script = None            # the script's argument
        else:
            script[-1].clear()

    def innermost_alignment():
        for i in range(len(stack) - 1, -1, -1):
            if stack[i][0] == "env" and (stack[i][1].startswith("align") or stack[i][1] in INNER or stack[i][1] == "array"):
                return i
            if stack[i][0] in ("{", "left"):
                return -1 - i
        return None

    it = iter(TOKEN.finditer(body))
    for m in it:
        tok, pos = m.group(0), m.start()
        if tok == "{":
            stack.append(("{", last_script))
            if last_script is None:
                script[-1].clear()
            script.append(set())
            last_script = None
            counts["groups"] += 1
        elif tok == "}":
            if not stack or stack[-1][0] != "{":
                bad(f"closing brace does not match {stack[-1] if stack else 'anything'}")
            if last_script is not None:
                bad("script without an argument")
            stack.pop()
            script.pop()
        elif tok == "$":
            if stack and stack[-1][0] == "$":
                stack.pop()
                math -= 1
            else:
                if math:
                    bad("$ inside math")
                stack.append(("$",))
                math += 1
            script[-1].clear()
        elif tok in "^_":
            if not math:
                bad("script outside math")
            if last_script is not None:
                bad("script without an argument")
            if tok in script[-1]:
                bad(f"double {tok}")
            script[-1].add(tok)
            last_script = tok
        elif tok == "&":
            i = innermost_alignment()
            if i is None or i < 0:
                bad("& outside an alignment")
            row[i] = row.get(i, 0) + 1
            if stack[i][1] == "split" and row[i] > 1:
                bad("more than one & in a row of split")
            script[-1].clear()
        elif re.fullmatch(r"\n[ \t]*\n", tok):
            if math:
                bad("blank line inside math")
        elif tok.startswith("\\"):
            if tok == "\\\\":
                i = innermost_alignment()
                if math and i is not None and i < 0 and stack[-1 - i][0] == "left":
                    bad("line break between \\left and \\right")
                if i is not None and i >= 0:
                    row[i] = 0
                script[-1].clear()
                last_script = None
                continue
            name = tok[1:].rstrip("*")
            if not name.isalpha():
                if name not in tuple(" ,;:!/{}|()[]&%#_$-'\"\n"):
                    bad(f"unknown command {tok}")
                if name != " ":
                    atom()
                continue
            counts["commands"] += 1
            if name in ("begin", "end"):
                g = re.compile(r"\{([A-Za-z]+\*?)\}").match(body, m.end())
                if not g:
                    bad(f"\\{name} without an environment name")
                env = g.group(1)
                for _ in range(3):        # the name's { name } tokens
                    n = next(it)
                if n.end() != g.end():
                    bad("malformed environment name")
                if name == "begin":
                    if env in PACKENV and "amsmath" not in packs:
                        bad(f"environment {env} without amsmath")
                    if env in MATHENV:
                        if math:
                            bad(f"{env} inside math")
                        math += 1
                    elif env in INNER:
                        if not math:
                            bad(f"{env} outside math")
                    elif env not in ("center", "itemize", "enumerate", "document", "figure", "table", "abstract"):
                        bad(f"unknown environment {env}")
                    stack.append(("env", env))
                    script.append(set())
                    row[len(stack) - 1] = 0
                    counts["environments"] += 1
                else:
                    if not stack or stack[-1] != ("env", env):
                        bad(f"\\end{{{env}}} closes {stack[-1] if stack else 'nothing'}")
                    stack.pop()
                    script.pop()
                    script[-1].clear()
                    if env in MATHENV:
                        math -= 1
                last_script = None
                continue
            if name in defs:
                pass
            elif name in NEEDS_PACKAGE and name not in ("text", "binom", "operatorname", "color"):
                if not NEEDS_PACKAGE[name] & packs:
                    bad(f"\\{name} needs one of {sorted(NEEDS_PACKAGE[name])}")
            elif name not in KERNEL:
                bad(f"undefined command \\{name}")
            if name in MATHONLY and not math and name not in defs:
                bad(f"\\{name} outside math")
            if name == "left":
                script[-1].clear()
                stack.append(("left",))
                script.append(set())
                last_script = None
                counts["delimiter pairs"] += 1
                delimiter(body, m.end(), bad)
                continue
            if name == "right":
                if not stack or stack[-1][0] != "left":
                    bad(f"\\right closes {stack[-1] if stack else 'nothing'}")
                stack.pop()
                script.pop()
                script[-1].clear()
                delimiter(body, m.end(), bad)
                continue
            if name in ("dv", "frac", "mel"):
                arguments(body, m.end(), {"dv": 1, "frac": 2, "mel": 1}[name], bad)
            if last_script is not None and name in ("frac", "dv", "hat", "bar", "blue", "red", "magenta", "bt", "bh", "bz", "bs", "textbf"):
                bad(f"unbraced script \\{name}")
            atom()
        else:
            s = tok.strip()
            if s:
                if last_script is not None:
                    last_script = None
                    if len(s) > 1:
                        script[-1].clear()
                else:
                    script[-1].clear()
    if stack:
        pos = len(body)
        bad(f"{stack[-1]} never closed")
    return counts


def delimiter(body, at, bad):
    m = re.compile(r"\s*(?:[()\[\]|./<>]|\\[{}|]|\\(?:langle|rangle|lvert|rvert|vert|Vert|lbrace|rbrace))").match(body, at)
    if not m:
        bad("\\left or \\right without a delimiter")


def arguments(body, at, n, bad):
    for _ in range(n):
        m = re.compile(r"\s*").match(body, at)
        at = m.end()
        if at >= len(body) or body[at] != "{":
            bad("command lacks a braced argument")
        depth = 0
        while at < len(body):
            if body[at] == "\\":
                at += 2
                continue
            depth += {"{": 1, "}": -1}.get(body[at], 0)
            at += 1
            if depth == 0:
                break
