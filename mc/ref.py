"""Reference model: what the LaTeX of an element tree has to be (see properties.jsonl)."""
import json
import os

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
with open(os.path.join(SPEC, "symbols.json"), encoding="utf-8") as f:
    SYMBOLS = json.load(f)  # kind -> {text: latex}


class Arity(Exception):
    def __init__(self, name, need, got):
        super().__init__(name, need, got)
        self.name, self.need, self.got = name, need, got


FONTS = {  # mathvariant -> font commands, outermost first
    "bold": ["mathbf"], "italic": ["mathit"], "bold-italic": ["mathbf", "mathit"],
    "double-struck": ["mathbb"], "bold-fraktur": ["mathbf", "mathfrak"],
    "script": ["mathcal"], "bold-script": ["mathbf", "mathcal"], "fraktur": ["mathfrak"],
    "sans-serif": ["mathsf"], "bold-sans-serif": ["mathbf", "mathsf"],
    "sans-serif-italic": ["mathsf", "mathit"],
    "sans-serif-bold-italic": ["mathbf", "mathsf", "mathit"], "monospace": ["mathtt"],
}
TEXT_FONTS = {
    "bold": ["textbf"], "italic": ["textit"], "bold-italic": ["textbf", "textit"],
    "double-struck": ["mathbb"], "monospace": ["mathtt"],
    "fraktur": ["mathfrak"], "bold-fraktur": ["mathfrak"],
}
ACCENTS = ("\\hat", "\\bar", "\\underbrace", "\\overbrace")
ENCLOSE = {
    "actuarial": "\\overline{\\left.%s\\right|}", "radical": "\\sqrt{%s}",
    "box": "\\boxed{%s}", "roundedbox": "\\boxed{%s}", "circle": "\\boxed{%s}",
    "left": "\\left|%s", "right": "%s\\right|", "top": "\\overline{%s}",
    "bottom": "\\underline{%s}", "updiagonalstrike": "\\cancel{%s}",
    "downdiagonalstrike": "\\bcancel{%s}", "updiagonalarrow": "\\cancelto{}{%s}",
    "verticalstrike": "\\hcancel{%s}", "horizontalstrike": "\\hcancel{%s}",
    "madruwb": "\\underline{%s\\right|}", "phasorangle": "{\\angle \\underline{%s}}",
}
LONGDIV = "\\overline{\\left.\\right)%s}"
MATRICES = {("(", ")"): "pmatrix", ("[", "]"): "bmatrix", ("{", "}"): "Bmatrix",
            ("|", "|"): "vmatrix", ("||", "||"): "Vmatrix"}


def norm(s):
    return " ".join(s.split())


def wrap(cmds, s):
    for c in reversed(cmds):
        s = "\\%s{%s}" % (c, s)
    return s


def symbol(kind, text):
    text = norm(text)
    return SYMBOLS[kind].get(text, text)


def text_latex(s, variant):
    out, run = [], ""
    fonts = TEXT_FONTS.get(variant, ["text"])
    for ch in s.strip() + "\0":
        if ch.isspace():
            run += " "
        elif ch != "\0" and ch.isascii() and ch.isalnum():
            run += ch
        else:
            if run:
                out.append(wrap(fonts, run))
                run = ""
            if ch != "\0":
                out.append(symbol("mi", ch))
    res = ""
    for p in out:
        if p and p[0].isalpha() and ends_in_command(res):
            res += " "
        res += p
    return res


def ends_in_command(s):
    i = len(s)
    while i and s[i - 1].isascii() and s[i - 1].isalpha():
        i -= 1
    return i < len(s) and i > 0 and s[i - 1] == "\\"


def has(t, name):
    return any(k[0] == name or has(k, name) for k in t[3])


def need(t, n, least=False):
    if len(t[3]) < n or (len(t[3]) != n and not least):
        raise Arity(t[0], n, len(t[3]))


def grouped(base, s):
    return "\\left(" + s + "\\right)" if len(base[3]) > 1 and len(s) > 1 else s


def long(s):
    return "\\left(" + s + "\\right)" if len(s) > 1 else s


def raw(t, in_table=False):
    name, attrs, text, kids = t
    at = {k: ("" if k == v else v) for k, v in attrs}

    def sub(k):
        return raw(k, in_table)

    def joined(sep=" "):
        return sep.join([sub(k) for k in kids])

    if name == "mi":
        return wrap(FONTS.get(at.get("mathvariant"), []), symbol("mi", text))
    if name in ("mo", "mn"):
        return symbol(name, text)
    if name == "mtext":
        return text_latex(text, at.get("mathvariant"))
    if name == "mphantom":
        return ""
    if name == "math":
        return norm(joined())
    if name == "msqrt":
        return "\\sqrt{%s}" % joined()
    if name == "merror":
        return "\\color{red}{%s}" % joined()
    if name == "menclose":
        return ENCLOSE.get(at.get("notation"), LONGDIV).replace("%s", joined())
    if name == "maction":
        if at.get("actiontype", "") in ("", "toggle"):
            return joined(" \\Longrightarrow ")
        return sub(kids[0]) if kids else ""
    if name in ("msup", "msub"):
        need(t, 2)
        b, s = map(sub, kids)
        return grouped(kids[0], b) + ("^" if name == "msup" else "_") + "{%s}" % s
    if name == "msubsup":
        need(t, 3)
        b, s, e = map(sub, kids)
        return grouped(kids[0], b) + "_{%s}^{%s}" % (s, e)
    if name == "munderover":
        need(t, 3)
        return "%s_{%s}^{%s}" % tuple(map(sub, kids))
    if name in ("mover", "munder"):
        need(t, 2)
        b, a = map(sub, kids)
        if a in ACCENTS:
            return "%s{%s}" % (a, b)
        return "\\%s{%s}{%s}" % ("overset" if name == "mover" else "underset", a, b)
    if name == "mfrac":
        need(t, 2)
        n, d = map(sub, kids)
        if at.get("bevelled", "") not in ("", "false"):
            return long(n) + "/" + long(d)
        return "\\frac{%s}{%s}" % (n, d)
    if name == "mroot":
        need(t, 2)
        r, i = map(sub, kids)
        return "\\sqrt[%s]{%s}" % (i, r)
    if name == "mmultiscripts":
        need(t, 3, least=True)
        cut = next((i for i, k in enumerate(kids) if k[0] == "mprescripts"), len(kids))
        b = sub(kids[0])
        if any(ch.isspace() for ch in b):
            b = "\\left(" + b + "\\right)"

        def pairs(ks):
            ls = [sub(k) for k in ks]
            ls += [""] * (len(ls) % 2)
            return ["_{%s}^{%s}" % (ls[i], ls[i + 1]) for i in range(0, len(ls), 2)]

        pre = "".join("\\" + p for p in pairs(kids[cut + 1:]))
        return pre + b + "{}".join(pairs(kids[1:cut]))
    if name == "mfenced":
        o, c = at.get("open", "").strip(), at.get("close", "").strip()
        if has(t, "mtable"):
            env = MATRICES.get((o, c)) or ("bmatrix" if o == c else "matrix")
            body = "\\begin{%s} %s \\end{%s}" % (env, joined(), env)
            return "\\left" + o + body + "\\right" + c if env == "matrix" else body
        seps = at.get("separators", "") or ","
        ls = [sub(k) for k in kids]
        s = "".join(x + seps[min(i, len(seps) - 1)] for i, x in enumerate(ls[:-1]))
        return "\\left" + (o or "(") + s + "".join(ls[-1:]) + "\\right" + (c or ")")
    if name == "mtable":
        s = " \\\\ ".join([raw(k, True) for k in kids])
        return "\\begin{matrix}%s\\end{matrix}" % s if in_table else s
    if name == "mtr":
        return joined(" & ")
    return joined()


def latex(*ts):
    """The LaTeX of <math> with these children."""
    return norm(" ".join([raw(t) for t in ts]))


def outcome(*ts):
    try:
        return ("ok", latex(*ts))
    except Arity as e:
        return ("arity", e.name, e.need, e.got)
