"""C14: lexical soundness, judged by a small LaTeX lexer; no reference model."""
import re

import literals
import present
import ref
from explore import Skip
from gen import (LOOKS, ALL_FRAMES, EA, FEW, FRAMES, KIND_FRAMES, NODES, OPERANDS, E, Space, T, X, Y, Z, doc, grow, mi, mn, mo, mrow, mtext, names, table, tree, PLUS, TWO)
from space import describe
from term import xml

RULE = ("every path of each space converts one document; a LaTeX lexer walks the result: braces, \\begin/\\end and \\left/\\right nest, every command name "
        "is known, and no special character is raw")
ASSUMPTIONS = ["the commands the library defines are those of spec/symbols.json and of the element templates", "formulas with a wrong number of children are C13's",
               "tokens of several characters that hold LaTeX specials are passed through by design and left out; so are delimiters and separators that are letters"]
COMMANDS = {m for k in ref.SYMBOLS for v in ref.SYMBOLS[k].values() for m in re.findall(r"\\([a-zA-Z]+)", v)} | set(
    "frac sqrt left right begin end overset underset hat bar underbrace overbrace text textbf textit mathbb mathtt mathfrak mathbf mathit mathcal mathsf color "
    "overline underline boxed cancel bcancel cancelto hcancel angle Longrightarrow textasciicircum backslash".split())
CONTROL = set("\\{}_#$%&|\"()[] ,;!:")
ENVS = {"matrix", "pmatrix", "bmatrix", "Bmatrix", "vmatrix", "Vmatrix"}
TOKEN = re.compile(r"\\[a-zA-Z]+|\\.|.", re.S)


def lex(s, lr, amp, tilde=False):
    """None, or what is wrong.  lr: check \\left against \\right; amp: & may stand for a column."""
    stack = []
    toks = TOKEN.findall(s)
    i = 0
    while i < len(toks):
        t = toks[i]
        i += 1
        if t == "{":
            stack.append("{")
        elif t == "}":
            if not stack or stack.pop() != "{":
                return "unbalanced }"
        elif t in ("\\begin", "\\end"):
            m = re.match(r"\{([A-Za-z]+)\}", "".join(toks[i:i + 12]))
            if not m or m.group(1) not in ENVS:
                return f"{t} without an environment"
            i += len(m.group(0))
            if t == "\\begin":
                stack.append("begin " + m.group(1))
            elif not stack or stack.pop() != "begin " + m.group(1):
                return f"\\end{m.group(0)} does not close its \\begin"
        elif t in ("\\left", "\\right") and lr:
            if i == len(toks) or toks[i] in ("{", "}", "&", " ", "^", "_", "\\begin", "\\end", "\\left", "\\right"):
                return f"{t} without a delimiter"
            i += 1
            if t == "\\left":
                stack.append("left")
            elif not stack or stack.pop() != "left":
                return "\\right without \\left"
        elif len(t) > 1 and t[1].isalpha():
            if t[1:] not in COMMANDS:
                return f"unknown command {t}"
            if i < len(toks) and toks[i].isalpha():
                return f"{t} is glued to {toks[i]!r}"
        elif len(t) > 1:
            if t[1] not in CONTROL:
                return f"unknown control symbol {t}"
        elif t == "\\":
            return "a backslash at the end"
        elif t in "#$%" or (t == "~" and not tilde):
            return f"raw {t}"
        elif t == "&" and not amp:
            return "raw &"
        elif t in "^_" and not (i < len(toks) and toks[i] == "{"):
            return f"raw {t}"
    return f"not closed: {stack}" if stack else None


def judge(c, out):
    if out[0] != "ok":
        return f"{describe(out)}, expected the LaTeX of a valid formula"
    m = lex(out[1], c["lr"], c["amp"])
    return m and f"{m}: {describe(out)}"


def one_sided(t):
    """Elements whose \\left or \\right stands alone or without a delimiter (see known_findings.json)."""
    name, attrs, _, kids = t
    at = dict(attrs)
    if name == "menclose" and at.get("notation") in ("left", "right", "madruwb"):
        return True
    if name == "mfenced" and bool(at.get("open")) != bool(at.get("close")) and ref.has(t, "mtable"):
        return True
    return any(map(one_sided, kids))


def build(*ts):
    return {"doc": doc(*ts), "lr": not any(map(one_sided, ts)), "amp": any(n == "mtr" for t in ts for n in names(t))}


def space(name, driver, rule):
    return Space(name, driver, rule, judge=judge)


def loud(kind):
    """Tokens whose LaTeX is a command, a script or an escape."""
    return [T(kind, x) for x, v in sorted(ref.SYMBOLS[kind].items())
            if "\\" in v or "^" in v or "_" in v]


def one_per_command(kind):
    seen, res = set(), []
    for t in loud(kind):
        v = ref.SYMBOLS[kind][t[2]]
        end = re.search(r"\\[a-zA-Z]+$", v)
        key = (end.group(0) if end else v[:1] + v[-1:], bool(end))
        if key not in seen:
            seen.add(key)
            res.append(t)
    return res


LOUD = [mi("α"), mo("∑"), mi("%"), mi("_"), mi("²"), mi("𝐀"), mi("~"), mtext("a&"), mo("→"), mi("{"), mi("A", mathvariant="bold")]
ALPHA = [mi("α"), mi("x"), mtext("a"), mi("")]
SPECIAL = list("#$%&_{}^~\\")


def neighbours(tier):
    """A command token next to a letter in every place."""
    cmds = one_per_command("mi") + one_per_command("mo") + one_per_command("mn")
    if tier == "quick":
        cmds = cmds[::2]
    sets = [("mrow", ()), ("mfenced", ()), ("mfenced", (("open", "|"), ("close", "|"), ("separators", ";"))), ("mfenced", (("separators", " "),)), ("mfenced", (("separators", " ;"), ("open", " "))), ("msqrt", ()), ("mfrac", ()),
            ("mfrac", (("bevelled", "true"),)), ("msup", ()), ("msub", ()), ("mover", ()), ("munder", ()), ("mroot", ()), ("maction", ()), ("merror", ()),
            ("menclose", ()), ("menclose", (("notation", "phasorangle"),)), ("menclose", (("notation", "left"),)), ("menclose", (("notation", "right"),)),
            ("menclose", (("notation", "actuarial"),)), ("mtr", ()), ("mtable", ()), ("mtd", ()), ("mstyle", ()), ("foo", ()), ("math", ())]

    def driver(c):
        name, attrs = c.pick(sets)
        a = c.pick(cmds)
        b = c.pick([X, a, mn("1"), mtext("z"), mi("α")])
        ks = (a, b) if c.flag() else (b, a)
        t = EA(name, attrs, *ks)
        return build(t)
    return space("neighbours", driver, f"{len(cmds)} command tokens beside letters, digits, text and commands in {len(sets)} elements")


def scripts_of_commands(tier):
    cmds = one_per_command("mi") + one_per_command("mo")
    cmds = cmds[::3] if tier == "quick" else cmds

    def driver(c):
        a, b = c.pick(cmds), c.pick([X, mi("α"), mtext("z"), mrow(X, mi("α"))])
        t = c.pick([lambda: E("msubsup", a, b, b), lambda: E("munderover", a, b, a), lambda: E("mmultiscripts", a, b, b, E("mprescripts"), a, b),
                    lambda: E("mmultiscripts", X, a, b, b, a), lambda: E("mover", b, a), lambda: E("munder", a, b),
                    lambda: E("maction", a, b, actiontype="tooltip"), lambda: mrow(E("msup", X, a), b),
                    lambda: mrow(E("mphantom", b), a, E("mphantom", b), b), lambda: E("mfenced", a, b, a, separators=",;"),
                    lambda: E("mfenced", table([a, b]), b), lambda: E("mfenced", table([a]), open="(", close="]"), lambda: mrow(a, table([table([b])]), b)])()
        return build(t)
    return space("scripts", driver, f"{len(cmds)} command tokens in scripts, fences, tables, hidden neighbours")


def specials():
    """Every special character as identifier and in text, in every place without a table."""
    frames = [f for f in FRAMES if not any(n in ("mtr", "mtable") for n in names(f(X)))]
    around = ["%s", "a%s", "%sa", "a %s b", "%s%s", "%sα", "α%s", "1%s", "é%s", "%s.", "\u00a0%s", "a%s1%sb"]
    variants = [None, "bold", "italic", "bold-italic", "monospace", "script", "double-struck", "fraktur"]

    def driver(c):
        ch = c.pick(SPECIAL)
        v = c.pick(variants)
        a = () if v is None else (("mathvariant", v),)
        w = c.choose(len(around) + 1)
        t = ("mi", a, ch, ()) if w == 0 else ("mtext", a, around[w - 1].replace("%s", ch), ())
        f = c.choose(len(frames) + 1)
        if f:
            t = frames[f - 1](t)
        return build(t)
    return space("specials", driver, f"{len(SPECIAL)} special characters as identifier and in {len(around)} texts x {len(variants)} variants in {len(frames)} slots")


def texts(n, alphabet):
    def driver(c):
        k = 1 + c.choose(n)
        return build(mtext("".join(c.pick(alphabet) for _ in range(k))))
    return space("texts", driver, f"every text of 1..{n} characters over {alphabet}")


def unicode_text(tier):
    from checks.c09 import valid
    ranges = [(0x21, 0x3100), (0x1D400, 0x1D800)] if tier == "quick" else [(0x21, 0x20000)]
    cps = [cp for a, b in ranges for cp in range(a, b) if valid(cp)]

    def driver(c):
        ch = chr(c.pick(cps))
        return build(mtext(f"a{ch}b{ch}"), mi(ch), mi(ch, mathvariant="bold"), X)
    return space("unicode", driver, f"{len(cps)} characters in text between letters and as identifier")


def operators():
    """Every operator of the dictionary between letters."""
    toks = loud("mo")

    def driver(c):
        a = c.pick(toks)
        t = c.pick([lambda: mrow(X, a, Y), lambda: E("mfenced", a, X), lambda: E("msup", a, X), lambda: E("mfrac", mrow(X, a), a, bevelled="true")])()
        return build(t)
    return space("operators", driver, f"{len(toks)} operators of the dictionary between letters")


def empties(depth):
    """Elements without children, without text, or with hidden ones only, in every slot."""
    subs = [EA(n, a) for n, a, lo, _ in NODES if lo == 0] + [E("menclose", notation=n) for n in sorted(ref.ENCLOSE)] + [
        T("mi", ""), T("mo", ""), T("mn", ""), T("mtext", ""), T("mi", "", mathvariant="bold"), T("mtext", "", mathvariant="bold"), E("mspace"), E("none"), E("mprescripts"),
        E("mfenced", open="[", close="]"), E("mfenced", mi(""), mi("")), E("mfenced", E("mtable"), open="(", close=")"), E("mtable", E("mtr")), E("mtable", E("mtr", E("mtd")))]
    blank = [E("mfrac", mi(""), mi("")), E("mfrac", mi(""), mi(""), bevelled="true"), E("mroot", mi(""), mi("")), E("msup", mi(""), mi("")), E("msub", mi(""), mi("")), E("msubsup", mi(""), mi(""), mi("")),
             E("mover", mi(""), mi("")), E("munder", mi(""), mi("")), E("munderover", mi(""), mi(""), mi("")), E("mmultiscripts", mi(""), mi(""), mi("")), E("mmultiscripts", mi(""), E("none"), E("none"), E("mprescripts"), E("none"))]

    frames = [f for f in ALL_FRAMES if "{" not in dict(f(X)[1]).values()]

    def driver(c):
        t = c.pick(subs + blank)
        w = c.choose(3)
        t = t if w == 0 else mrow(mi("α"), t, X) if w == 1 else E("mstyle", t, t)
        for _ in range(c.choose(depth + 1)):
            t = c.pick(frames)(t)
        return build(t)
    return space("empties", driver, f"{len(subs) + len(blank)} elements without content in every chain of up to {depth} of {len(frames)} slots")


def delimiters():
    ds = ["", "(", ")", "[", "]", "|", "||", "<", ">", "⟨", "⟩", "⌊", "⌉", "/", ".", "‖"]

    def driver(c):
        o, k = c.pick(ds), c.pick(ds)
        inner = c.pick([X, mi("α"), table([X, mi("α")]), mrow(mi("α"), E("mfenced", X)), E("mfrac", mi("α"), E("mfenced", mi("α"), open="[", close=")"))])
        seps = c.pick([(), (("separators", ";|,"),), (("separators", ""),)])
        t = EA("mfenced", (("open", o), ("close", k)) + seps, inner, mi("α"))
        t = c.pick([lambda t: t, lambda t: E("mfenced", t, t), lambda t: table([t, t]), lambda t: E("msup", t, t), lambda t: E("menclose", t, notation="actuarial"),
                    lambda t: E("menclose", t)])(t)
        return build(t)
    return space("delimiters", driver, f"every pair of {len(ds)} delimiters around 5 contents, in 6 places")


def contexts(depth, subs):
    def driver(c):
        t = c.pick(subs)
        for _ in range(c.choose(depth + 1)):
            t = c.pick(FRAMES)(t)
        return build(t)
    return space(f"contexts{depth}", driver, f"{len(subs)} elements in every chain of up to {depth} of {len(FRAMES)} slots")


def trees(n, leaves):
    def driver(c):
        return build(tree(c, 2 + c.choose(n - 1), NODES, leaves))
    return space(f"trees{n}", driver, f"every tree of 2..{n} nodes over {len(NODES)} element shapes and {len(leaves)} leaves")


def documents():
    parts = [mi("α"), X, mtext("a&"), mi("%"), E("mfrac", X, mi("α")), table([X, mi("α")]), mo("→"), mn("1"), mtext("z")]

    def driver(c):
        n = 1 + c.choose(3)
        ts = [c.pick(parts) for _ in range(n)]
        return {"doc": "<r>" + "".join(doc(t) for t in ts) + "</r>", "lr": True, "amp": any("mtr" in list(names(t)) for t in ts)}
    return space("documents", driver, "up to three formulas side by side")


def deep(depths):
    def driver(c):
        f, g = c.pick(KIND_FRAMES), c.pick(KIND_FRAMES)
        t = c.pick([mi("α"), mtext("a%")])
        return build(grow(t, [(f if i % 2 else g) for i in range(c.pick(depths))]))
    return space("deep", driver, f"pairs of containers nested to {depths}")


def pinned():
    """What the library's own tests fix although it is not sound LaTeX: each one a listed finding."""
    docs = [doc(E("mfenced", table([X]), open="|", close="")), doc(E("mfenced", table([X]), open="", close="|")),
            doc(E("menclose", X, notation="left")), doc(E("menclose", X, notation="right")), doc(E("menclose", X, notation="madruwb")),
            doc(E("mfenced", X, open="{", close="}"))]

    def driver(c):
        return {"doc": c.pick(docs), "lr": True, "amp": False}
    return space("pinned", driver, f"{len(docs)} formulas whose unsound LaTeX the library's own tests require")


def sound(t):
    """Without tokens of several characters that hold LaTeX specials, and braces as operators."""
    name, attrs, text, kids = t
    if name in ("mi", "mo", "mn") and len(ref.norm(text)) > 1 and ref.norm(text) not in ref.SYMBOLS[name] and any(ch in "\\#$%&_{}^~" for ch in text):
        return False
    return (name != "mo" and name != "mn" or ref.norm(text) not in SPECIAL) and not any(v in ("{", "}") for _, v in attrs) and all(map(sound, kids))


def looks(depth):
    """Elements whose LaTeX could pass for something else, in every slot, beside a command and a letter."""
    subs = [t for t in LOOKS if sound(t)]

    def driver(c):
        t = c.pick(subs)
        f = c.choose(4)
        t = [lambda: t, lambda: mrow(mi("α"), t), lambda: mrow(t, X), lambda: E("mfenced", mi("α"), t, X)][f]()
        for _ in range(1 + c.choose(depth)):
            t = c.pick(ALL_FRAMES)(t)
        if not sound(t):
            raise Skip()
        return build(t)
    return space("looks", driver, f"{len(subs)} elements whose LaTeX could pass for something else, beside commands and letters, in every slot")


def sourced():
    """Texts the source mentions, as identifiers and in text, beside letters."""
    def driver(c):
        x = c.pick(literals.texts())
        k = c.pick(["mi", "mo", "mn", "mtext"])
        t = T(k, x)
        if not sound(t):
            raise Skip()
        t = c.pick([lambda: mrow(X, t, Y), lambda: mtext("a" + x + "b") if k == "mtext" else mrow(mi("α"), t, t), lambda: E("mfenced", t, X, separators=" "),
                    lambda: E("mover", X, t), lambda: E("msup", t, t), lambda: table([t, X]), lambda: E("menclose", t), lambda: E("msqrt", t, X), lambda: E("mmultiscripts", t, t, t)])()
        return build(t)
    return space("source", driver, "texts the source mentions in nine places")


def attributes(ops):
    def driver(c):
        t = c.pick(ops)
        a = c.pick(present.PAIRS + [(w, v) for w in literals.words() for v in ("true", "0")])
        n, at, x, kids = t
        if n == "mfenced" and a[0] in ("open", "close", "separators") or a[0] in dict(at) or (n, a[0]) == ("menclose", "notation"):
            raise Skip()
        return build((n, at + (a,), x, kids))
    return space("attributes", driver, f"{len(ops)} elements with each of {len(present.PAIRS)} presentation attributes and those the source mentions")


def wide(widths):
    shapes = [s for s in NODES if s[3] > 3]

    def driver(c):
        n, at, lo, _ = c.pick(shapes)
        k = c.pick(widths)
        if k < lo:
            raise Skip()
        return build(EA(n, at, *[c.pick([mi("α"), mtext("a&"), X, E("mfenced", X), E("msup", X, mi("α"))])] * k))
    return space("wide", driver, f"{len(shapes)} elements with {len(widths)} numbers of children up to {max(widths)}")


def spaces(tier):
    q = tier == "quick"
    more = [looks(1 if q else 2), sourced(), attributes(LOUD + [t for t in OPERANDS if sound(t)]), wide([1, 7, 8, 9, 10, 11, 16, 17, 31, 32, 33, 64, 65, 100, 101, 128, 129, 200, 256, 257, 300, 512, 1000])]
    return more + [pinned(), neighbours(tier), scripts_of_commands(tier), specials(), texts(5, ["a", "α", "&", "1", " ", "Å"]) if q else texts(6, ["a", "α", "&", "1", " ", "Å", "{", "^"]),
            unicode_text(tier), operators(), empties(1 if q else 2), delimiters(), documents(), deep([2, 7, 30] if q else [2, 3, 5, 9, 17, 40, 90]),
            contexts(1, LOUD + OPERANDS) if q else contexts(2, LOUD + OPERANDS), contexts(2, [mi("α"), E("mfenced", mi("α"), X)]),
            trees(4, ALPHA) if q else trees(5, ALPHA)]
