"""C01: every shown leaf once, in place, nothing else.  No reference model: marker leaves."""
import re

import literals
import present
from explore import Skip
from gen import *  # noqa: F403
from gen import ALL_FRAMES, ATTRS, HOSTS2, EA, FRAMES, KIND_FRAMES, NODES, E, grow, Space, T, doc, mi, mn, mtext, table, tree
from space import describe

RULE = ("every path of each space builds one formula whose leaves carry unique markers; the markers in the "
        "LaTeX must be the shown ones, once each, in the stated order, and nothing but commands and "
        "punctuation may be left")
ASSUMPTIONS = ["leaves are told apart by marker texts that the dictionaries do not contain, so conversions of "
               "particular symbols are C09's business"]

MARK = re.compile(r"[int]\d+z")


def mark(t, counter, mode=""):
    """t with every token replaced by a marked one; the tokens keep their element names.
    Modes: "" distinct marks, "all" one mark for all, "two" two marks in turn, "kin" one mark whatever
    the element, with a font on every other token, "head" and "tail" long ones that differ in the beginning or at the end."""
    name, attrs, text, kids = t
    if not kids and name in ("mi", "mn", "mtext", "mo"):
        if name == "mi" and text == "":
            return t
        i = counter[0]
        counter[0] += 1
        k = {"mi": "i", "mn": "n", "mtext": "t", "mo": "i"}[name]
        if mode == "kin":
            return ("mi" if name == "mo" else name, (("mathvariant", ("bold", "monospace", "script")[i // 2 % 3]),) if i % 2 and name != "mn" else attrs, "i0z", ())
        if mode in ("head", "tail"):
            return (("mi" if name == "mo" else name), attrs, f"{k}{i}{10 ** 40}z" if mode == "head" else f"{k}{10 ** 40}{i}z", ())
        i = i if not mode else 0 if mode == "all" else i % 2
        return (("mi" if name == "mo" else name), attrs, f"{k}{i}z", ())
    return (name, attrs, text, tuple(mark(k, counter, mode) for k in kids))


def shown(t):
    name, attrs, text, kids = t
    if name in ("mi", "mn", "mtext"):
        return [text] if text else []
    if name == "mphantom":
        return []
    parts = [shown(k) for k in kids]
    if name == "maction" and dict(attrs).get("actiontype", "") not in ("", "toggle", "actiontype"):
        parts = parts[:1]
    elif name in ("mroot", "mover", "munder"):
        parts.reverse()
    elif name == "mmultiscripts":
        cut = next((i for i, k in enumerate(kids) if k[0] == "mprescripts"), len(kids))
        parts = parts[cut:] + parts[:cut]
    return [m for p in parts for m in p]


JUNK = re.compile(r"\\(begin|end)\{[A-Za-z]*\}|\\color\{red\}|\\[A-Za-z]+|\\.|[{}\[\]()|_^&,;/.\s]")


def judge(case, out):
    if out[0] != "ok":
        return f"{describe(out)}, expected the LaTeX of a valid formula"
    s = out[1]
    marks = MARK.findall(s)
    if marks != case["expect"]:
        return f"{describe(out)}: shows {marks}, expected {case['expect']}"
    rest = JUNK.sub("", MARK.sub("", s))
    if rest:
        return f"{describe(out)}: {rest!r} is not in the formula"
    return None


MODES = ["all", "two", "kin", "head", "tail"]


def marked(t, mode=""):
    t = mark(t, [1], mode)
    return {"doc": doc(t), "expect": shown(t)}


LEAVES01 = [mi("i"), mn("n"), mtext("t")]


def space(name, driver, rule):
    return Space(name, driver, rule, judge=judge, nontrivial=lambda c: len(c["expect"]) > 1)


def trees(n, leaves, nodes=NODES):
    def driver(c):
        return marked(tree(c, 2 + c.choose(n - 1), nodes, leaves))
    return space(f"trees{n}", driver, f"every tree of 2..{n} nodes over {len(nodes)} shapes, {len(leaves)} leaves")


def alike(n, leaves):
    """Equal tokens: nothing may be merged, and no token taken for another."""
    def driver(c):
        return marked(tree(c, 2 + c.choose(n - 1), NODES, leaves), c.pick(MODES))
    return space("alike", driver, f"every tree of 2..{n} nodes over {len(NODES)} shapes whose tokens all are equal, equal in turn, or differ in kind or font only")


def alike_wide(top):
    many = [s for s in NODES if s[3] > 3]

    def driver(c):
        name, attrs, lo, _ = c.pick(many)
        n = lo + c.choose(top)
        kind, mode = c.choose(6), c.pick(MODES)
        kids = [[mi("i"), mn("n"), mtext("t"), E("mrow", mi("i"), mn("n")), [mi("i"), mn("n"), mtext("t")][i % 3], E("mstyle", mtext("t"))][kind] for i in range(n)]
        return marked(EA(name, attrs, *kids), mode)
    return space("alike-wide", driver, f"{len(many)} elements with up to {top} equal children of 6 kinds")


def slots2(frames):
    """The same formula in every two slots beside each other."""
    subjects = [mi("i"), E("mrow", mtext("t"), mi("i")), E("msup", mi("i"), mn("n")), E("mfenced", mi("i"), mn("n")), table([mi("i"), mtext("t")])]

    def driver(c):
        t, f, g = c.pick(subjects), c.pick(frames), c.pick(frames)
        return marked(mrow(f(t), g(t)), c.pick([""] + MODES))
    return space("slots2", driver, f"{len(subjects)} formulas in every two of {len(frames)} slots side by side, with distinct or equal tokens")


MULTI = [s for s in NODES if s[3] > 1]


def contexts(depth, frames=FRAMES):
    subjects = [mi("i"), mtext("t"), E("mrow", mi("i"), mn("n")), E("mmultiscripts", mi("i"), mi("i"), mi("i"), mi("i"),
                mi("i"), E("mprescripts"), mi("i"), mi("i")), table([mi("i"), mi("i")], [mi("i"), mi("i")]),
                E("mfenced", mi("i"), mi("i"), mi("i"))]

    def driver(c):
        t = c.pick(subjects)
        for _ in range(c.choose(depth + 1)):
            t = c.pick(frames)(t)
        return marked(t)
    return space(f"contexts{depth}", driver, f"{len(subjects)} formulas in every chain of up to {depth} of {len(frames)} slots")


def wide(top):
    many = [s for s in NODES if s[3] > 3]

    def driver(c):
        name, attrs, lo, _ = c.pick(many)
        n = lo + c.choose(top)
        kind = c.choose(4)
        kids = [[mi("i"), mn("n"), mtext("t"), E("mrow", mi("i"), mn("n"))][kind] for _ in range(n)]
        return marked(EA(name, attrs, *kids))
    return space("wide", driver, f"{len(many)} elements with up to {top} children of 4 kinds")


def very_wide(widths):
    many = [s for s in NODES if s[3] > 3] + [(n, (), 0, 9) for n in ("mpadded", "semantics", "foo", "annotation")] + [("maction", (("actiontype", "toggle"),), 0, 9)]

    def driver(c):
        name, attrs, lo, _ = c.pick(many)
        n = lo + c.pick(widths)
        kids = [[mi("i"), mn("n"), mtext("t")][i % 3] for i in range(n)] if c.flag() else [E("mrow", mi("i"))] * n
        return marked(EA(name, attrs, *kids))
    return space("very-wide", driver, f"{len(many)} elements with {len(widths)} numbers of children up to {max(widths)}")


HOLD = [mi("i"), mn("n"), mtext("t"), E("mrow", mi("i"), mn("n")), E("mfrac", mi("i"), mi("i")), E("mfrac", mi("i"), mi("i"), bevelled="true"), E("msqrt", mi("i"), mi("i")), E("mroot", mi("i"), mi("i")),
        E("msup", mi("i"), mn("n")), E("msub", mi("i"), mn("n")), E("msubsup", mi("i"), mn("n"), mi("i")), E("mover", mi("i"), mtext("t")), E("munder", mi("i"), mi("i")),
        E("munderover", mi("i"), mi("i"), mi("i")), E("mmultiscripts", mi("i"), mi("i"), mi("i"), E("mprescripts"), mi("i"), mi("i")), E("mfenced", mi("i"), mn("n"), mtext("t")),
        table([mi("i"), mi("i")], [mi("i"), mi("i")]), E("mfenced", table([mi("i"), mi("i")])), E("menclose", mi("i"), mi("i")), E("maction", mi("i"), mi("i")), E("merror", mi("i"), mi("i")),
        E("mpadded", mi("i"), mi("i")), E("mstyle", mi("i"), mi("i")), E("semantics", mi("i"), E("annotation", mi("i"))), E("foo", mi("i"), mi("i")), E("math", mi("i"), mi("i"))]


def attributes():
    """Attributes on any element hide nothing and show nothing."""
    def put(t, who, a):
        n, at, x, kids = t
        new = (a,) if who in (n, "*") and a[0] not in dict(at) and not (n == "maction" and a[0] == "actiontype") and not (n == "mfenced" and a[0] in ("open", "close", "separators")) else ()
        return (n, at + new, x, tuple(put(k, who, a) for k in kids))

    def driver(c):
        t = c.pick(HOLD)
        who = c.pick([t[0], "*"])
        n = c.choose(3)
        a = [lambda: c.pick(present.PAIRS), lambda: (c.pick(literals.words()), c.pick(["true", "false", "0", "hidden"])), lambda: (c.pick(ATTRS), c.pick(literals.texts()))][n]()
        return marked(mrow(put(t, who, a), mi("i")))
    return space("attributes", driver, f"{len(HOLD)} elements with each of {len(present.PAIRS)} presentation attributes and with names and values the source mentions")


def names():
    """Elements of any name the source mentions."""
    known = {"mi", "mo", "mn", "mtext", "mphantom", "msup", "msub", "msubsup", "munderover", "mfrac", "mroot", "mover", "munder", "mmultiscripts", "mprescripts"}

    def driver(c):
        g = c.pick([w for w in literals.words() if w not in known] + ["ms", "mglyph", "mspace", "none", "mscarries", "mlabeledtr", "apply", "ci", "cn", "svg", "p", "span", "a", "title", "script", "style"])
        kids = [c.pick([mi("i"), mtext("t"), E("mrow", mi("i"), mn("n"))]) for _ in range(1 + c.choose(3))]
        t = E(g, *kids)
        return marked(c.pick([lambda: t, lambda: mrow(mi("i"), t, mi("i")), lambda: E("msup", t, mi("i")), lambda: E("mfenced", t, t), lambda: table([t, t])])())
    return space("names", driver, "elements of any name the source mentions with up to three children, in five places")


def twins():
    """Two of the elements at two places of one formula."""
    def driver(c):
        a, b = c.pick(HOLD), c.pick(HOLD)
        return marked(c.pick(HOSTS2)(a, b), c.pick(["", "all"]))
    return space("twins", driver, f"every two of {len(HOLD)} elements in {len(HOSTS2)} hosts, with distinct or equal tokens")


def all_wanted():
    return {s[0] for s in NODES} - {"mphantom", "maction"}


def balance(top):
    b = balance_space(all_wanted(), top, lambda t: t)
    return space("balance", lambda c: marked(own(b.driver(c))), b.rule)


def equal():
    b = equal_space(all_wanted(), [mi("i"), mtext("t"), E("mrow", mi("i"), mn("n")), E("mrow"), table([mi("i")])], lambda t: t)
    return space("equal", lambda c: marked(own(b.driver(c)), c.pick(["", "all"])), b.rule)


def own(t):
    """The formula with tokens that can be marked."""
    n, at, x, kids = t
    if n in ("mi", "mn", "mo", "mtext"):
        return t if not x else {"mn": mn("n"), "mtext": mtext("t")}.get(n, mi("i"))
    return (n, at, x, tuple(own(k) for k in kids))


def chains3(frames):
    subjects = [mi("i"), E("mrow", mi("i"), mtext("t"))]

    def driver(c):
        fs = [c.pick(frames) for _ in range(3)]
        return marked(grow(c.pick(subjects), fs))
    return space("chains3", driver, f"{len(subjects)} formulas in every chain of three of {len(frames)} slots")


def deep_same(depths):
    def driver(c):
        f = c.pick(ALL_FRAMES)
        t = grow(c.pick([mi("i"), E("mrow", mi("i"), mtext("t")), E("msup", E("mrow", mi("i"), mi("i")), mn("n"))]), [f] * c.pick(depths))
        return marked(t if c.flag() else mrow(mi("i"), t, mn("n")))
    return space("deep-same", driver, f"the same of {len(ALL_FRAMES)} slots nested {list(depths)} times, bare and in a row")


def deep(depths):
    def driver(c):
        f, g = c.pick(FRAMES), c.pick(FRAMES)
        t = E("mrow", mi("i"), mi("i"))
        return marked(grow(t, [(f if i % 2 else g) for i in range(c.pick(depths))]))
    return space("deep", driver, f"every pair of {len(FRAMES)} slots nested alternately to depths {depths}")


def grid(r, k):
    def driver(c):
        rows, cols, nest = c.choose(r) + 1, c.choose(k) + 1, c.choose(3)
        cell = mi("i") if nest == 0 else E("mfrac", mi("i"), mi("i")) if nest == 1 else table([mi("i")])
        t = table(*[[cell] * cols for _ in range(rows)])
        if c.flag():
            t = E("mfenced", t, open="[", close="]")
        return marked(t)
    return space("grid", driver, f"tables of up to {r}x{k} cells of 3 kinds, bare and fenced")


def scripts(top):
    """every position of mprescripts in every number of scripts"""
    def driver(c):
        n = 2 + c.choose(top)
        kids = [mi("i")] + [c.pick([mi("i"), E("none")]) if n <= 8 else mi("i") for _ in range(n)]
        at = c.choose(n + 1)
        if at:
            kids[at] = E("mprescripts")
        return marked(E("mmultiscripts", *kids))
    return space("scripts", driver, f"mmultiscripts with up to {top + 1} scripts, present or none, mprescripts anywhere")


def spaces(tier):
    q = tier == "quick"
    res = [trees(4, LEAVES01), contexts(2), wide(64 if q else 300), deep([3, 9, 40] if q else [2, 5, 10, 20, 40, 80, 100]),
           grid(12, 12), scripts(16), alike(4, LEAVES01), alike_wide(24 if q else 100), slots2(KIND_FRAMES if q else ALL_FRAMES),
           contexts(1, ALL_FRAMES)]
    sizes = [k for k in literals.sizes() if k < 3000]
    res += [very_wide([0, 1, 2, 65, 66, 79, 80, 81, 98, 99, 100, 101, 126, 127, 128, 129, 130, 199, 200, 201, 254, 255, 256, 257, 260, 300, 499, 500, 501, 510, 511, 512, 513, 520, 999, 1000, 1001, 1024] + sizes),
            attributes(), names(), twins(), balance(4 if q else 5), equal(), chains3(KIND_FRAMES), deep_same([1, 2, 4, 5, 6, 7, 8, 10, 11, 12, 15, 16, 17, 20, 25, 32, 33, 50, 64, 80, 95] if q else range(1, 97))]
    if q:
        res.append(trees(5, LEAVES01[:2]))
    else:
        res += [trees(5, LEAVES01), contexts(3), trees(6, [mi("i")], [s for s in NODES if s[0] not in
                ("mpadded", "merror", "munder", "msub", "mtd", "mroot", "maction", "menclose", "msqrt", "math")])]
    return res
