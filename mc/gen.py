"""Alphabets of tokens, operands and contexts, and the drivers built from them."""
import unicodedata

import literals
import present
import ref
from explore import Skip
from space import Space, case
from term import DEEPEST, E, EA, T, doc, grow, height, mi, mn, mo, mrow, mtext, names, rise, size

X, Y, Z = mi("x"), mi("y"), mi("z")
ONE, TWO = mn("1"), mn("2")
PLUS = mo("+")

# --- operands -------------------------------------------------------------------

TOKENS = [
    X, mn("2"), mo("+"), mi("α"), mo("∑"), mtext("if a"), mi(""), mn("12"), mi("sin"),
    mi("A", mathvariant="bold"), mo("("), mtext("&"), E("mspace"), mo("~"), mo("¯"),
]
FEW_TOKENS = [X, mn("2"), mi("α"), mn("12"), mi("")]


def table(*rows):
    return E("mtable", *[E("mtr", *[E("mtd", c) for c in r]) for r in rows])


CONTAINERS = [
    mrow(), mrow(X), mrow(X, PLUS), mrow(X, PLUS, Y), mrow(mi("")), mrow(mi(""), mi("")),
    mrow(mi("α"), mi("β")), mrow(mrow(X, Y)), mrow(X, mi("")), mrow(mi(""), X),
    E("msqrt", X), E("msqrt", X, Y), E("msqrt"), E("mroot", X, mn("3")),
    E("mfrac", X, Y), E("mfrac", X, mrow(Y, Z)), E("mfrac", X, Y, bevelled="true"),
    E("mfrac", mrow(X, Y), mi("α"), bevelled="true"),
    E("msup", X, TWO), E("msub", X, TWO), E("msubsup", X, ONE, TWO), E("msup", mrow(X, Y), TWO),
    E("mover", X, Y), E("mover", X, mo("^")), E("mover", X, mo("¯")), E("munder", X, Y),
    E("munder", X, mo("⏟")), E("mover", X, mo("⏞")), E("munderover", mo("∑"), X, Y),
    E("mmultiscripts", X, ONE, TWO), E("mmultiscripts", mrow(X, Y), ONE, TWO, E("mprescripts"), Y, Z),
    E("mfenced"), E("mfenced", X), E("mfenced", X, Y), E("mfenced", X, Y, Z, separators=";|"),
    E("mfenced", X, open="[", close="]"), E("mfenced", X, Y, open="|", close="|"),
    E("mfenced", table([X, Y]), open="(", close=")"), E("mfenced", table([X]), open="(", close="]"),
    table([X]), table([X, Y], [Z, ONE]), E("mtr", E("mtd", X), E("mtd", Y)), E("mtd", X),
    E("menclose", X), E("menclose", X, Y, notation="box"), E("menclose", X, notation="circle"),
    E("maction", X, Y), E("maction", X, Y, actiontype="statusline"), E("maction", actiontype="tooltip"),
    E("merror", X), E("mphantom", X, Y), E("mpadded", X, Y), E("mstyle", X), E("mstyle", X, Y),
    E("semantics", X, E("annotation", X)), E("foo", X, Y), E("math", X, Y), E("math", X),
]
# elements whose LaTeX could pass for something else
LOOKS = [
    mn("1"), mn("0"), mn("-1"), mn("1.5"), mn("1,000"), mn("1/2"), mi("-x"), mi("{x}"), mi("{x}{y}"), mi("(x)"), mi("x_1"), mi("x^2"), mi("\\left(x\\right)"), mi("\\"),
    mi("\\sqrt{x}"), mi("\\text{a}"), mi("x y"), mi("}"), mi("{"), mi("_"), mi("^"), mi("&"), mi("\\\\"), mi("]"), mi("[x]"), mi("]x["), mi("d"), mi("e"), mi("π"), mi("i"), mi("∞"),
    mi("x'"), mo("'"), mo("′"), mo("''"), mo("-"), mo("−"), mo("±"), mo("="), mo(","), mo(";"), mo("."), mo("!"), mo("|"), mo("‖"), mo(")"), mo("["), mo("{"), mo("}"), mo("/"), mo("*"),
    mo("∫"), mo("∏"), mo("lim"), mo("max"), mi("lim"), mi("max"), mi("log"), mo("∂"), mo("∇"), mo("→"), mo("^"), mo("_"), mo("‾"), mo("¨"), mo("\u2061"), mo("\u2062"), mo("\u200b"),
    mtext(""), mtext("x"), mtext(" "), mtext("α"), mtext("{"), mtext("x_1"), mtext("\\"), mi("x", mathvariant="normal"), mi("ab", mathvariant="script"),
    mtext("a", mathvariant="bold"), E("menclose", X, notation="phasorangle"), mrow(*[E("menclose", X, notation="phasorangle")] * 2), E("menclose", X, notation="left"),
    E("menclose", X, notation="right"), E("menclose", X, notation="madruwb"), E("mfenced", X, open="{", close="}"), E("mfenced", X, open="[", close=")"), E("mfenced", X, open="|", close=""),
    E("mfrac", mn("1"), TWO), E("mfrac", mn("1"), mn("1")), E("mfrac", E("mfrac", X, Y), Z), E("msqrt", E("msqrt", X)), E("msqrt", mn("1")), E("mroot", X, TWO), E("mroot", X, mi("")),
    E("msup", X, mn("1")), E("msup", X, mo("′")), E("msup", X, mi("")), E("msub", mi(""), TWO), E("msup", mo(")"), TWO), E("msup", E("msub", X, ONE), TWO), E("msub", E("msup", X, TWO), ONE),
    E("msup", E("msup", X, Y), Z), E("mover", X, mo("→")), E("mover", mo("="), mtext("a")), E("mover", mrow(), mo("^")), E("munder", mo("lim"), X), E("munderover", mo("∫"), mn("0"), mn("1")),
    E("mrow", mo("("), X, mo(")")), E("mrow", mo("-"), X), E("mrow", X, mo("\u2061"), mrow(mo("("), Y, mo(")"))), E("mrow", mo("{"), table([X], [Y])), E("mrow", X, E("mphantom", Y)),
    E("mrow", E("mphantom", X), E("mphantom", Y)), E("mphantom", E("mfrac", X, Y)), E("mpadded", X), E("mspace"), E("none"), E("mtable"), E("mtr"), E("mtd"), table([mrow(), X]), E("mglyph"),
    E("annotation", X), E("mprescripts"), E("mstyle", mrow()), E("semantics", mrow(X, Y), E("annotation-xml", E("mfrac", X, Y))), E("math"), E("merror"), E("maction", X, actiontype="tooltip"),
]
OPERANDS = TOKENS + CONTAINERS
FEW = [X, mi("α"), mn("12"), mi(""), mo("∑"), mtext("if a"), mrow(), mrow(X), mrow(X, PLUS, Y), mrow(mi(""), mi("")),
       mrow(mi("α"), mi("β")), E("msqrt", X), E("mfrac", X, Y), E("msup", X, TWO), E("mover", X, mo("^")),
       E("mmultiscripts", X, ONE, TWO), E("mfenced", X, Y), table([X, Y]), E("mphantom", X), E("maction", X, Y),
       E("mstyle", X, Y), E("math", X)]

# --- contexts: functions that put a term into a slot --------------------------------

P, Q, R = mi("p"), mi("q"), mn("7")


def _slots(name, n, attrs=()):
    """One frame per slot of an n-child element."""
    fill = [P, Q, R, mi("s"), mi("t")]
    res = []
    for i in range(n):
        def frame(t, i=i):
            kids = [fill[j] for j in range(n)]
            kids[i] = t
            return EA(name, attrs, *kids)
        res.append(frame)
    return res


def _with(f):
    return [f]


FRAMES = (
    _slots("mrow", 1) + _slots("mrow", 3) + _slots("msqrt", 1) + _slots("msqrt", 2)
    + _slots("mfrac", 2) + _slots("mfrac", 2, [("bevelled", "true")]) + _slots("mroot", 2)
    + _slots("msup", 2) + _slots("msub", 2) + _slots("msubsup", 3)
    + _slots("mover", 2) + _slots("munder", 2) + _slots("munderover", 3)
    + _slots("mmultiscripts", 3)
    + [lambda t: E("mmultiscripts", P, Q, R, E("mprescripts"), t, mi("s")),
       lambda t: E("mmultiscripts", P, Q, R, E("mprescripts"), mi("s"), t),
       lambda t: E("mmultiscripts", t, Q, R, E("mprescripts"), mi("s"), P)]
    + _slots("mfenced", 1) + _slots("mfenced", 3, [("separators", ";|")])
    + _slots("mfenced", 2, [("open", "["), ("close", "]")])
    + _slots("mtd", 1) + _slots("mtd", 2) + _slots("mtr", 2)
    + [lambda t: table([t]), lambda t: table([P, t], [Q, R]), lambda t: table([P, Q], [t, R]),
       lambda t: E("mfenced", table([P, t]), open="[", close="]")]
    + _slots("menclose", 1) + _slots("menclose", 2, [("notation", "box")])
    + _slots("maction", 2) + _slots("maction", 2, [("actiontype", "statusline")])
    + _slots("merror", 1) + _slots("merror", 2) + _slots("mphantom", 1)
    + _slots("mpadded", 1) + _slots("mstyle", 2) + _slots("semantics", 2) + _slots("foo", 1)
    + _slots("math", 2)
    + [lambda t: E("mover", t, mo("^")), lambda t: E("munder", mo("¯"), t)]
)
# one frame per kind of element, shown slots only
KIND_FRAMES = [
    lambda t: mrow(t), lambda t: mrow(P, t), lambda t: E("msqrt", t), lambda t: E("mfrac", t, Q),
    lambda t: E("mfrac", P, t), lambda t: E("mfrac", t, Q, bevelled="true"), lambda t: E("mroot", t, Q),
    lambda t: E("mroot", P, t), lambda t: E("msup", t, Q), lambda t: E("msup", P, t),
    lambda t: E("msub", t, Q), lambda t: E("msub", P, t), lambda t: E("msubsup", P, t, Q),
    lambda t: E("msubsup", t, P, Q), lambda t: E("mover", t, Q), lambda t: E("munder", P, t),
    lambda t: E("munderover", P, t, Q), lambda t: E("mmultiscripts", t, P, Q),
    lambda t: E("mmultiscripts", P, t, Q, E("mprescripts"), R, R), lambda t: E("mmultiscripts", P, Q, R, E("mprescripts"), t, R),
    lambda t: E("mfenced", t), lambda t: E("mfenced", t, P, open="|", close="|"),
    lambda t: table([t]), lambda t: E("mtd", t), lambda t: E("mtr", t, P), lambda t: E("menclose", t),
    lambda t: E("maction", t, P), lambda t: E("maction", t, P, actiontype="tooltip"), lambda t: E("merror", t),
    lambda t: E("mstyle", t), lambda t: E("math", t),
]

# every slot of every kind of element, in every attribute variant that has its own LaTeX
ALL_FRAMES = list(FRAMES) + [
    f for a in sorted(ref.ENCLOSE) + ["longdiv"] for f in _slots("menclose", 2, [("notation", a)])[:1]
] + [
    f for o, k in [("", "]"), ("{", "}"), ("|", "|"), ("||", "||"), ("(", "]"), ("(", "")]
    for f in (_slots("mfenced", 2, [("open", o), ("close", k)])[1:] + [lambda t, o=o, k=k: E("mfenced", table([t, Q], [P, R]), open=o, close=k)])
] + _slots("mfenced", 4, [("separators", ";")]) + _slots("maction", 3, [("actiontype", "toggle")]) + _slots("mmultiscripts", 5) + [
    lambda t, i=i: E("mmultiscripts", P, Q, R, Q, t if i == 0 else R, E("mprescripts"), *[t if i == j else R for j in (1, 2, 3, 4)]) for i in range(5)
] + [lambda t: E("mmultiscripts", t, E("mprescripts"), P, Q), lambda t: E("mover", P, E("mstyle", t)), lambda t: E("munderover", E("mover", t, mo("^")), P, Q),
     lambda t: E("mfrac", mrow(P, t), mrow(R, Q), bevelled="true"), lambda t: table([P], [Q], [t]), lambda t: E("mtable", E("mlabeledtr", E("mtd", P), E("mtd", t)))]

# tokens that are alike but for their kind or their attributes
ALIKE = [X, mi("x", mathvariant="bold"), mtext("x"), mo("x"), mtext("x", mathvariant="italic")]


def chain(c, t, depth, frames=FRAMES):
    """t inside 0..depth nested frames."""
    n = c.choose(depth + 1)
    for _ in range(n):
        t = c.pick(frames)(t)
    return t


# --- all trees up to a number of nodes --------------------------------------------------

LEAVES = [X, TWO, mi("α"), mi("")]
# name, attributes, minimum and maximum number of children, what to add after the children
NODES = [
    ("mrow", (), 0, 9), ("msqrt", (), 0, 9), ("mfrac", (), 2, 2), ("mfrac", (("bevelled", "true"),), 2, 2),
    ("mroot", (), 2, 2), ("msup", (), 2, 2), ("msub", (), 2, 2), ("msubsup", (), 3, 3), ("mover", (), 2, 2),
    ("munder", (), 2, 2), ("munderover", (), 3, 3), ("mmultiscripts", (), 3, 9),
    ("mfenced", (), 0, 9), ("mfenced", (("open", "["), ("close", "]"), ("separators", ";|")), 0, 9),
    ("mtable", (), 0, 9), ("mtr", (), 0, 9), ("mtd", (), 0, 9), ("menclose", (("notation", "box"),), 0, 9),
    ("maction", (), 0, 9), ("maction", (("actiontype", "tooltip"),), 0, 9), ("merror", (), 0, 9),
    ("mphantom", (), 0, 9), ("mstyle", (), 0, 9), ("math", (), 0, 9),
]


def tree(c, n, nodes=NODES, leaves=LEAVES):
    """A tree of exactly n nodes over the alphabets (every one on some path)."""
    if n == 1:
        return c.pick(leaves)
    parts = []
    left = n - 1
    while left:
        k = 1 + c.choose(left)
        parts.append(k)
        left -= k
    fit = [s for s in nodes if s[2] <= len(parts) <= s[3]]
    name, attrs, _, _ = c.pick(fit)
    return EA(name, attrs, *[tree(c, k, nodes, leaves) for k in parts])


def check(*ts, **more):
    return case(doc(*ts), ref.outcome(*ts), **more)


def mentions(t, wanted):
    return any(n in wanted for n in names(t))


def trees_space(name, n, wanted=None, nodes=NODES, leaves=LEAVES):
    def driver(c):
        k = 2 + c.choose(n - 1)
        t = tree(c, k, nodes, leaves)
        if wanted and not mentions(t, wanted):
            raise Skip()
        return check(t)
    return Space(name, driver, f"every tree of 2..{n} nodes over {len(nodes)} element shapes and {len(leaves)} leaves"
                 + (f" with an element of {sorted(wanted)}" if wanted else ""))


def slots_space(name, shapes, ops, few, rule=None):
    """shapes: (element name, attributes, number of children); full product of operands.
    Elements with three or more children use the smaller operand set."""
    def driver(c):
        el, attrs, n = c.pick(shapes)
        kids = [c.pick(ops if n <= 2 else few) for _ in range(n)]
        return check(EA(el, attrs, *kids))
    return Space(name, driver, rule or f"{[s[0] for s in shapes]} with every combination of children from "
                 f"{len(ops)} operands ({len(few)} for three or more children)")


def contexts_space(name, subjects, depth, frames=FRAMES):
    def driver(c):
        t = c.pick(subjects)
        return check(chain(c, t, depth, frames))
    return Space(name, driver, f"{len(subjects)} elements in every chain of up to {depth} of {len(frames)} slots")


def nest_space(name, frames, depths, seeds=(X, mrow(X, Y))):
    """frames[i] applied d times, and alternating pairs of frames."""
    def driver(c):
        f, g = c.pick(frames), c.pick(frames)
        t = c.pick(seeds)
        d = c.pick(depths)
        return check(grow(t, [(f if i % 2 else g) for i in range(d)]))
    return Space(name, driver, f"every pair of {len(frames)} slots nested alternately to depths {list(depths)}")


def width_space(name, shapes, widths, tokens=None):
    """Elements with many children: each numbered, so that order and loss show."""
    def driver(c):
        make = c.pick(shapes)
        n = c.pick(widths)
        kind = c.choose(3)
        kids = [(mn(str(100 + i)) if kind == 0 else mi("x") if kind == 1 else mrow(mi("x"), mn(str(i)))) for i in range(n)]
        return check(make(*kids))
    return Space(name, driver, f"{len(shapes)} elements with {widths[0]}..{widths[-1]} children of three kinds")


def alike_space(n, wanted, leaves=ALIKE):
    """Tokens that differ in kind or font only, side by side."""
    s = trees_space("alike", n, wanted, leaves=leaves)
    s.rule += " that are alike but for their kind or font"
    return s


HOSTS2 = [
    lambda a, b: mrow(a, b), lambda a, b: mrow(a, X, b, a), lambda a, b: E("mfenced", a, b), lambda a, b: E("msubsup", X, a, b), lambda a, b: E("msup", a, b),
    lambda a, b: E("mfrac", a, b), lambda a, b: E("mroot", a, b), lambda a, b: E("munderover", a, b, a), lambda a, b: E("mmultiscripts", X, a, b, E("mprescripts"), b, a),
    lambda a, b: table([a, b], [b, a]), lambda a, b: E("mover", a, b), lambda a, b: E("maction", a, b), lambda a, b: E("menclose", a, b), lambda a, b: E("math", a, b),
    lambda a, b: E("mstyle", mrow(a), mrow(mrow(b))), lambda a, b: mrow(E("mphantom", a), b), lambda a, b: E("mfrac", mrow(a, b), b, bevelled="true"), lambda a, b: E("merror", a, E("msqrt", b)),
]


def twins_space(subjects, name="twins"):
    """Two of the elements at two places of one formula: what one does must not show in the other."""
    def driver(c):
        a, b = c.pick(subjects), c.pick(subjects)
        return check(c.pick(HOSTS2)(a, b))
    return Space(name, driver, f"every two of {len(subjects)} elements in {len(HOSTS2)} hosts")


# --- the implementation's own constants as inputs (see literals.py) -----------------------

TOKEN_KINDS = ["mi", "mo", "mn", "mtext"]
ATTRS = ["mathvariant", "open", "close", "separators", "bevelled", "actiontype", "notation", "dir", "display", "displaystyle", "accent", "class",
         "id", "form", "stretchy", "selection", "linethickness", "align", "lang", "width", "visibility"]


def tag(t, who, ats, used=()):
    """The attributes put on every element `who` of the term that has none of that name."""
    n, at, x, kids = t
    new = tuple(a for a in ats if a[0] not in dict(at)) if who in (n, "*") else ()
    return (n, at + new, x, tuple(tag(k, who, ats) for k in kids))


def literals_spaces(wanted, samples=(), thorough=False):
    """Elements of the wanted kinds around tokens, attributes and names that the source mentions."""
    own = [f for f in ALL_FRAMES if f(X)[0] in wanted or any(k[0] in wanted for k in f(X)[3])]
    frames = own + [f for f in KIND_FRAMES if f not in own]
    samples = list(samples) or [f(X) for f in own]

    def texts(c):
        t = T(c.pick(TOKEN_KINDS), c.pick(literals.texts()))
        f = c.choose(len(frames) + len(samples))
        if f < len(frames):
            t = frames[f](t)
            return check(t if t[0] in wanted else mrow(t, own[0](X)))
        return check(mrow(samples[f - len(frames)], t))

    def pairs(c):
        ls = [s for s in literals.texts() if len(s) <= 2]
        k = c.pick(["mi", "mo"])
        a, b = T(k, c.pick(ls)), T(c.pick(["mo", "mn"]) if k == "mi" else "mi", c.pick(ls))
        return check(c.pick([lambda a, b: E(c.pick(sorted(wanted)), a, b), lambda a, b: mrow(own[0](mrow(a, b)))])(a, b))

    def real(c):
        t = c.pick(samples)
        return check(tag(t, c.pick(sorted(set(names(t)))), [c.pick(present.PAIRS)]))

    def real2(c):
        t = c.pick(samples)
        a, b = c.pick(present.PAIRS), c.pick(present.PAIRS)
        if a[0] == b[0]:
            raise Skip()
        return check(tag(t, t[0], [a, b]))

    def attributes(c):
        t = c.pick(samples)
        who = c.pick(sorted(set(names(t))))
        ws = literals.words()
        if c.flag():
            return check(tag(t, who, [(c.pick(ws), c.pick(["true", "false", "", "0"]))]))
        return check(tag(t, who, [(c.pick(ATTRS), c.pick(literals.texts()))]))
    res = [Space("source-texts", texts, f"tokens with every text the source mentions in {len(frames)} slots and beside {len(samples)} elements"),
           Space("source-attributes", attributes, f"{len(samples)} elements with attributes whose name or value the source mentions"),
           Space("source-pairs", pairs, "tokens with every two short texts the source mentions, in the wanted elements")]
    res.append(Space("presentation", real, f"each of {len(present.PAIRS)} attributes with a value of its own on each kind of element of {len(samples)} elements"))
    if thorough:
        res.append(Space("presentation2", real2, "... and every two of them on the elements themselves"))
    return res


def looks_space(shapes):
    """Elements whose LaTeX could pass for something else, in every slot, beside each other."""
    ops = LOOKS + [X, mrow(X, Y)]

    def driver(c):
        name, attrs, n = c.pick(shapes)
        if n <= 2:
            return check(EA(name, attrs, *[c.pick(ops) for _ in range(n)]))
        i = c.choose(n)
        j = i + c.choose(n - i)
        kids = [c.pick(ops) if k in (i, j) else mn(str(k + 3)) for k in range(n)]
        return check(EA(name, attrs, *kids))
    return Space("looks", driver, f"{[s[0] for s in shapes]} with every two of {len(ops)} operands whose LaTeX could pass for something else")


def long_space(hosts, lengths):
    """Hosts around tokens of every one of the lengths."""
    def driver(c):
        n = c.pick(lengths)
        t = [lambda: mi("x" * n), lambda: mn("1" * n), lambda: mtext("a " * (n // 2) + "b"), lambda: mi("αx" * (n // 2) + "α"), lambda: mo("+-" * n)][c.choose(5)]()
        return check(c.pick(hosts)(t))
    return Space("long-tokens", driver, f"{len(hosts)} slots around five kinds of tokens of {len(lengths)} lengths up to {lengths[-1]}")


def deep_space(frames, subjects, depths, name="deep-same"):
    """The same slot again and again around an element, inside one more."""
    def driver(c):
        t = grow(c.pick(subjects), [c.pick(frames)] * c.pick(depths))
        if height(t) < DEEPEST - 3:
            t = c.pick([lambda t: t, lambda t: mrow(X, t, Y), lambda t: E("msup", t, TWO)])(t)
        return check(t)
    return Space(name, driver, f"{len(subjects)} elements inside the same of {len(frames)} slots {list(depths)} times, bare and in a row or script")


ITEMS = [mi(x) for x in "abcdefghijkl"]
GROUP_KINDS = [lambda *k: mrow(*k), lambda *k: E("mstyle", *k), lambda *k: E("mfenced", *k), lambda *k: mi("abcdefghijkl"[:len(k)]), lambda *k: table(k), lambda *k: E("msqrt", *k)]
# elements of several operands: what stands in one slot may depend on nothing in another
MANY_SLOTS = [
    (lambda *k: E("mfrac", *k), 2), (lambda *k: E("mfrac", *k, bevelled="true"), 2), (lambda *k: E("mroot", *k), 2), (lambda *k: E("msup", *k), 2), (lambda *k: E("msub", *k), 2), (lambda *k: E("msubsup", *k), 3),
    (lambda *k: E("mover", *k), 2), (lambda *k: E("munder", *k), 2), (lambda *k: E("munderover", *k), 3), (lambda *k: E("mmultiscripts", *k), 3), (lambda *k: E("mfenced", *k), 2),
    (lambda *k: E("mfenced", *k, open="[", close="]", separators=";|"), 3), (lambda *k: table(k), 3), (lambda *k: table(*[[x] for x in k]), 3), (lambda *k: E("menclose", *k, notation="box"), 2),
    (lambda *k: E("maction", *k), 2), (lambda *k: E("maction", *k), 3), (lambda *k: E("maction", *k, actiontype="tooltip"), 2), (lambda *k: E("merror", *k), 2), (lambda *k: mrow(*k), 3), (lambda *k: E("mstyle", *k), 2),
    (lambda *k: E("math", *k), 2), (lambda a, b, d: E("mmultiscripts", X, a, b, E("mprescripts"), d, Y), 3), (lambda a, b: E("mfenced", table([a], [b]), open="(", close=")"), 2),
    (lambda *k: E("mtable", *[E("mtr", *[E("mtd", y) for y in (x[3] or (x,))]) for x in k]), 3), (lambda *k: E("msqrt", *k), 2), (lambda *k: E("mpadded", *k), 2), (lambda *k: E("semantics", *k), 2), (lambda *k: E("foo", *k), 2),
]


def own_shapes(wanted):
    return [(f, n) for f, n in MANY_SLOTS if mentions(f(*[X] * n), wanted)]


def balance_space(wanted, top, build=check):
    """Operands of all sizes beside each other."""
    shapes = own_shapes(wanted)

    def driver(c):
        f, n = c.pick(shapes)
        g = c.pick(GROUP_KINDS)
        t = top if n < 3 else top - 2
        at, kids = 0, []
        for _ in range(n):
            k = c.choose(t + 1)
            kids.append(g(*ITEMS[at:at + k]) if k else c.pick([g(), E("mphantom", X)]))
            at = (at + k) % 5
        t = f(*kids)
        return build(t if c.flag() else E("mfrac", E("mstyle", mrow(t)), Y))
    return Space("balance", driver, f"{len(shapes)} elements with groups of 0..{top} (0..{top - 2} for three) children of {len(GROUP_KINDS)} kinds in each slot")


def equal_space(wanted, subjects, build=check):
    """The same operand in several slots, and the same element several times in a row, with something or nothing between."""
    shapes = own_shapes(wanted)

    def slots(c):
        f, n = c.pick(shapes)
        a, b = c.pick(subjects), c.pick([X, TWO, mrow(X, Y), mrow(mrow(X), Y)])
        m = c.choose(2 ** n)
        t = f(*[a if m >> i & 1 else b for i in range(n)])
        return t if c.flag() else mrow(t, t)

    def row(c):
        f, n = c.pick(shapes)
        t = f(*c.pick([ITEMS[:n], [mrow(X, Y)] * n]))
        k = 2 + c.choose(5)
        between = c.pick([None, PLUS, mo("\u2062"), E("mspace"), mrow()])
        ks = [x for _ in range(k) for x in (t, between) if x]
        ks = ks if not between or c.flag() else ks[:-1]
        return c.pick([lambda *k: mrow(*k), lambda *k: E("msqrt", *k), lambda *k: E("mfenced", *k), lambda *k: table(k), lambda *k: table(*[[x] for x in k]), lambda *k: E("math", *k), lambda *k: E("mstyle", mrow(*k), Y),
                       lambda *k: E("msup", mrow(*k), TWO), lambda *k: E("maction", *k), lambda *k: E("mmultiscripts", X, *k), lambda *k: E("mfrac", mrow(*k), k[0])])(*ks)

    def driver(c):
        return build(c.pick([slots, row])(c))
    return Space("equal", driver, f"{len(shapes)} elements with the same of {len(subjects)} operands in any of their slots, and 2..6 times beside itself in 11 hosts")


def triples_space(wanted, subjects, frames=KIND_FRAMES, build=check):
    """Every chain of three slots with one of the wanted elements in it."""
    def driver(c):
        fs = [c.choose(len(frames)) for _ in range(3)]
        t = c.pick(subjects)
        u = grow(t, [frames[i] for i in fs])
        if not mentions(u, wanted):
            raise Skip()
        return build(u)
    return Space("chains3", driver, f"{len(subjects)} elements in every chain of three of {len(frames)} slots with an element of {sorted(wanted)}", split=4096)


USERS = [("mi", "x", ("mathvariant",), ("bold",)), ("mi", "ab", ("mathvariant",), ("script",)), ("mtext", "a b", ("mathvariant",), ("italic",)), ("mfrac", 2, ("bevelled",), ("true",)), ("maction", 2, ("actiontype",), ("tooltip",)),
         ("maction", 2, ("actiontype",), ("toggle",)), ("menclose", 1, ("notation",), ("box",)), ("mfenced", 3, ("open", "close", "separators"), ("[", ")", ";,")), ("mfenced", 0, ("open", "close"), ("{", "|"))]
FILL = ["id", "class", "style", "href", "dir", "display", "displaystyle", "scriptlevel", "mathcolor", "mathbackground", "mathsize", "form", "fence", "separator", "lspace", "rspace", "stretchy", "symmetric", "maxsize",
        "minsize", "largeop", "movablelimits", "accent", "linethickness", "numalign", "denomalign", "width", "height", "depth", "align", "rowalign", "columnalign", "xref", "alt", "title", "selection", "a1", "a2", "a3", "a4"]


def places_space(wanted):
    """The attributes that are used, in every order and at every place among others."""
    users = [u for u in USERS if u[0] in wanted]

    def driver(c):
        el, kids, ks, vs = c.pick(users)
        at = list(zip(ks, vs))
        at = [at.pop(c.choose(len(at))) for _ in range(len(at))]
        n = c.pick([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40])
        if len(at) == 1:
            cut = [c.choose(n + 1)]
        else:
            cut = sorted(c.pick([0, n // 2, n]) for _ in at)
        fill = [(k, c.pick(["1", ""]) if not i else "x") for i, k in enumerate(FILL[:n])]
        ats = []
        for a, i in zip(at, cut):
            ats += [f for f in fill[:i] if f not in ats] + [a]
        ats += [f for f in fill if f not in ats]
        if type(kids) is str:
            t = (el, tuple(ats), kids, ())
        else:
            t = EA(el, ats, *([mrow(X, Y), TWO, Z][:kids] if kids else [table([X, Y])]))
        return check(t if c.flag() else E("msup", mrow(t, X), t))
    return Space("attribute-places", driver, f"{len(users)} elements with the attributes they use in every order, at every place among up to 40 others")


NAMES = ["math", "mrow", "mi", "mn", "mo", "mtext", "ms", "mspace", "msqrt", "mroot", "mfrac", "msup", "msub", "msubsup", "mover", "munder", "munderover", "mmultiscripts", "mprescripts", "none", "mfenced", "mtable", "mtr", "mlabeledtr", "mtd",
         "menclose", "maction", "merror", "mphantom", "mpadded", "mstyle", "semantics", "annotation", "annotation-xml", "mglyph", "malignmark", "foo"]


def el(n, kids="", at=""):
    return f"<{n}{at}>{kids}</{n}>" if kids else f"<{n}{at}/>"


SHAPES6 = [lambda a, b, d: el(a, el(b, el(d, "x"))), lambda a, b, d: el(a, el(b) + el(d)), lambda a, b, d: el(a, "t" + el(b, "x") + "u" + el(d, "y") + "v"), lambda a, b, d: el(a, el(b, "x") * 2 + el(d, "y") * 3),
           lambda a, b, d: el(a) + el(b, el(d) * 2), lambda a, b, d: el(a, el(b, el(d, "x") * 3) + el(d))]


def wild_space(wanted):
    """Elements of all names in all arrangements of three, meant or not, against the reference model's reading of the document."""
    import xmldoc
    own = [n for n in NAMES if n in wanted]

    def driver(c):
        at = c.choose(3)
        ns = [c.pick(own if i == at else NAMES) for i in range(3)]
        if any(n in wanted for n in ns[:at]):
            raise Skip()
        d = "<math>" + c.pick(SHAPES6)(*ns) + "</math>"
        return {"doc": d, "expect": xmldoc.outcome(d)}
    return Space("wild", driver, f"elements of {len(NAMES)} names in six arrangements of three (also elements in tokens, text between elements, empty and misplaced elements) with one of {sorted(wanted)}")


def kinds_of_characters():
    """The first, middle and last character of each category and plane, and what some way of counting takes for one character."""
    if not _chars:
        groups = {}
        for cp in range(0x20, 0x110000):
            ch = chr(cp)
            cat = unicodedata.category(ch)
            if cat == "Cs" or cp & 0xFFFE == 0xFFFE or cp > 0xE01EF and cat in ("Co", "Cn") or ch in "<&":
                continue
            groups.setdefault((cat, min(cp >> 16, 3) or -(cp < 128)), []).append(ch)
        for g in groups.values():
            _chars.extend(sorted({g[0], g[len(g) // 2], g[-1]}))
        _chars.extend(["x\u0301", "\u0301", "e\u0301\u0323", "1\ufe0f\u20e3", "\U0001F1E7\U0001F1F7", "\U0001F468\u200d\U0001F469", "\U0001F44D\U0001F3FD", "\u1112\u1161\u11ab", "\ufb01", "\u01c5", "\u00df",
                       "\U0001F600\U0001F600", "x\U0001F600", "\U0001F600x", "\ufe0f", "x\ufe0f", "\u200d", "\u202e", "\u202ex",
                       "%s", "%d", "%%", "100%", "%(a)s", "{}", "{0}", "{a}", "{{", "}}", "\\1", "\\g<0>", "$1", "${a}", *(m for m in "!\"#$%'()*+,-./:;=?@[\\]^_`{|}~" if m not in _chars)])
    return _chars


_chars = []


def numerics(step=1):
    """Every step-th character that Unicode says is a digit or number, and the last and first of each run of them."""
    if not _numerics:
        _numerics.extend(ch for ch in map(chr, range(0x110000)) if unicodedata.numeric(ch, None) is not None)
    return [ch for i, ch in enumerate(_numerics) if i % step == 0 or ord(ch) - 1 != ord(_numerics[i - 1]) or ch.isdigit() and not ch.isdecimal()]


_numerics = []


def characters_space(wanted, own, build=check):
    """Characters of every kind as what stands in each slot, bare or as all that a container of several children shows."""
    texts = kinds_of_characters()
    holders = [lambda t: t, lambda t: E("maction", t, Y, actiontype="tooltip"), lambda t: mrow(t), lambda t: E("mstyle", E("maction", t, E("mfrac", X, Y), actiontype="statusline"))]

    def driver(c):
        f = c.pick(own)
        h = c.pick(holders)
        t = T(c.pick(["mi", "mo", "mn", "mtext"]), c.pick(texts))
        return build(f(h(t)))
    return Space("characters", driver, f"{len(texts)} texts, of one character of each Unicode category and plane or of several that look like one, as each kind of token in {len(own)} slots, bare or alone shown by a container")


def source_rows():
    """For each text the source mentions, the shortest rows of elements whose LaTeX has its words."""
    if not _rows:
        back = {}
        for kind in ("mi", "mo"):
            for k, v in sorted(ref.SYMBOLS[kind].items(), key=lambda e: (e[0][0] == "&", len(e[0]), e[0])):
                back.setdefault(v.strip(), T(kind, k))
        shown = []
        for o in OPERANDS + LOOKS + [mi("x", mathvariant=v) for v in ref.FONTS] + [mtext("x", mathvariant=v) for v in ref.TEXT_FONTS] + [E("menclose", X, notation=n) for n in sorted(ref.ENCLOSE)]:
            out = ref.outcome(o)
            if out[0] == "ok":
                shown.append((len(out[1]), out[1], o))
        shown.sort(key=lambda t: t[:2])

        def element(w):
            if w in back and len(w) > 1:
                return back[w]
            if w[0] == "\\" and len(w) > 2:
                for _, latex, o in shown:
                    if w in latex:
                        return o
            return mn(w) if w.isdigit() else mi(w) if w.isalnum() or len(w) > 1 else mo(w)
        seen = set()
        for s in literals.texts():
            if s.isalnum() and len(s) > 2 or not s.strip():
                continue
            row = tuple(map(element, s.split()))
            if len(row) <= 4 and row not in seen:
                seen.add(row)
                _rows.append(row)
    return _rows


_rows = []


def source_rows_space(own):
    rows = source_rows()

    def driver(c):
        a, b = c.pick(rows), c.pick(rows)
        mid = c.pick([(), (Z,)])
        return check(c.pick(own)(mrow(*a, *mid, *b)))
    return Space("source-rows", driver, f"rows of elements with the LaTeX of every two of {len(rows)} texts the source mentions, alone and with another between, in {len(own)} slots")


def common(wanted, subjects, thorough=False, shapes=()):
    """The spaces every check against the reference model has."""
    own = [f for f in ALL_FRAMES if f(X)[0] in wanted]
    few = list(subjects)[:2] + [mrow(list(subjects)[-1], X, list(subjects)[len(subjects) // 2])]
    res = [alike_space(5 if thorough else 4, wanted), twins_space(subjects)]
    res += literals_spaces(wanted, few, thorough)
    res.append(deep_space(KIND_FRAMES + own, few, [5, 6, 7, 8, 9, 11, 13, 16, 20, 25, 33, 48, 65] if not thorough else range(5, 99)))
    res.append(long_space(own, [3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 79, 80, 81, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300, 500, 512, 513, 999, 1000, 1001, 1024, 1025]
                          if not thorough else list(range(2, 300)) + [400, 500, 511, 512, 513, 600, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2048, 4096, 4097, 5000]))
    res += [balance_space(wanted, 5 if thorough else 4), equal_space(wanted, FEW if thorough else FEW[::2] + [mi("")]), triples_space(wanted, FEW if thorough else [mrow(X, Y), mi("α"), few[0]])]
    if wanted & set(NAMES):
        res.append(wild_space(wanted))
    if wanted & {u[0] for u in USERS}:
        res.append(places_space(wanted))
    many = [f for f in sorted(wanted) if f not in ("msup", "msub", "mfrac", "mroot", "mover", "munder", "msubsup", "munderover")]
    if many:
        ws = [0, 1, 2, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 130, 199, 200, 255, 256, 257, 260, 300, 500, 511, 512, 513, 520, 1000, 1001, 1024]
        res.append(width_space("very-wide", [lambda *k, n=n: E(n, *(k if n != "mmultiscripts" else (X, *k, X, Y))) for n in many], ws if not thorough else list(range(0, 260)) + ws[-8:] + [2000, 3000]))
    if shapes:
        res.append(looks_space(shapes))
    res.append(characters_space(wanted, own))
    res.append(source_rows_space(own[:1] if not thorough else own))
    return res


__all__ = [n for n in dir() if not n.startswith("__")]
