"""C24: an element's LaTeX does not depend on where it stands (the implementation against itself)."""
import functools

import impl
import literals
import present
import ref
from explore import Skip
from gen import DEEPEST, height, rise, ALL_FRAMES, E, EA, FEW, FRAMES, KIND_FRAMES, OPERANDS, P, Q, Space, T, X, Y, Z, doc, mi, mn, mo, mrow, mtext, names, table, tree, ONE, TWO, NODES, LEAVES
from space import describe
from term import xml

RULE = ("every path of each space puts one element into one chain of slots (with one choice of siblings); the LaTeX must be that of the same chain around a placeholder, obtained from "
        "the implementation too, with the element's own LaTeX in the placeholder's place")
ASSUMPTIONS = ["the placeholder agrees with the element in what the documented grouping rules look at: whether it has more than one child, whether its LaTeX is longer than one character and whether "
               "it contains a space; tables in fences and accents in accent slots, whose effect on the context is documented, are left to C06 and C03"]

A, B = "囧", "囨"


@functools.lru_cache(None)
def latex(d):
    return impl.convert(d)


def own(t, in_table):
    """The element's own LaTeX, unstripped."""
    if in_table:
        out = latex(doc(table([E("menclose", t, notation="box")])))
    else:
        out = latex(doc(E("menclose", t, notation="box")))
    if out[0] == "ok" and out[1].startswith("\\boxed{") and out[1].endswith("}"):
        return out[1][7:-1]
    return out


def placeholder(t, s):
    inner = mi(A) if len(s) <= 1 else mi(A + B) if " " not in s else mrow(mi(A), mi(B))
    mark = A if len(s) <= 1 else A + B if " " not in s else A + " " + B
    return (E("maction", inner, Z, actiontype="tooltip") if len(t[3]) > 1 else E("mstyle", inner)), mark


def inside_table(around):
    """Whether the placeholder is inside a table of the chain."""
    def walk(t, tab):
        if t[2] == A:
            return tab
        for k in t[3]:
            r = walk(k, tab or t[0] == "mtable")
            if r is not None:
                return r
        return None
    return walk(around, False)


def put(element, chain):
    around = chain(mi(A))
    ns = set(names(around))
    if "mtable" in names(element) and "mfenced" in ns:
        raise Skip()  # selects the fence's environment (C06)
    tab = inside_table(around)
    s = own(element, bool(tab))
    if type(s) is not str:
        return {"doc": doc(element), "broken": s}
    if s == " " or s.strip() in ref.ACCENTS:
        raise Skip()  # no placeholder of this kind; accents are C03's
    if "math" in ns and (not s or s != s.strip()):
        raise Skip()  # a math element inside another drops the white space around its content
    p, mark = placeholder(element, s)
    return {"doc": doc(chain(element)), "template": doc(chain(p)), "mark": mark, "own": s}


def execute(case):
    if "broken" in case:
        return case["broken"]
    return latex.__wrapped__(case["doc"])


def judge(case, out):
    if "broken" in case:
        return describe(out) if out[0] != "ok" else f"an enclosure of it returned {out[1]!r}"
    t = latex(case["template"])
    if t[0] != "ok":
        return f"with a placeholder the formula {describe(t)}"
    want = ref.norm(t[1].replace(case["mark"], case["own"]))
    if out != ("ok", want):
        return f"{describe(out)}; around a placeholder the formula is {t[1]!r} and the element alone is {case['own']!r}"
    return None


def space(name, driver, rule):
    return Space(name, driver, rule, execute=execute, judge=judge)


def chains(ops, frames, outer, depth):
    def driver(c):
        e = c.pick(ops)
        fs = [c.pick(frames)] + [c.pick(outer) for _ in range(c.choose(depth))]

        def chain(t):
            for f in fs:
                t = f(t)
            return t
        return put(e, chain)
    return space(f"chains-{depth}", driver, f"{len(ops)} elements in every one of {len(frames)} slots, in every chain of up to {depth - 1} more of {len(outer)}")


def siblings(ops, sibs):
    hosts = [
        lambda t, a, b: mrow(a, t, b), lambda t, a, b: mrow(t, a, b), lambda t, a, b: mrow(a, b, t), lambda t, a, b: E("msubsup", a, t, b), lambda t, a, b: E("msubsup", a, b, t),
        lambda t, a, b: E("munderover", t, a, b), lambda t, a, b: E("munderover", a, t, b), lambda t, a, b: E("mfenced", a, t, b), lambda t, a, b: E("mfenced", t, a, b, separators=";,"),
        lambda t, a, b: E("mmultiscripts", a, t, b), lambda t, a, b: E("mmultiscripts", a, b, ONE, E("mprescripts"), t, TWO), lambda t, a, b: table([a, t], [b]), lambda t, a, b: table([a, b], [t]),
        lambda t, a, b: mrow(E("msup", a, b), t), lambda t, a, b: E("mfrac", mrow(a, t), b), lambda t, a, b: E("mfrac", a, mrow(b, t), bevelled="true"), lambda t, a, b: E("mroot", mrow(a, t), b),
        lambda t, a, b: E("maction", a, t, b), lambda t, a, b: E("merror", a, E("mstyle", t), b), lambda t, a, b: E("menclose", a, b, t), lambda t, a, b: E("mover", mrow(a, t), b),
        lambda t, a, b: E("math", a, t, b), lambda t, a, b: mrow(a, E("mphantom", t, b), t), lambda t, a, b: E("msup", mrow(a, t), b), lambda t, a, b: E("msqrt", t, a, t, b),
    ]

    def driver(c):
        e, a, b = c.pick(ops), c.pick(sibs), c.pick(sibs)
        h = c.pick(hosts)
        if any("mtable" in names(s) for s in (a, b, e)) and "mfenced" in names(h(X, X, X)):
            raise Skip()
        r = put(e, lambda t: h(t, a, b))
        if not r.get("own", A).strip() and not all(latex(doc(s))[1] for s in (a, b)):
            raise Skip()  # with nothing but empty siblings the length of the group depends on the element
        return r
    return space("siblings", driver, f"{len(ops)} elements between every two of {len(sibs)} siblings in {len(hosts)} hosts")


def row(ops, sibs, top):
    """At every place among several equal siblings."""
    hosts = [lambda *k: mrow(*k), lambda *k: E("msqrt", *k), lambda *k: E("mfenced", *k), lambda *k: E("mfenced", *k, open="[", close="|", separators=";,"), lambda *k: table(k), lambda *k: table(*[[x] for x in k]),
             lambda *k: E("maction", *k), lambda *k: E("menclose", *k, notation="box"), lambda *k: E("mmultiscripts", X, *k), lambda *k: E("math", *k), lambda *k: E("msub", mrow(*k), Y), lambda *k: E("mfrac", mrow(*k), Y)]

    def driver(c):
        e, s, h = c.pick(ops), c.pick(sibs), c.pick(hosts)
        if any("mtable" in names(x) for x in (e, s)) and "mfenced" in names(h(X, X, X)) or not latex(doc(s))[1].strip():
            raise Skip()
        n = 2 + c.choose(top - 1)
        i = c.choose(n + 1)
        return put(e, lambda t: h(*[s] * i, t, *[s] * (n - i)))
    return space("row", driver, f"{len(ops)} elements at every place among 2..{top} copies of {len(sibs)} siblings in {len(hosts)} hosts")


ATTRIBUTES = [("mathvariant", "bold"), ("open", "["), ("separators", ";"), ("notation", "box"), ("bevelled", "true"), ("actiontype", "tooltip"), ("display", "inline"), ("displaystyle", "false"),
              ("scriptlevel", "1"), ("mathcolor", "red"), ("stretchy", "false"), ("width", "0"), ("dir", "rtl"), ("class", "x"), ("accent", "true"), ("columnalign", "left"), ("close", ""),
              ("selection", "2"), ("linethickness", "0"), ("mathsize", "small"), ("fence", "true"), ("movablelimits", "true")]


INHERIT = [X, mi("α"), mtext("ab"), mn("2"), mo("+"), mrow(X, Y), E("mfrac", X, Y), E("mfenced", X, Y), E("menclose", X), E("maction", X, Y), E("mover", X, mo("^")), table([X, Y])]


def attributed(ops, depth):
    """Containers with attributes that other elements use: none is inherited."""
    def driver(c):
        e = c.pick(ops)
        a = c.pick(ATTRIBUTES)
        f = c.pick(KIND_FRAMES)
        g = c.pick([None] + KIND_FRAMES[:depth])

        def chain(t):
            t = f(t)
            t = EA(t[0], (a,) + tuple(x for x in t[1] if x[0] != a[0]), *t[3])
            return g(t) if g else t
        if "mfenced" in names(chain(X)) and "mtable" in names(chain(X)):
            raise Skip()
        return put(e, chain)
    return space("attributed", driver, f"{len(ops)} elements in every one of {len(KIND_FRAMES)} slots of containers with {len(ATTRIBUTES)} attributes")


def deep(frames, depths):
    def driver(c):
        e = c.pick(FEW)
        f, g, n = c.pick(frames), c.pick(frames), c.pick(depths)

        fs = [(f, g)[i % 2] for i in range(n)]
        while height(e) + 1 + sum(map(rise, fs)) > DEEPEST:
            fs.pop()

        def chain(t):
            for f in fs:
                t = f(t)
            return t
        return put(e, chain)
    return space("deep", driver, f"{len(FEW)} elements under {depths} levels of every two of {len(frames)} slots in turn")


def trees(n, frames):
    def driver(c):
        k = 2 + c.choose(n - 1)
        t = tree(c, k, NODES, LEAVES)
        return put(t, c.pick(frames))
    return space("trees", driver, f"every tree of 2..{n} nodes in {len(frames)} slots")


def copies(frames):
    """The same element at several places at once."""
    def driver(c):
        e = c.pick(OPERANDS)
        f, g = c.pick(frames), c.pick(frames)
        if "mtable" in names(e) and "mtable" in names(mrow(f(X), g(X))):
            raise Skip()  # inside a table here, outside of one there
        return put(e, lambda t: mrow(f(t), g(t), E("mstyle", t)))
    return space("copies", driver, f"{len(OPERANDS)} elements at three places at once, in every two of {len(frames)} slots")


def inherited():
    """Containers with every presentation attribute there is."""
    elements = [X, mtext("a b"), mn("2"), E("mfrac", X, Y), E("mfenced", X, Y), table([X, Y]), mrow(X, Y)]

    def driver(c):
        e, a, f = c.pick(elements), c.pick(present.PAIRS + [(w, "true") for w in literals.words()]), c.pick(KIND_FRAMES)

        def chain(t):
            t = f(t)
            return EA(t[0], (a,) + tuple(x for x in t[1] if x[0] != a[0]), *t[3])
        if a == ("open", "open") or "mfenced" in names(chain(X)) and "mtable" in names(e):
            raise Skip()
        return put(e, chain)
    return space("inherited", driver, f"{len(elements)} elements in every one of {len(KIND_FRAMES)} slots of containers with {len(present.PAIRS)} presentation attributes")


def sourced():
    """Tokens of what the source mentions."""
    sibs = [X, mn("1"), mo("-")]

    def driver(c):
        s = c.pick(literals.texts())
        e = T(c.pick(["mi", "mo", "mn", "mtext"]), s)
        f, b = c.pick(KIND_FRAMES), c.pick(sibs)
        if c.flag():
            return put(e, lambda t: mrow(b, f(t), b))
        return put(mrow(e, b), f)
    return space("source", driver, f"tokens of {len(literals.texts())} texts that the source mentions, in every one of {len(KIND_FRAMES)} slots, beside 3 siblings")


def source_rows():
    """Rows in whose LaTeX a text that the source mentions would appear: each element there against a placeholder."""
    import gen
    rows = gen.source_rows()
    hosts = [lambda *k: mrow(*k), lambda *k: E("msqrt", *k), lambda *k: E("mstyle", *k)]

    def driver(c):
        a, b = c.pick(rows), c.pick(rows)
        mid = c.pick([(), (Z,)])
        ks = [*a, *mid, *b]
        i = len(a) - 1 if c.flag() else len(a) + len(mid)
        h = c.pick(hosts)
        return put(ks[i], lambda t: h(*ks[:i], t, *ks[i + 1:]))
    return space("source-rows", driver, f"rows of elements with the LaTeX of every two of {len(rows)} texts the source mentions, alone and with another between, and one of them against a placeholder, in {len(hosts)} hosts")


def deep_same(frames, depths):
    def driver(c):
        e, f, n = c.pick(FEW), c.pick(frames), c.pick(depths)
        n = min(n, (DEEPEST - 1 - height(e)) // rise(f))

        def chain(t):
            for _ in range(n):
                t = f(t)
            return t
        return put(e, chain)
    return space("deep-same", driver, f"{len(FEW)} elements under {list(depths)} levels of the same of {len(frames)} slots")


def spaces(tier):
    q = tier == "quick"
    if q:
        return [chains(OPERANDS, FRAMES, KIND_FRAMES[:16], 2), siblings(FEW[1:], [FEW[i] for i in (0, 1, 3, 5, 8, 11, 13, 15, 16, 17)]), deep(KIND_FRAMES[:20], [4]), trees(3, KIND_FRAMES), copies(KIND_FRAMES[::2]), attributed(INHERIT, 6), inherited(), sourced(), source_rows(), row(FEW, FEW, 4), chains(FEW[::2], KIND_FRAMES, KIND_FRAMES, 3),
                deep_same(KIND_FRAMES, [3, 5, 6, 7, 8, 9, 10, 12, 14, 17, 20, 24, 32, 48])]
    return [chains(OPERANDS, FRAMES, FRAMES, 2), chains(FEW, KIND_FRAMES, KIND_FRAMES, 3), siblings(OPERANDS, FEW), deep(KIND_FRAMES, [3, 4, 10, 40]), trees(4, KIND_FRAMES), copies(KIND_FRAMES), attributed(OPERANDS, 30), chains(FEW, ALL_FRAMES, ALL_FRAMES, 2), inherited(), sourced(), source_rows(), row(OPERANDS, FEW, 6), deep_same(ALL_FRAMES, list(range(3, 98)))]
