"""C02: scripts."""
from explore import Skip
from gen import *  # noqa: F403
from gen import (EA, FEW, FRAMES, KIND_FRAMES, OPERANDS, E, Space, X, check, contexts_space, mi, mn, mo, mrow, mtext,
                 nest_space, slots_space, trees_space, common, PLUS, TWO, Y)

RULE = ("every path of each space builds one formula with scripts; its LaTeX must be what the reference model "
        "(base, grouping, _{} and ^{}, prescripts) says")
ASSUMPTIONS = ["operands' own LaTeX is taken from the reference model, whose symbols come from spec/symbols.json"]
WANT = {"msup", "msub", "msubsup", "munderover", "mmultiscripts"}

SHAPES2 = [("msup", (), 2), ("msub", (), 2)]
SHAPES3 = [("msubsup", (), 3), ("munderover", (), 3), ("mmultiscripts", (), 3)]


def multiscripts(top, alphabet):
    def driver(c):
        n = 2 + c.choose(top - 1)
        kids = [c.pick([X, mrow(X, PLUS), mrow(mi("α"), mi("β")), E("mfrac", X, Y)])]
        kids += [c.pick(alphabet) for _ in range(n)]
        at = c.choose(n + 1)
        if at:
            kids.insert(at, E("mprescripts"))
        return check(E("mmultiscripts", *kids))
    return Space(f"multiscripts{top}", driver, f"mmultiscripts with 2..{top} scripts over {len(alphabet)} operands and "
                 "<mprescripts/> at every place")


def pairs(top):
    """Many distinct scripts, every split into post- and prescripts."""
    def driver(c):
        n, at = 2 + c.choose(top), 0
        kids = [mi("b")] + [mn(str(10 + i)) for i in range(n)]
        at = c.choose(n + 1)
        if at:
            kids.insert(at, E("mprescripts"))
        if c.flag():
            kids = [k if k[0] != "mn" or i % 3 else E("none") for i, k in enumerate(kids)]
        return check(E("mmultiscripts", *kids))
    return Space("pairs", driver, f"2..{top + 1} distinct scripts, some none, <mprescripts/> at every place")


def bases(top):
    """Base with k children of every kind: the grouping rule."""
    kinds = ["mrow", "mstyle", "mpadded", "math", "foo", "semantics", "mtd", "mtr", "mtable", "msqrt", "mfenced", "menclose",
             "merror", "maction", "mphantom"]
    toks = [X, mn("2"), mi(""), mi("α"), mn("12"), E("mphantom", X)]

    def driver(c):
        s = c.pick([("msup", 2), ("msub", 2), ("msubsup", 3), ("munderover", 3), ("mmultiscripts", 3)])
        k = c.pick(kinds)
        n = c.choose(top + 1)
        base = E(k, *[c.pick(toks) for _ in range(n)])
        if c.flag():
            base = E(c.pick(["mrow", "mstyle"]), base)
        return check(E(s[0], base, *[mn(str(i + 3)) for i in range(s[1] - 1)]))
    return Space("bases", driver, f"every script element on a base of {len(kinds)} kinds with 0..{top} children of "
                 f"{len(toks)} kinds, bare or inside a group")


def attributes():
    """Script elements and base with attributes that scripts have in MathML."""
    ats = [("subscriptshift", "0"), ("superscriptshift", "1ex"), ("accent", "true"), ("accentunder", "true"), ("accent", "false"),
           ("align", "left"), ("movablelimits", "true"), ("displaystyle", "true"), ("limits", "true"), ("open", "["), ("separators", ";"),
           ("actiontype", "x"), ("notation", "box"), ("mathvariant", "bold"), ("bevelled", "true"), ("form", "prefix"), ("stretchy", "true")]

    def driver(c):
        name, n = c.pick([("msup", 2), ("msub", 2), ("msubsup", 3), ("munderover", 3), ("mmultiscripts", 3)])
        a = c.pick(ats)
        base = c.pick([X, mo("∑"), mrow(X, Y), mo("lim"), mi("lim"), mo("∫"), mrow(X)])
        return check(EA(name, (a,), base, *[c.pick([TWO, mi("n"), mo("*"), mo("′"), mrow(X, Y)]) for _ in range(n - 1)]))
    return Space("attributes", driver, "script elements with each attribute, base and script of an alphabet")


SUBJECTS = ([E("msup", b, s) for b in (X, mrow(X, PLUS)) for s in (TWO, mrow(X, PLUS))]
            + [E("msub", b, s) for b in (X, mrow(X, PLUS)) for s in (TWO, mrow(X, PLUS))]
            + [E("msubsup", b, mn("1"), s) for b in (X, mrow(X, PLUS)) for s in (TWO, mrow(X, PLUS))]
            + [E("munderover", mo("∑"), mrow(X, Y), TWO), E("mmultiscripts", X, mn("1"), TWO, E("mprescripts"), mn("3"), mn("4")),
               E("mmultiscripts", mrow(X, PLUS), E("none"), TWO)])
SCRIPT_FRAMES = [f for f in FRAMES if f(X)[0] in WANT]


def spaces(tier):
    q = tier == "quick"
    res = [slots_space("pairs2", SHAPES2, OPERANDS, FEW),
           slots_space("triples", SHAPES3, OPERANDS, FEW if q else OPERANDS[:40]),
           multiscripts(4 if q else 6, [mn("1"), E("none"), mrow(X, Y)]), pairs(30 if q else 120),
           bases(3 if q else 5), attributes(),
           contexts_space("contexts", SUBJECTS, 2 if q else 3),
           nest_space("nest", SCRIPT_FRAMES, [2, 3, 7, 30] if q else list(range(2, 12)) + [20, 40, 80, 100]),
           nest_space("mixed", KIND_FRAMES, [4] if q else [4, 8, 24], (E("msup", mrow(X, Y), TWO), E("msub", X, mrow(X, Y)),
                      E("msubsup", mrow(X, Y), mrow(X, Y), TWO), E("munderover", X, mrow(X, Y), TWO))),
            *common(WANT, SUBJECTS, not q, SHAPES2 + SHAPES3),
            trees_space("trees", 5, WANT, leaves=[X, mi("α")] if q else [X, mi("α"), mi("")])]
    return res
