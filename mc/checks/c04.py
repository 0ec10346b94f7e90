"""C04: fractions and roots."""
from gen import *  # noqa: F403
from gen import (EA, FEW, FRAMES, KIND_FRAMES, OPERANDS, E, Space, X, Y, check, contexts_space, mi, mn, mo, mrow,
                 mtext, nest_space, slots_space, trees_space, common, width_space, PLUS, TWO)

RULE = ("every path of each space builds one formula with mfrac, mroot or msqrt; its LaTeX must be what the "
        "reference model says")
ASSUMPTIONS = ["operands' own LaTeX is taken from the reference model, whose symbols come from spec/symbols.json"]
WANT = {"mfrac", "mroot", "msqrt"}
SHAPES = [("mfrac", (), 2), ("mfrac", (("bevelled", "true"),), 2), ("mroot", (), 2), ("msqrt", (), 2), ("msqrt", (), 1)]
BEVEL = ["true", "false", "", "bevelled", "1", "0", "no", "yes", "TRUE", "False", "FALSE", "none", " ", "t", "null"]
OTHER = [("linethickness", "0"), ("linethickness", "2"), ("linethickness", "0pt"), ("linethickness", "thick"), ("numalign", "left"),
         ("denomalign", "right"), ("displaystyle", "true"), ("mathvariant", "bold"), ("notation", "box"), ("open", "("), ("index", "3"),
         ("degree", "3"), ("Bevelled", "true"), ("bevel", "true"), ("beveled", "true"), ("scriptlevel", "1")]


def attributes():
    ops = [X, mn("12"), mi("α"), mi(""), mrow(X, Y), mrow(X), mtext("a"), mn("2"), mrow()]

    def driver(c):
        name = c.pick(["mfrac", "mroot", "msqrt"])
        ats = []
        if c.flag():
            ats.append(("bevelled", c.pick(BEVEL)))
        if c.flag():
            ats.insert(c.choose(len(ats) + 1), c.pick(OTHER))
        return check(EA(name, tuple(ats), c.pick(ops), c.pick(ops)))
    return Space("attributes", driver, f"{len(BEVEL)} values of bevelled and {len(OTHER)} other attributes x 9 x 9 operands")


def lengths(top):
    """Operands of every length: the grouping threshold of bevelled fractions."""
    def driver(c):
        n, d = c.choose(top), c.choose(top)
        kind = c.choose(3)

        def op(k):
            return [mi("x" * k), mn("1" * k), mrow(*[X] * k)][kind]
        name, attrs = c.pick([("mfrac", (("bevelled", "true"),)), ("mfrac", ()), ("mroot", ())])
        return check(EA(name, attrs, op(n), op(d)))
    return Space("lengths", driver, f"operands of 0..{top - 1} characters or children, both sides")


SUBJECTS = [E("mfrac", X, Y), E("mfrac", mrow(X, PLUS), TWO), E("mfrac", X, mrow(X, PLUS)), E("mfrac", X, mrow(X, PLUS), bevelled="true"),
            E("mfrac", mrow(X, PLUS), Y, bevelled="true"), E("mfrac", X, Y, bevelled="false"), E("mroot", X, TWO), E("mroot", mrow(X, PLUS), mrow(X, Y)),
            E("msqrt", X), E("msqrt", X, PLUS, Y), E("msqrt"), E("msqrt", mrow(X, PLUS))]
OWN = [f for f in FRAMES if f(X)[0] in WANT]


def spaces(tier):
    q = tier == "quick"
    return [slots_space("pairs", SHAPES, OPERANDS, FEW), attributes(), lengths(14 if q else 60),
            width_space("wide", [lambda *k: E("msqrt", *k), lambda *k: E("msqrt", mrow(*k)), lambda *k: E("mfrac", mrow(*k), X),
                                 lambda *k: E("mroot", X, mrow(*k))], range(0, 60 if q else 400)),
            contexts_space("contexts", SUBJECTS, 2 if q else 3),
            nest_space("nest", OWN, [2, 3, 5, 9, 30] if q else list(range(2, 20)) + [40, 80, 100]),
            nest_space("mixed", KIND_FRAMES, [4] if q else [4, 9, 24], (E("mfrac", mrow(X, Y), Y), E("mfrac", X, mrow(X, Y), bevelled="true"),
                       E("mroot", X, Y), E("msqrt", X, Y))),
            *common(WANT, SUBJECTS, not q, SHAPES),
            trees_space("trees", 5, WANT, leaves=[X, mi("α")] if q else [X, mi("α"), mi(""), mn("12")])]
