"""C03: over and under."""
from gen import *  # noqa: F403
from gen import (EA, FEW, FRAMES, KIND_FRAMES, OPERANDS, E, Space, T, X, Y, check, contexts_space, mi, mn, mo, mrow,
                 mtext, nest_space, slots_space, trees_space, common, PLUS)
import ref

RULE = ("every path of each space builds one formula with mover or munder; its LaTeX must be what the reference "
        "model (accent command on the base, or overset / underset) says")
ASSUMPTIONS = ["operands' own LaTeX is taken from the reference model, whose symbols come from spec/symbols.json"]
WANT = {"mover", "munder"}
SHAPES = [("mover", (), 2), ("munder", (), 2)]
ACCENT_TOKENS = [t for k in ("mo", "mi") for t, v in sorted(ref.SYMBOLS[k].items()) if v in ref.ACCENTS
                 for t in [T(k, t)]]
NEAR = [mo("^^"), mo("\\hat"), mi("\\hat"), mtext("^"), mo("ˆ"), mi("ˆ"), mo("‾"), mo("˜"), mo("~"), mo("→"), mo("⃗"), mo("."), mo("¨"),
        mo("˙"), mo("ˇ"), mo("˘"), mo("´"), mo("`"), mo("_"), mo("̲"), mo("⏟"), mo("⏞"), mo("︷"), mo("︸"), mo("*"), mo("⌢"), mi("hat"),
        mi("bar"), mo("-"), mo("="), mn("^"), mo(""), mrow(), E("mspace")]


def annotations(tier):
    """Every token of the operator dictionary as annotation."""
    marks = sorted(ref.SYMBOLS["mo"])
    bases = [X, mrow(X, Y)] if tier == "quick" else [X, mrow(X, Y), mi("α"), mi(""), mtext("ab")]

    def driver(c):
        m = c.pick(marks)
        return check(E(c.pick(["mover", "munder"]), c.pick(bases), T(c.pick(["mo", "mi"]), m)))
    return Space("annotations", driver, f"each of the {len(marks)} dictionary operators above and below a base")


def accents():
    """Accents as they are, in groups that keep or spoil them, with attributes, as the base."""
    groups = [lambda t: t, lambda t: mrow(t), lambda t: mrow(mrow(t)), lambda t: mrow(t, t), lambda t: E("mstyle", t),
              lambda t: E("mpadded", t), lambda t: E("math", t), lambda t: mrow(mi(""), t), lambda t: mrow(t, mi("")),
              lambda t: E("mphantom", t), lambda t: E("maction", t), lambda t: E("msqrt", t), lambda t: E("mtd", t),
              lambda t: E("msub", t, mn("1")), lambda t: E("mtable", E("mtr", t)), lambda t: E("foo", t)]
    ats = [(), (("accent", "true"),), (("accent", "false"),), (("accentunder", "true"),), (("align", "left"),),
           (("mathvariant", "bold"),), (("accent", "accent"),)]

    def driver(c):
        a = c.pick(ACCENT_TOKENS + NEAR)
        a = c.pick(groups)(a)
        b = c.pick([X, mrow(X, PLUS, Y), mi(""), mo("^"), mtext("a b"), E("mover", X, mo("^")), E("munder", X, Y), E("mfrac", X, Y)])
        name = c.pick(["mover", "munder"])
        ats_ = c.pick(ats)
        return check(EA(name, ats_, b, a))
    return Space("accents", driver, f"{len(ACCENT_TOKENS)} accents and {len(NEAR)} near ones in {len(groups)} groups, over and under 8 bases, "
                 f"with {len(ats)} attributes")


SUBJECTS = [E(n, b, a) for n in ("mover", "munder") for b in (X, mrow(X, PLUS))
            for a in (Y, mrow(X, PLUS), mo("^"), mo("¯"), mo("⏟"), mo("⏞"), mo("→"))]
OWN = [f for f in FRAMES if f(X)[0] in WANT]


def spaces(tier):
    q = tier == "quick"
    return [slots_space("pairs", SHAPES, OPERANDS + NEAR + ACCENT_TOKENS[:6], FEW), annotations(tier), accents(),
            contexts_space("contexts", SUBJECTS, 2 if q else 3),
            nest_space("nest", OWN, [2, 3, 5, 9, 30] if q else list(range(2, 20)) + [40, 80, 100]),
            nest_space("mixed", KIND_FRAMES, [4] if q else [4, 9, 24], (E("mover", X, mo("^")), E("munder", mrow(X, Y), mrow(X, Y)),
                       E("mover", mrow(X, Y), Y))),
            *common(WANT, SUBJECTS, not q, SHAPES),
            trees_space("trees", 5, WANT, leaves=[X, mo("^")] if q else [X, mo("^"), mi("α"), mi("")])]
