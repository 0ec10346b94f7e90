"""C07: enclosures, errors, actions, phantoms."""
from gen import *  # noqa: F403
from gen import (EA, FEW, FRAMES, KIND_FRAMES, OPERANDS, E, Space, X, Y, Z, check, contexts_space, mi, mn, mo, mrow,
                 mtext, nest_space, slots_space, table, trees_space, common, width_space, PLUS, TWO)
import ref

RULE = ("every path of each space builds one formula with menclose, merror, maction or mphantom; its LaTeX must be "
        "what the reference model says")
ASSUMPTIONS = ["operands' own LaTeX is taken from the reference model, whose symbols come from spec/symbols.json"]
WANT = {"menclose", "merror", "maction", "mphantom"}
NOTATIONS = sorted(ref.ENCLOSE) + ["longdiv", "", "notation", "unknown", "Box", "BOX", "box ", " box", "box circle", "left right", "top bottom", "righttop",
                                   "none", "horizontal", "strike", "arrow", "updiagonal", "phasorangle ", "diagonalstrike", "overline",
                                   "northeastarrow", "leftright", "round", "madrub"]
ACTIONS = ["toggle", "", "statusline", "tooltip", "highlight", "input", "actiontype", "Toggle", "TOGGLE", "toggle ", "none", "menu", "xtoggle"]


def notations(ops, top):
    def driver(c):
        at = c.pick([None] + NOTATIONS)
        n = c.choose(top + 1)
        attrs = () if at is None else (("notation", at),)
        extra = c.pick([(), (("class", "box"),), (("actiontype", "toggle"),)])
        if c.flag():
            attrs = extra + attrs
        else:
            attrs = attrs + extra
        return check(EA("menclose", attrs, *[c.pick(ops) for _ in range(n)]))
    return Space("notations", driver, f"{len(NOTATIONS)} notations and none x 0..{top} children from {len(ops)} operands")


def actions(ops, top):
    def driver(c):
        at = c.pick([None] + ACTIONS)
        n = c.choose(top + 1)
        attrs = () if at is None else (("actiontype", at),)
        extra = c.pick([(), (("selection", "1"),), (("selection", "2"),), (("notation", "box"),)])
        return check(EA("maction", attrs + extra, *[c.pick(ops) for _ in range(n)]))
    return Space("actions", driver, f"{len(ACTIONS)} action types and none x selection x 0..{top} children from {len(ops)} operands")


def hidden(depth):
    """What is hidden may be anything, also elements with a wrong number of children."""
    stuff = OPERANDS + [E("mfrac", X), E("msup", X), E("msub"), E("msubsup", X, Y), E("mover"), E("munder", X), E("mmultiscripts", X),
                        E("mroot", X, Y, Z), E("munderover", X, Y)]

    def driver(c):
        t = c.pick(stuff)
        for _ in range(c.choose(depth + 1)):
            t = c.pick(KIND_FRAMES)(t)
        w = c.choose(6)
        t = [E("mphantom", t), E("maction", X, t, actiontype="tooltip"), mrow(X, E("mphantom", t, t)), E("maction", X, Y, t, actiontype="statusline"),
             E("msup", E("mphantom", t), TWO), table([E("mphantom", t), X])][w]
        return check(t)
    return Space("hidden", driver, f"{len(stuff)} contents, valid or not, under up to {depth} containers, inside a phantom or a hidden branch")


SUBJECTS = ([E("menclose", X, Y, notation=n) for n in sorted(ref.ENCLOSE)] + [E("menclose", X, Y), E("merror", X, Y), E("merror"), E("maction", X, Y),
            E("maction", X, Y, actiontype="tooltip"), E("maction", X, Y, actiontype="toggle"), E("mphantom", X, Y), E("mphantom"),
            E("maction", actiontype="tooltip"), E("maction", E("mphantom", X), Y)])
OWN = [f for f in FRAMES if f(X)[0] in WANT] + [lambda t, n=n: E("menclose", t, notation=n) for n in sorted(ref.ENCLOSE)]


def spaces(tier):
    q = tier == "quick"
    return [notations([X, mi("α"), mi(""), mrow(X, Y), E("mfrac", X, Y)], 2 if q else 3), actions(FEW[:8] if q else FEW[:14], 3),
            slots_space("errors", [("merror", (), 1), ("merror", (), 2), ("menclose", (), 1), ("maction", (), 2), ("mphantom", (), 2),
                                   ("maction", (("actiontype", "tooltip"),), 2)] + [("menclose", (("notation", n),), 1) for n in sorted(ref.ENCLOSE)],
                        OPERANDS, FEW),
            hidden(1 if q else 2),
            width_space("wide", [lambda *k: E("merror", *k), lambda *k: E("maction", *k), lambda *k: E("maction", *k, actiontype="tooltip"),
                                 lambda *k: E("menclose", *k), lambda *k: E("menclose", *k, notation="box"), lambda *k: E("mphantom", *k)],
                        range(0, 50 if q else 300)),
            contexts_space("contexts", SUBJECTS, 2 if q else 3),
            nest_space("nest", OWN, [2, 3, 9, 30] if q else list(range(2, 16)) + [40, 80, 100]),
            *common(WANT, SUBJECTS, not q, [("menclose", (), 1), ("merror", (), 2), ("maction", (), 2), ("maction", (("actiontype", "tooltip"),), 2)] + [("menclose", (("notation", n),), 1) for n in sorted(ref.ENCLOSE)]),
            trees_space("trees", 5, WANT, leaves=[X] if q else [X, mi("α"), mi("")])]
