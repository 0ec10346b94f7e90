"""C06: tables and matrices."""
from gen import *  # noqa: F403
from gen import (EA, FEW, FRAMES, KIND_FRAMES, OPERANDS, E, Space, X, Y, Z, check, contexts_space, mi, mn, mo, mrow,
                 mtext, nest_space, table, trees_space, common, PLUS, TWO)
from checks.c05 import DELIMS, fence

RULE = ("every path of each space builds one formula with a table; its LaTeX must have the rows, cells, inner matrix "
        "environments and matrix commands of the reference model")
ASSUMPTIONS = ["operands' own LaTeX is taken from the reference model, whose symbols come from spec/symbols.json"]
WANT = {"mtable", "mtr", "mtd"}
T1, T22 = table([X]), table([X, Y], [Z, mn("1")])


def shapes(rows, cols):
    """Ragged tables: every sequence of row lengths."""
    def driver(c):
        r = c.choose(rows + 1)
        n = 0
        body = []
        for _ in range(r):
            row = []
            for _ in range(c.choose(cols + 1)):
                n += 1
                row.append(E("mtd", mn(str(10 + n))))
            body.append(E("mtr", *row))
        t = E("mtable", *body)
        w = c.choose(4)
        t = [t, fence([t], open="[", close="]"), fence([t]), E("mrow", mo("{"), t)][w]
        return check(t)
    return Space("shapes", driver, f"every table of 0..{rows} rows of 0..{cols} cells each, bare, in a fence, beside a brace")


def big(sizes):
    def driver(c):
        r, k = c.pick(sizes), c.pick(sizes)
        t = table(*[[mn(f"{i}.{j}") for j in range(k)] for i in range(r)])
        w = c.choose(3)
        return check([t, fence([t], open="(", close=")"), table([t])][w])
    return Space("big", driver, f"tables of {list(sizes)} x {list(sizes)} cells")


def fences(tables):
    def driver(c):
        o, k = c.pick([None] + DELIMS), c.pick([None] + DELIMS)
        seps = c.pick([None, ";"])
        kids = c.pick(tables)
        return check(fence(kids, open=o, close=k, separators=seps))
    return Space("fences", driver, f"every pair of {len(DELIMS)} delimiters (and absent) around {len(tables)} contents with a table")


FENCED = [(T1,), (T22,), (mrow(T22),), (X, T1), (T1, X), (T1, T1), (E("mstyle", mrow(T1)),), (E("msup", T1, X),), (E("mtable"),),
          (fence([T1], open="["),), (E("mtr", E("mtd", T1)),), (E("mphantom", T1),), (E("mfrac", X, table([fence([X])])),)]
BETWEEN = [None] + [f for f in KIND_FRAMES]


def between(depth):
    """A table inside a table with every chain of containers between them, the outside bare or inside more."""
    def driver(c):
        t = c.pick([T1, T22, fence([T22], open="[", close="]")])
        for _ in range(c.choose(depth + 1)):
            t = c.pick(KIND_FRAMES)(t)
        t = [lambda: table([t]), lambda: table([X, t]), lambda: table([X], [t]), lambda: E("mtable", t), lambda: E("mtable", E("mtr", t)),
             lambda: table([t, T1]), lambda: fence([t], open="(", close=")"), lambda: fence([X, t], open="{", close="")][c.choose(8)]()
        if c.flag():
            t = c.pick([lambda t: table([t]), lambda t: mrow(X, t, T1), lambda t: fence([t], open="|", close="|"), lambda t: E("mfrac", t, T1)])(t)
        return check(t)
    return Space("between", driver, f"tables inside tables and fences with every chain of up to {depth} of {len(KIND_FRAMES)} containers between, "
                 "bare or inside another")


def cells(ops):
    def driver(c):
        a, b = c.pick(ops), c.pick(ops)
        lay = c.choose(6)
        t = [lambda: table([a, b]), lambda: table([a], [b]), lambda: E("mtable", E("mtr", E("mtd", a, b))), lambda: E("mtable", a, b),
             lambda: E("mtable", E("mtr", a, b)), lambda: E("mtable", E("mlabeledtr", E("mtd", a), E("mtd", b)))][lay]()
        return check(t)
    return Space("cells", driver, f"two cells from {len(ops)} operands in six layouts")


def attributes():
    names = ["mtable", "mtr", "mtd", "mfenced"]
    ats = [("columnalign", "left"), ("rowalign", "top"), ("columnlines", "solid"), ("rowlines", "dashed"), ("frame", "solid"), ("rowspan", "2"),
           ("columnspan", "2"), ("equalrows", "true"), ("side", "left"), ("displaystyle", "true"), ("open", "["), ("close", "]"), ("notation", "box"),
           ("separators", "|"), ("bevelled", "true"), ("mathvariant", "bold"), ("align", "center"), ("width", "10"), ("groupalign", "left"),
           ("class", "matrix"), ("actiontype", "x"), ("mtable", "mtable")]

    def driver(c):
        who, a = c.pick(names), c.pick(ats)
        inner = c.flag()

        def put(t):
            n, at, x, kids = t
            return (n, at + ((a,) if n == who and a[0] not in dict(at) else ()), x, tuple(map(put, kids)))
        t = table([X, table([X])], [mi("α"), fence([Y, Z])]) if inner else T22
        t = fence([t], **c.pick([{"open": "(", "close": ")"}, {"open": "|", "close": ""}, {}])) if c.flag() else t
        return check(put(t))
    return Space("attributes", driver, f"{len(ats)} attributes on all {names} of a table, nested table and fenced table")


def documents():
    """Tables in several formulas and side by side: one table's nesting must not show in another."""
    parts = [T1, T22, table([T1]), fence([T1], open="(", close=")"), mrow(T1, T1), X]

    def driver(c):
        n = 1 + c.choose(4)
        return check(*[c.pick(parts) for _ in range(n)])
    return Space("siblings", driver, f"every sequence of up to 4 of {len(parts)} tables side by side")


OWN = [f for f in FRAMES if f(X)[0] in WANT | {"mfenced"}] + [lambda t: mrow(t)]


def spaces(tier):
    q = tier == "quick"
    return [shapes(3, 3) if q else shapes(4, 5), big([1, 2, 3, 7, 10, 11, 20, 33] if q else list(range(1, 16)) + [24, 40, 64]), fences(FENCED), between(2 if q else 3),
            cells(OPERANDS if not q else OPERANDS[::2] + FEW), attributes(), documents(),
            contexts_space("contexts", [T22, table([T1, X]), fence([T22], open="[", close="]"), fence([X, T1]), fence([mrow(T1)], open="|", close="|")],
                           2 if q else 3),
            nest_space("nest", OWN, [2, 3, 5, 9, 20] if q else list(range(2, 16)) + [40, 80], (X, T1)),
            *common(WANT, [T22, table([T1, X]), fence([T22], open="[", close="]"), fence([X, T1]), fence([mrow(T1)], open="|", close="|"), table([X], [X]), X], not q, [("mtable", (), 2), ("mtr", (), 2), ("mtd", (), 2)]),
            trees_space("trees", 5, WANT, leaves=[X] if q else [X, mi("α"), mi("")])]
