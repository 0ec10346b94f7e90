"""C13: wrong numbers of children are reported, right ones never."""
import re

import literals
import present
import ref
from gen import (ATTRS, LOOKS, EA, FEW, FRAMES, GROUP_KINDS, ITEMS, KIND_FRAMES, LEAVES, NODES, OPERANDS, E, Space, T, X, Y, Z, doc, grow, mi, mn, mo, mrow, mtext, table, tree, PLUS, TWO)
from explore import Skip
from space import case, describe

RULE = ("every path of each space builds one formula; if an element that is shown has a wrong number of children the conversion must fail with "
        "InvalidNumberOfChildrenError naming such an element, the number required and the number found, and otherwise succeed")
ASSUMPTIONS = ["when several elements are wrong any one of them may be reported", "the message names the element and holds both numbers; its wording is free"]
ARITY = {"mfrac": 2, "mroot": 2, "msup": 2, "msub": 2, "mover": 2, "munder": 2, "msubsup": 3, "munderover": 3, "mmultiscripts": 3}


def faults(t):
    """The (name, required, found) of every shown element with a wrong number of children."""
    name, attrs, _, kids = t
    if name == "mphantom":
        return []
    res = []
    n = ARITY.get(name)
    if n is not None and (len(kids) < n or (len(kids) > n and name != "mmultiscripts")):
        res.append((name, n, len(kids)))
    if name == "maction" and dict(attrs).get("actiontype", "") not in ("", "toggle", "actiontype"):
        kids = kids[:1]
    for k in kids:
        res += faults(k)
    return res


def judge(c, out):
    fs = c["faults"]
    if not fs:
        return None if out[0] == "ok" else f"{describe(out)}, but every number of children is right"
    if out[0] != "err" or out[1] != "InvalidNumberOfChildrenError":
        return f"{describe(out)}, expected InvalidNumberOfChildrenError for one of {fs}"
    words, numbers = re.findall(r"[A-Za-z]+", out[2]), [int(n) for n in re.findall(r"\d+", out[2])]
    for name, need, got in fs:
        if name in words and sorted(numbers) == sorted([need, got]):
            return None
    return f"{describe(out)}, which is not about any of {fs}"


def build(*ts):
    return {"doc": doc(*ts), "faults": [f for t in ts for f in faults(t)]}


def space(name, driver, rule):
    return Space(name, driver, rule, judge=judge, nontrivial=lambda c: bool(c["faults"]))


def counts(top, ops):
    """Each element with 0..top children, all of one kind or one odd among them, with and without attributes."""
    def driver(c):
        name = c.pick(sorted(ARITY))
        n = c.choose(top + 1)
        k = c.pick(ops)
        kids = [k] * n
        if n > 1 and c.flag():
            kids[c.choose(n)] = c.pick([X, mi(""), mrow(), E("mprescripts"), E("none")])
        at = c.pick([(), (("bevelled", "true"),), (("accent", "true"),), (("id", "2"),), (("class", "x"), ("style", "y"))])
        return build(EA(name, at, *kids))
    return space("counts", driver, f"each element with 0..{top} children of {len(ops)} kinds, one of them replaced by 5 others, 5 sets of attributes")


def mixes(n, alphabet):
    def driver(c):
        name = c.pick(sorted(ARITY))
        return build(EA(name, (), *[c.pick(alphabet) for _ in range(c.choose(n + 1))]))
    return space("mixes", driver, f"each element with every sequence of 0..{n} children over {len(alphabet)} kinds")


WRONG = [EA(n, (), *[X] * k) for n, m in sorted(ARITY.items()) for k in (0, 1, m - 1, m + 1, 5) if k < m or (k > m and n != "mmultiscripts")]
WRONG = list(dict.fromkeys(WRONG))
RIGHT = [EA(n, (), *[X] * m) for n, m in sorted(ARITY.items())]


def contexts(depth, subs):
    def driver(c):
        t = c.pick(subs)
        for _ in range(c.choose(depth + 1)):
            t = c.pick(FRAMES)(t)
        return build(t)
    return space(f"contexts{depth}", driver, f"{len(subs)} right and wrong elements in every chain of up to {depth} of {len(FRAMES)} slots")


def slots():
    """A wrong element in each slot of each element: as base, script, annotation, ..."""
    def driver(c):
        name = c.pick(sorted(ARITY))
        n = c.pick([ARITY[name], ARITY[name] + 1])
        i = c.choose(n)
        kids = [mn(str(j)) for j in range(n)]
        kids[i] = c.pick(WRONG + RIGHT)
        if c.flag():
            kids[(i + 1) % n] = c.pick(WRONG)
        return build(EA(name, (), *kids))
    return space("slots", driver, "one or two wrong elements in each slot of each element with a right or wrong count")


def siblings(top):
    """A wrong element at each place of long rows, tables and several formulas."""
    def driver(c):
        w = c.pick(WRONG[::2])
        n = 1 + c.choose(top)
        i = c.choose(n)
        ks = [X] * n
        ks[i] = w
        lay = c.choose(7)
        t = [lambda: mrow(*ks), lambda: E("mfenced", *ks), lambda: E("mtable", *[E("mtr", E("mtd", k)) for k in ks]), lambda: table(ks),
             lambda: E("maction", *ks), lambda: E("maction", *ks, actiontype="statusline"), lambda: E("mmultiscripts", X, Y, Z, *ks)][lay]()
        return build(t)
    return space("siblings", driver, f"a wrong element at every place of rows, fences, tables, actions and scripts of up to {top} children")


def scripts(top):
    def driver(c):
        n = c.choose(top + 1)
        kids = [c.pick([X, E("none")]) for _ in range(n)]
        if n and c.flag():
            kids[c.choose(n)] = E("mprescripts")
        return build(E("mmultiscripts", *kids))
    return space("scripts", driver, f"mmultiscripts with 0..{top} children, <none/> and <mprescripts/> anywhere")


def layout():
    """Text, comments and instructions between the children are not children."""
    between = ["", " ", "\n", "<!-- c -->", "<!--<mi>x</mi>-->", "<?p?>", "text", "\t<!-- a --> <!-- b -->", "&#32;", "<![CDATA[ ]]>", "<![CDATA[<mi>x</mi>]]>"]

    def driver(c):
        name = c.pick(sorted(ARITY))
        n = c.choose(5)
        s = c.pick(between)
        where = c.choose(n + 2)
        body = "".join((s if where in (i, n + 1) else "") + "<mi>x</mi>" for i in range(n)) + (s if where in (n, n + 1) else "")
        return {"doc": f"<math><{name}>{body}</{name}></math>", "faults": faults(EA(name, (), *[X] * n))}
    return space("layout", driver, f"each element with 0..4 children and {len(between)} things that are no children between them")


def deep(depths):
    def driver(c):
        f = c.pick(KIND_FRAMES)
        t = c.pick(WRONG + RIGHT)
        return build(grow(t, [f] * c.pick(depths)))
    return space("deep", driver, f"right and wrong elements at depths {depths} of each container")


def attributes(two):
    """Attributes of the element, of its children or of what it stands in do not count as children, nor for them."""
    def driver(c):
        name = c.pick(sorted(ARITY))
        m = ARITY[name]
        n = c.pick([0, m - 1, m, m + 1])
        pairs = present.PAIRS + [(w, v) for w in literals.words() for v in ("true", "false", "2")]
        a = [c.pick(pairs)]
        if two:
            a += [p for p in [c.pick(present.PAIRS)] if p[0] != a[0][0]]
        where = c.choose(3)
        if where == 0:
            t = EA(name, a, *[X] * n)
        elif where == 1:
            t = EA(name, (), *[("mi", tuple(a), "x", ())] * n)
        else:
            t = EA("mstyle" if a[0][0] != "actiontype" else "mrow", a, EA(name, (), *[X] * n))
        return build(t)
    return space("attributes", driver, f"each element with a right or wrong count and each of {len(present.PAIRS)} presentation attributes, and those the source mentions, on it, its children or around it")


def values():
    def driver(c):
        name = c.pick(sorted(ARITY))
        m = ARITY[name]
        return build(EA(name, [(c.pick(ATTRS), c.pick(literals.texts()))], *[X] * c.pick([m - 1, m, m + 1])))
    return space("values", driver, "... and attributes with every value the source mentions")


def odd(ops):
    """One child of any kind among plain ones, at each place."""
    def driver(c):
        name = c.pick(sorted(ARITY))
        m = ARITY[name]
        n = c.pick([1, m - 1, m, m + 1, m + 2])
        kids = [mn(str(i)) for i in range(n)]
        k = c.pick(ops)
        i = c.choose(n)
        kids[i] = k
        if c.flag():
            kids[n - 1 - i] = k
        return build(EA(name, (), *kids))
    return space("odd", driver, f"each element with one or two children out of {len(ops)} at any place")


def sourced():
    """Children with texts, or of kinds, the source mentions."""
    def driver(c):
        name = c.pick(sorted(ARITY))
        m = ARITY[name]
        n = c.pick([m - 1, m, m + 1])
        if n == 0:
            raise Skip()
        kids = [X] * n
        k = c.choose(5)
        kids[c.choose(n)] = T(["mi", "mo", "mn", "mtext"][k], c.pick(literals.texts())) if k < 4 else E(c.pick(literals.words()))
        return build(EA(name, (), *kids))
    return space("source", driver, "children with texts, or of kinds, that the source mentions")


def wide(counts):
    def driver(c):
        name = c.pick(sorted(ARITY))
        n = c.pick(counts)
        return build(EA(name, (), *[c.pick([X, E("none"), mrow(X, Y), mtext("")])] * n))
    return space("wide", driver, f"each element with {len(counts)} numbers of children up to {max(counts)}")


def chains3(subs):
    """Wrong elements below three others of any kinds."""
    def driver(c):
        t = c.pick(subs)
        for _ in range(3):
            t = c.pick(KIND_FRAMES)(t)
        return build(t)
    return space("chains3", driver, f"{len(subs)} right and wrong elements in every chain of three of {len(KIND_FRAMES)} slots")


def balance(top):
    """Operands of all sizes, some of them wrong, beside each other."""
    def driver(c):
        name = c.pick(sorted(ARITY))
        n = c.pick([ARITY[name] - 1, ARITY[name], ARITY[name] + 1])
        g = c.pick(GROUP_KINDS)
        return build(EA(name, (), *[g(*ITEMS[:c.choose(top + 1)]) for _ in range(n)]))
    return space("balance", driver, f"right and wrong numbers of children that are groups of 0..{top} of {len(GROUP_KINDS)} kinds")


NODES13 = [(n, a, 0, 9) for n, a, _, _ in NODES]


def trees(n, leaves):
    def driver(c):
        return build(tree(c, 2 + c.choose(n - 1), NODES13, leaves))
    return space(f"trees{n}", driver, f"every tree of 2..{n} nodes, right or wrong, over {len(NODES13)} element shapes and {len(leaves)} leaves")


def spaces(tier):
    q = tier == "quick"
    toks = [X, mi(""), mtext("a"), E("mspace"), mrow(), mrow(X, Y), E("mphantom", X), E("mfrac", X, Y), mo("^"), E("foo")]
    more = [attributes(not q), values(), odd(LOOKS + OPERANDS), sourced(), wide([9, 10, 11, 12, 13, 16, 20, 22, 23, 32, 33, 64, 100, 101, 128, 129, 200, 255, 256, 257, 258, 259, 260, 500, 512, 1000, 1024, 2000] + [k for k in literals.sizes() if k < 3000])]
    more += [chains3([E("msup", X), E("mfrac", X, Y, Z), E("msubsup", X, Y), E("munderover", X, Y, Z)] if q else WRONG), balance(3 if q else 5)]
    return more + [counts(8 if q else 40, toks), mixes(4, [X, mrow(X, Y), mi(""), mo("^"), E("none")] if q else toks), slots(), siblings(9 if q else 40),
            scripts(6 if q else 10), layout(), deep([1, 3, 10, 40] if q else list(range(1, 20)) + [50, 90]), contexts(2, WRONG[::3] + RIGHT) if q else contexts(2, WRONG + RIGHT),
            trees(4, LEAVES[:2])] + ([] if q else [contexts(3, WRONG[::6]), trees(5, LEAVES[:2])])
