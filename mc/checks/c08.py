"""C08: grouping is transparent, unrelated attributes are ignored."""
from gen import *  # noqa: F403
from gen import (ATTRS, CONTAINERS, EA, FEW, FRAMES, KIND_FRAMES, OPERANDS, TOKENS, E, Space, T, X, Y, Z, check, contexts_space, doc, mi, mn, mo, mrow,
                 mtext, nest_space, slots_space, table, trees_space, alike_space, twins_space, width_space, PLUS, TWO)
from explore import Skip
from space import case
import literals
import present
import ref

RULE = ("every path of each space builds one formula with grouping elements or unrelated attributes; its LaTeX must "
        "be that of the reference model, in which these add nothing")
ASSUMPTIONS = ["the attributes the conversion uses are mathvariant (mi, mtext), open, close, separators (mfenced), bevelled (mfrac), actiontype "
               "(maction) and notation (menclose)"]
GROUPS = ["mrow", "mpadded", "mstyle", "semantics", "mtd", "foo", "mlabeledtr", "mglyph", "annotation", "annotation-xml", "none", "mspace",
          "maligngroup", "malignmark", "mstack", "mlongdiv", "msgroup", "msrow", "mscarries", "mscarry", "msline", "ms", "mscarryx", "Mi", "MI",
          "mathx", "m", "mii", "msupp", "mfence", "mfracx", "mtext2", "mth", "mtbody", "div", "span", "p", "apply", "ci", "cn", "bvar", "lambda",
          "void", "Void", "x.y", "x-y", "_", "é", "mprescripts", "menclosed", "msqrtt", "munders", "movers", "mrows", "multiscripts", "MROW",
          "mroww", "mo2", "mn2", "a", "sup", "sub", "table", "tr", "td", "frac", "matrix"]
USED = {"mi": ["mathvariant"], "mtext": ["mathvariant"], "mfenced": ["open", "close", "separators"], "mfrac": ["bevelled"],
        "maction": ["actiontype"], "menclose": ["notation"]}
NAMES = ["id", "class", "style", "href", "dir", "display", "displaystyle", "scriptlevel", "mathcolor", "mathbackground", "mathsize", "mathvariant",
         "fontfamily", "fontweight", "fontstyle", "color", "background", "form", "fence", "separator", "separators", "lspace", "rspace", "stretchy",
         "symmetric", "maxsize", "minsize", "largeop", "movablelimits", "accent", "accentunder", "linethickness", "numalign", "denomalign", "bevelled",
         "open", "close", "notation", "actiontype", "selection", "width", "height", "depth", "voffset", "subscriptshift", "superscriptshift", "align",
         "rowalign", "columnalign", "groupalign", "alignmentscope", "columnwidth", "rowspacing", "columnspacing", "rowlines", "columnlines", "frame",
         "framespacing", "equalrows", "equalcolumns", "side", "minlabelspacing", "rowspan", "columnspan", "edge", "encoding", "definitionURL", "src",
         "alt", "xref", "lquote", "rquote", "indentalign", "linebreak", "title", "name", "value", "type", "tag", "text", "children", "data-x", "xml:lang",
         "other", "infixlinebreakstyle", "decimalpoint", "nargs", "scriptminsize", "longdivstyle", "position", "shift", "crossout", "a", "x1",
         "tabindex", "onclick", "role", "aria-hidden", "variant", "Mathvariant", "MATHVARIANT", "math-variant", "OPEN", "Notation", "innerTable", "inner", "isInner", "table"]
VALUES = ["true", "false", "bold", "", "0", "box", "[", "A B", "toggle", "≠<&", "1em", "prefix", "script", "left", "monospace", "none", "hidden", "block",
          "visibility:hidden", "\\x{", "normal", "center", "circle", ",", "statusline", "rtl", "ltr", "1", "infix", "inline", "red", "2", "right", "en", "infinity",
          "#000", "0pt", "-1", "TRUE", "postfix", "html", "(", "x", "α", "innerTable", "inner table"]


def tag(t, who, ats):
    """The attributes put on every element `who` of the term that has none of that name."""
    n, at, x, kids = t
    new = tuple(a for a in ats if a[0] not in dict(at) and a[0] not in USED.get(n, ())) if who in (n, "*") else ()
    return (n, at + new, x, tuple(tag(k, who, ats) for k in kids))


SAMPLES = [X, mn("2"), mo("+"), mi("α"), mtext("a &"), mi("x", mathvariant="bold"), mrow(X, Y), E("msqrt", X, Y), E("mroot", X, Y), E("mfrac", X, Y),
           E("mfrac", X, mrow(Y, Z), bevelled="true"), E("msup", mrow(X, Y), TWO), E("msub", X, TWO), E("msubsup", X, Y, TWO), E("mover", X, mo("^")),
           E("munder", X, Y), E("munderover", mo("∑"), X, Y), E("mmultiscripts", X, Y, TWO, E("mprescripts"), Y, E("none")), E("mfenced", X, Y, Z),
           E("mfenced", X, Y, Z, open="[", close="]", separators=";|"), table([X, Y], [Z, TWO]), E("mfenced", table([X, Y]), open="(", close=")"),
           table([table([X])]), E("menclose", X, Y), E("menclose", X, notation="box"), E("maction", X, Y), E("maction", X, Y, actiontype="tooltip"),
           E("merror", X), E("mphantom", X), E("mpadded", X), E("mstyle", X), E("semantics", X), E("foo", X), E("math", X), E("mspace"), mo("("), mo("∑")]


def one_attribute():
    def driver(c):
        t = c.pick(SAMPLES)
        a = (c.pick(NAMES), c.pick(VALUES))
        who = c.pick(sorted({n for n in ref_names(t)}))
        return check(tag(t, who, [a]))
    return Space("attribute", driver, f"{len(NAMES)} attributes x {len(VALUES)} values on each kind of element of {len(SAMPLES)} formulas")


def ref_names(t):
    yield t[0]
    for k in t[3]:
        yield from ref_names(k)


def math_attribute():
    """... on the math element itself, and name = value."""
    def driver(c):
        t = c.pick(SAMPLES)
        n = c.pick(NAMES + ["xmlns", "xmlns:m"])
        uri = ["http://www.w3.org/1998/Math/MathML", "urn:x"]
        v = c.pick(uri if n.startswith("xmlns") else VALUES + [n, uri[0], "inline"])
        top = EA("math", ((n, v),), t)
        from term import xml
        return case(xml(top), ref.outcome(t))
    return Space("math", driver, "the same attributes on the math element")


def two_attributes():
    vals = ["true", "bold", "[", "0"]

    def driver(c):
        t = c.pick(SAMPLES)
        i = c.choose(len(NAMES))
        j = c.choose(len(NAMES))
        if j == i:
            raise Skip()
        ats = [(NAMES[i], c.pick(vals)), (NAMES[j], "x")]
        return check(tag(t, "*", ats))
    return Space("attributes2", driver, "two attributes on all elements")


def many_attributes():
    def driver(c):
        t = c.pick(SAMPLES)
        n = 1 + c.choose(len(NAMES))
        v = c.pick(["true", "x", ""])
        ats = [(a, v) for a in NAMES[:n]]
        return check(tag(t, "*", ats))
    return Space("many", driver, f"the first 1..{len(NAMES)} attributes together on all elements")


def groups(ops):
    def driver(c):
        g = c.pick(GROUPS)
        n = 1 + c.choose(3)
        kids = [c.pick(ops) for _ in range(n)]
        return check(E(g, *kids)) if c.flag() else check(mrow(X, E(g, *kids), Y))
    return Space("groups", driver, f"{len(GROUPS)} grouping and unknown elements with 1..3 children from {len(ops)} operands")


def wrapped(depth):
    """Every element wrapped in chains of groups (one child: the context must not notice)."""
    gs = ["mrow", "mstyle", "mpadded", "semantics", "mtd", "foo", "annotation-xml", "mlabeledtr"]

    def driver(c):
        t = c.pick(OPERANDS)
        for _ in range(1 + c.choose(depth)):
            t = E(c.pick(gs), t)
        f = c.choose(len(KIND_FRAMES) + 1)
        if f:
            t = KIND_FRAMES[f - 1](t)
        return check(t)
    return Space("wrapped", driver, f"{len(OPERANDS)} operands in chains of up to {depth} of {len(gs)} groups, in every kind of container")


def presentation(samples, two):
    def driver(c):
        t = c.pick(samples)
        a = c.pick(present.PAIRS)
        who = c.pick(sorted(set(ref_names(t))) + ["*"])
        t = tag(t, who, [a] + ([c.pick(present.PAIRS)] if two else []))
        return check(t) if c.flag() else check(mrow(Y, t, E("msup", t, TWO)))
    return Space("presentation2" if two else "presentation", driver, f"{len(present.PAIRS)} attributes with real values on each kind of element of {len(samples)} formulas, "
                 "alone and in a row" + (", two at a time" if two else ""))


def sourced(samples, names):
    """Names and values the source mentions (see literals.py) as attributes and as unknown elements."""
    def driver(c):
        t = c.pick(samples)
        who = c.pick(sorted(set(ref_names(t))) + ["*"]) if len(t[3]) < 9 else "*"
        if c.flag():
            return check(tag(t, who, [(c.pick(literals.words()), c.pick(["true", "false", "", "0", "none", "hidden", "x"]))]))
        return check(tag(t, who, [(c.pick(names), c.pick(literals.texts()))]))
    return Space("source-attributes", driver, f"{len(samples)} formulas with attributes whose name or value the source mentions")


def named(ops):
    known = {"math", "mi", "mo", "mn", "mtext", "mprescripts"}

    def driver(c):
        ws = literals.words()
        g = c.pick([w for w in ws if w not in known] + [v for w in ws if w.islower() for v in (w.capitalize(), w + "s", "m" + w) if v not in known])
        n = 1 + c.choose(3)
        kids = [c.pick(ops) for _ in range(n)]
        return check(E(g, *kids)) if c.flag() else check(mrow(X, E("mstyle", E(g, *kids)), Y))
    return Space("source-names", driver, "elements whose name, or nearly whose name, the source mentions")


def spaces(tier):
    q = tier == "quick"
    res = [one_attribute(), math_attribute(), many_attributes(), groups(FEW[:9] if q else FEW[:16]), wrapped(2 if q else 3),
           width_space("wide", [lambda *k, g=g: E(g, *k) for g in GROUPS[:10]], range(1, 40 if q else 200)),
           nest_space("nest", [lambda t, g=g: E(g, t) for g in GROUPS[:12]] + [lambda t, g=g: E(g, X, t) for g in GROUPS[:6]],
                      [2, 5, 12, 50, 100]),
           twins_space([E(g, X, Y) for g in GROUPS] + [E(g) for g in GROUPS[:3]] + [X]),
           trees_space("trees", 5, {"mstyle", "mrow", "mtd"}, leaves=[X])]
    res += [presentation(SAMPLES, False), sourced([mrow(*SAMPLES[:19]), mrow(*SAMPLES[19:]), X, E("msup", mrow(X, Y), TWO)] if q else SAMPLES, ATTRS if q else NAMES), named(FEW[:3] if q else FEW[:6])]
    more = common({"mrow", "mstyle", "mtd", "mpadded", "semantics", "foo"}, [E(g, X, Y) for g in GROUPS[:12]], not q)
    more.append(places_space({u[0] for u in USERS}))
    res += [m for m in more if m.name not in {r.name for r in res}]
    if not q:
        res.append(presentation(SAMPLES, True))
        res.append(two_attributes())
    return res
