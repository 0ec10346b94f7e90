"""C15: layout white space."""
import impl
import literals
import present
import ref
from explore import Skip
from gen import E, EA, Space, T, X, Y, Z, FRAMES, OPERANDS, TOKENS, doc, mi, mn, mo, mrow, mtext, table, TWO
from space import agree, case
from spell import GAPS, SPACES, Plain
from term import esc, esca

RULE = ("every path of each space lays out one document; the LaTeX must be that of the reference model for the plain document, without line breaks, "
        "tabs, double spaces or white space at its ends")
ASSUMPTIONS = ["white space is space, tab, LF, CR and CRLF"]

DOCS = [
    E("math", X, mo("+"), Y),
    E("math", mtext("if a b"), mi("α"), display="block", id="m1"),
    E("math", E("mfenced", X, Y, Z, open="[", close="]", separators=";,")),
    E("math", E("msup", mrow(X, mo("-"), Y), TWO)),
    E("math", table([X, Y], [Z, TWO])),
    E("math", E("mmultiscripts", X, E("none"), TWO, E("mprescripts"), Y, Z)),
    E("math", E("mfrac", mi("a b", mathvariant="bold"), mn("1 000"), bevelled="true")),
    E("math", E("msqrt"), E("mspace", width="1em"), E("mi")),
    E("math", mtext("α b, c&d", mathvariant="bold"), mo("<")),
    E("math", E("mover", X, mo("^")), E("menclose", Y, notation="box")),
    E("html", E("math", mi("α")), E("p", E("math", mi("b"))), E("math")),
    E("math", E("maction", X, Y, actiontype="toggle"), E("mphantom", Z), E("math", X)),
]


class Layout(Plain):
    def between(self):
        return self.pick(SPACES)

    def text(self, s):
        words = s.split(" ")
        out = self.pick(SPACES) + esc(words[0])
        for w in words[1:]:
            out += self.pick([" ", "  ", "\n", "\r\n", "\t", " \r "]) + esc(w)
        return out + self.pick(SPACES)

    def gap(self):
        return self.pick(GAPS)

    def attr(self, k, v):
        return k + self.pick(["", " ", "\n"]) + "=" + self.pick(["", " ", "\r\n", "\t"]) + f'"{esca(v)}"'

    def tag_end(self, name):
        return self.pick(["", " ", "\n", "\t", "\r\n"])

    def end_tag(self, name):
        return f"</{name}" + self.pick(["", " ", "\n", "\t"]) + ">"

    def empty(self, name):
        return self.pick(["/>", f"></{name}>", f"> </{name}>", f">\n\t</{name}>"])

    def prolog(self):
        return self.pick(SPACES)

    epilog = prolog


class Uniform(Layout):
    """The same choice at every place."""

    def __init__(self, k):
        self.k = k

    def pick(self, options):
        return options[self.k % len(options)]


def judge(c, out):
    m = agree(c["expect"], out)
    if m is None and out[0] == "ok":
        s = out[1]
        if s != s.strip() or any(w in s for w in ("\n", "\r", "\t", "  ")):
            return f"the output {s!r} has spare white space"
    return m


def expect(t):
    from xmldoc import formulas
    try:
        return ("ok", " ".join(x for x in (ref.norm(ref.raw(m)) for m in formulas(t)) if x))
    except ref.Arity as e:
        return ("arity", e.name, e.need, e.got)


def deviations(docs, bound, name="layouts"):
    def driver(c):
        t = c.pick(docs)
        return case(Layout(c).document(t), expect(t))
    return Space(name, driver, f"{len(docs)} documents with up to {bound} white space insertions or replacements", bound=bound, judge=judge)


def uniform():
    docs = DOCS + [E("math", o) for o in OPERANDS] + [E("math", f(o)) for f in FRAMES for o in (X, mtext("a b"), mrow(X, Y))]

    def driver(c):
        t = c.pick(docs)
        return case(Uniform(c.choose(24)).document(t), expect(t))
    return Space("uniform", driver, f"{len(docs)} documents with white space at all places at once", judge=judge)


def pretty():
    """Indented layouts, with each line break and indentation, of formulas at two levels of nesting."""
    def lay(t, nl, ind, k):
        name, attrs, text, kids = t
        a = "".join(f' {n}="{esca(v)}"' for n, v in attrs)
        pad = nl + ind * k
        if not kids:
            return pad + f"<{name}{a}>" + esc(text) + f"</{name}>"
        return pad + f"<{name}{a}>" + "".join(lay(x, nl, ind, k + 1) for x in kids) + pad + f"</{name}>"

    def driver(c):
        t = c.pick(FRAMES)(c.pick(OPERANDS))
        nl, ind = c.pick(["\n", "\r\n", "\r", " ", ""]), c.pick(["", " ", "\t", "    "])
        return case(lay(E("math", t), nl, ind, 0), ref.outcome(t))
    return Space("pretty", driver, "operands in every slot, pretty-printed with every line break and indentation", judge=judge)


def token_text(n):
    """White space inside and around token text, every string over letters and white space."""
    alphabet = ["a", "α", " ", "\n", "\t", "\r", "+"]

    def driver(c):
        kind = c.pick(["mi", "mo", "mn", "mtext"])
        s = "".join(c.pick(alphabet) for _ in range(1 + c.choose(n)))
        return case(f"<math><{kind}>{s}</{kind}></math>", ref.outcome(T(kind, s)))
    return Space("tokens", driver, f"every token text of 1..{n} characters over letters, an operator and four white space characters", judge=judge)


def amounts(top):
    ws = [" ", "\n", "\t", "\r\n", " \n"]

    def driver(c):
        w = c.pick(ws) * c.pick(list(range(top)) + [199, 200, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 2000, 2048, 4096, 4097, 5000, 8192, 10000])
        where = c.choose(7)
        b = [""] * 7
        b[where] = w
        d = (f'{b[0]}<math{b[1]} id="x"{b[2]}>{b[3]}<mi>{b[4]}α</mi>{b[5]}<mtext>a{b[6]} b</mtext></math>')
        return case(d, ("ok", "\\alpha \\text{a b}"))
    return Space("amounts", driver, f"up to {top - 1} white space characters of 5 kinds in each of 7 places", judge=judge)


def indents(top, lengths):
    """White space of each length before any of the children, and after the last."""
    make = [lambda b: f"<mrow>{b}</mrow>", lambda b: f"<msqrt>{b}</msqrt>", lambda b: f"<mfenced>{b}</mfenced>", lambda b: b, lambda b: f"<mtable><mtr>{b}</mtr></mtable>", lambda b: f"<maction>{b}</maction>",
            lambda b: f"<mfrac>{b}</mfrac>", lambda b: f"<msubsup>{b}</msubsup>", lambda b: f"<mmultiscripts>{b}</mmultiscripts>", lambda b: f"<mstyle><mfrac>{b}</mfrac></mstyle>"]
    terms = [lambda k: mrow(*k), lambda k: E("msqrt", *k), lambda k: E("mfenced", *k), lambda k: mrow(*k), lambda k: E("mtable", E("mtr", *k)), lambda k: E("maction", *k), lambda k: E("mfrac", *k), lambda k: E("msubsup", *k),
             lambda k: E("mmultiscripts", *k), lambda k: E("mstyle", E("mfrac", *k))]

    def driver(c):
        i = c.choose(len(make))
        n = 2 if i in (6, 9) else 3 if i in (7, 8) else 1 + c.choose(top)
        w = c.pick([" ", "\t", "\n", "\n ", "\r\n\t"])
        w = (w[:-1] + w[-1] * c.pick(lengths)) if len(w) > 1 else w * c.pick(lengths)
        m = 1 + c.choose(2 ** (n + 1) - 1)
        ks = [[mi("α"), mn("2"), mtext("a b"), mo("+")][j % 4] for j in range(n)]
        from term import xml
        body = "".join((w if m >> j & 1 else "") + xml(k) for j, k in enumerate(ks)) + (w if m >> n & 1 else "")
        d = make[i](body)
        return case(f"<math>{d}</math>", ref.outcome(terms[i](ks)))
    return Space("indents", driver, f"10 elements with up to {top} children and white space of {len(lengths)} lengths before any of them and after the last", judge=judge)


def output():
    """No spare white space in the output: empty things everywhere."""
    empties = [mi(""), mtext(""), mtext(" "), E("mspace"), mrow(), E("mphantom", X), E("maction", actiontype="x"), E("none"), mo(""), mn(" "), E("mtd"), E("mtr"), E("mtable"),
               E("math"), X]

    def driver(c):
        ks = [c.pick(empties) for _ in range(1 + c.choose(3))]
        box = c.pick(["mrow", "msqrt", "mfenced", "mtr", "mtable", "maction", "merror", "menclose", "math", "foo", "mtd"])
        t = E(box, *ks)
        if c.flag():
            t = mrow(X, t, Y)
        return case(doc(t), ref.outcome(t))
    return Space("output", driver, "up to three things, most of them empty, in every kind of container", judge=judge)


def sourced():
    """Tokens with texts the source mentions and white space around them and between them."""
    def driver(c):
        k = c.pick(["mi", "mo", "mn", "mtext"])
        a = esc(c.pick(literals.texts()))
        w = c.pick(["\n", "  ", "\t ", "\r\n"])
        s = c.pick([w + a + w, a + w + a, a + w + "x", "x" + w + a, w + a + " " + w + "1"])
        from xml.sax.saxutils import unescape
        plain = unescape(s, {"&quot;": '"'})
        return case(f"<math>{w}<{k}>{s}</{k}>{w}</math>", ref.outcome(T(k, plain)), )
    return Space("source", driver, "tokens whose text the source mentions, with white space around and inside", judge=judge)


def attributes():
    """White space around the attributes of an element and between it and its children."""
    samples = [X, mtext("a b"), E("mfrac", X, Y), E("mfenced", X, Y), E("mtable", E("mtr", E("mtd", X))), E("msup", mrow(X, Y), TWO), E("mstyle", X, Y), E("mover", X, mo("^"))]

    def driver(c):
        n, at, x, kids = c.pick(samples)
        a = c.pick(present.PAIRS + [(w, "1") for w in literals.words()])
        if a[0] in dict(at):
            raise Skip()
        t = (n, at + (a,), x, kids)
        return case(Uniform(c.choose(24)).document(E("math", t)), expect(E("math", t)))
    return Space("attributes", driver, "elements with presentation attributes and attributes the source mentions, with white space at all places", judge=judge)


def spaces(tier):
    q = tier == "quick"
    return [deviations(DOCS, 2), uniform(), pretty(), token_text(5 if q else 6), sourced(), attributes(), amounts(140 if q else 400), indents(3 if q else 5, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 32, 33, 40, 63, 64, 65, 79, 80, 100, 128, 129, 256, 257]), output()] + (
        [] if q else [deviations(DOCS[:4] + DOCS[7:8], 3, "layouts3")])
