"""C19: conversions are independent of what was converted before."""
import itertools

import fork
import impl
import literals
import ref
import xmldoc
from gen import ALL_FRAMES, E, FEW, KIND_FRAMES, OPERANDS, Space, T, X, Y, Z, doc, mi, mn, mo, mrow, mtext, table, ONE, TWO
from space import agree, describe
from term import xml

RULE = ("every path of each space is a history of conversions, run in a process of its own (forked before the first conversion); each of its results must be "
        "the result of that document alone in a fresh process")
ASSUMPTIONS = ["a process forked after the library was imported, and before any conversion, stands for a fresh one"]

DEEP = "<math>" + "<mrow>" * 900 + "<mi>x</mi>" + "</mrow>" * 900 + "</math>"
DOCS = [
    "<math><mi>x</mi></math>",
    "<math><mo>+</mo><mn>2</mn></math>",
    '<math><mi mathvariant="bold">A</mi><mtext mathvariant="italic">b c</mtext></math>',
    doc(table([X, Y], [Z, ONE])),
    doc(table([table([X])])),
    doc(E("mfenced", table([X, Y]), open="[", close="]")),
    doc(E("mfenced", X, Y, Z, open="{", close="", separators=";|")),
    doc(E("mfrac", X, mrow(Y, Z), bevelled="true"), E("menclose", X, notation="box")),
    doc(E("mmultiscripts", X, ONE, TWO, E("mprescripts"), Y, Z)),
    doc(E("msup", X)),
    "<math><mi>x</math>",
    "<math><mi disabled>α</mi></math>",
    "<p><math><mi>a</mi></math><math><mi>b</mi></math></p>",
    "<mml:math><mml:mover><mml:mi>x</mml:mi><mml:mo>^</mml:mo></mml:mover></mml:math>",
    "",
    DEEP,
]
VALUES = ([doc(E("menclose", X, notation=n)) for n in ("box", "circle", "left", "top", "radical", "")] + [doc(mi("x", mathvariant=v)) for v in ("bold", "italic", "script", "normal", "monospace")]
          + [doc(mtext("x", mathvariant=v)) for v in ("bold", "italic", "monospace")] + [doc(E("maction", X, Y, actiontype=v)) for v in ("toggle", "tooltip")]
          + [doc(E("mfrac", X, mrow(X, Y), bevelled=v)) for v in ("true", "false")] + [doc(E("mfenced", X, Y, Z, separators=v)) for v in ("", ";", ";|")]
          + [doc(E("mfenced", k, open=o, close=e)) for o, e in (("[", "]"), ("|", "|"), ("{", ""), ("", "")) for k in (X, table([X]))])
WIDE = DOCS[:-1] + VALUES + [doc(o) for o in OPERANDS] + [
    doc(E("mfrac", X)), doc(E("mmultiscripts", X, Y)), doc(E("munderover", X, Y)), "<math><mi x=5>q</mi></math>", "<math a><mi b c>q</mi></math>", "<math>&nbsp;</math>", "<math",
    "<math>\n<mtext>a\nb</mtext></math>", "<p/>", "text", "<math><mi>&#945;</mi></math>", "<?xml version='1.0'?><!DOCTYPE math><math><mi>x</mi></math>"]


class Converters:
    """The ways to call the entry point."""

    def __init__(self):
        self.cls = impl.load()
        self.shared = self.cls()
        self.other = self.cls()

    def call(self, way, d):
        f = (self.cls.convert, self.shared.convert, None, self.other.convert)[way]
        return fork.plain(impl.outcome_of((lambda: f(d)) if f else (lambda: self.cls().convert(d))))


def play(history):
    """history: (way, document) pairs -> their outcomes in one fresh process."""
    def child():
        conv = Converters()
        return [conv.call(w, d) for w, d in history]
    try:
        return fork.run(child)
    except fork.Died:
        return ("died",)


def count(case):
    """Convert a cycle of documents over and over; the first conversion whose outcome is not that of the first round."""
    cycle, n, way = case["history"], case["count"], case["way"]

    def child():
        conv = Converters()
        first = [conv.call(way, d) for d in cycle]
        for i in range(len(cycle), n):
            o = conv.call(way, cycle[i % len(cycle)])
            if o != first[i % len(cycle)]:
                return (first, i, o)
        return (first, n, None)
    try:
        res = fork.run(child)
    except fork.Died:
        return ("died",)
    if len(res) != 3:
        return res
    first, i, o = res
    return ("count", tuple(first), i, o)


def execute(case):
    if "count" in case:
        return count(case)
    res = play(case["history"])
    if type(res) is tuple:
        return res
    if "last" in case:
        res = res[-case["last"]:]
    return ("all", tuple(res))


def judge(case, out):
    if out[0] == "count":
        for d, o in zip(case["history"], out[1]):
            want = fork.alone(d)
            if o != want:
                return f"in the first round {d[:300]!r} {describe(o)}; alone it {describe(want)}"
        if out[3] is not None:
            return f"conversion {out[2] + 1} of {case['name']} {describe(out[3])}; the first such {describe(out[1][out[2] % len(out[1])])}"
        return None
    if out[0] != "all":
        return "the process " + ("did not come back (time limit)" if out[0] == "hang" else "died")
    docs = [d for _, d in case["history"]]
    if "first" in case:  # many documents: against the reference model, and each other
        seen = {}
        for i, (d, o) in enumerate(zip(docs, out[1])):
            v = xmldoc.verdict(d)
            msg = agree(v[1] if v[0] != "broken" else ("xmlerror",), o)
            if msg or seen.setdefault(d, o) != o:
                return f"conversion {i + 1} of {len(docs)}, of {d!r}, {msg or describe(o) + ', before it ' + describe(seen[d])}"
    for i, o in enumerate(reversed(out[1])):
        if "first" in case and i >= 2:
            break
        d = docs[-1 - i]
        want = fork.alone(d)
        if o != want:
            return f"conversion {len(docs) - i} of {len(docs)}, of {d[:300]!r}, {describe(o) if len(o) > 2 or o[0] != 'err' else o[1]}; alone it {describe(want) if len(want) > 2 or want[0] != 'err' else want[1]}"
    return None


def key(case):
    return case.get("name") or repr(case["history"])


def space(name, driver, rule, split=512):
    return Space(name, driver, rule, execute=execute, judge=judge, key=key, split=split)


def sequences(docs, n, name="sequences", ways=(0,)):
    def driver(c):
        k = 2 + c.choose(n - 1)
        return {"history": [(c.pick(ways), c.pick(docs)) for _ in range(k)]}
    return space(name, driver, f"every history of 2..{n} conversions over {len(docs)} documents and {len(ways)} ways to call")


def pairs(docs, chunk=10):
    def driver(c):
        a = c.pick(docs)
        k = c.choose((len(docs) + chunk - 1) // chunk)
        h = [(0, a)]
        for b in docs[k * chunk:(k + 1) * chunk]:
            h += [(0, b), (0, a)]
        return {"history": h}
    return space("pairs", driver, f"a, b1, a, b2, a, ... for every document a and, {chunk} at a time, every document b of {len(docs)}")


def repeated(tops):
    def driver(c):
        a, b = c.pick(DOCS), c.pick(DOCS[:-1])
        n = c.pick(tops)
        return {"history": [(0, a)] * (n if a is not DEEP else min(n, 20)) + [(0, b), (0, a)], "name": f"{n} times {a[:200]!r}, then {b!r}", "last": 3}
    return space("repeated", driver, f"one document {list(tops)} times, then another, then the first, for every two of {len(DOCS)}")


def counted(n):
    """Long runs, every conversion of which is compared: any number of conversions up to n behaves like the first."""
    docs = DOCS[:-1] + VALUES[::3]
    cycles = [[d] for d in docs] + [docs, docs[:2], docs[9:12], docs[:1] + docs[10:11], docs[5:8]]

    def driver(c):
        k = c.choose(len(cycles))
        way = c.choose(4)
        return {"history": cycles[k], "count": n, "way": way, "name": f"{n} conversions in turn of {len(cycles[k])} documents, {cycles[k][0]!r} first, way {way}"}
    return space("counted", driver, f"{n} conversions of one document, or of some in turn, in one process, each compared with the first: {len(cycles)} cycles, 4 ways to call")


def many(tops):
    """Many different documents, then the first ones again (and what is common to them)."""
    kinds = [
        lambda i: f"<math><mn>{i}</mn></math>",
        lambda i: f"<math><mi>{chr(0x4e00 + i)}</mi></math>",
        lambda i: doc(mtext(f"t{i} & x")),
        lambda i: doc(E("msup", mi(f"x{i}"), mn(str(i)))),
        lambda i: f"<math><mi disabled{i}>x</mi><mn>{i}</mn></math>",
        lambda i: f"<math><mi>{i}</mo></math>",
        lambda i: doc(E("msup", *[mn(str(i))] * (i % 5))),
        lambda i: doc(E("mfenced", mi("x"), mi("y"), open="([{|<"[i % 5], close=")]}|>"[i // 5 % 5], separators=";,|"[i % 3])),
        lambda i: f"<math><el{i}><mi>x</mi><mn>{i}</mn></el{i}></math>",
    ]

    def driver(c):
        k = c.choose(len(kinds))
        n = c.pick(tops)
        docs = [kinds[k](i) for i in range(n)]
        again = c.pick([docs[:1], docs[:8], docs[::-1], docs])
        return {"history": [(0, d) for d in docs + again], "first": n, "name": f"kind {k}, {n} documents, then {len(again)} of them again from {again[0]!r}"}
    return space("many", driver, f"{list(tops)} different documents of {len(kinds)} kinds, then some or all of them again")


def similar(n):
    """Long documents that agree in all but one place."""
    base = [mi("x"), mo("+"), mn("2"), mtext("a b"), E("msup", mi("y"), mn("3")), E("mfrac", mi("u"), mi("v")), mi("α"), E("mi")]
    other = [mi("z"), mo("-"), mn("3"), mtext("a  c"), E("msub", mi("y"), mn("3")), E("mfrac", mi("u"), mi("v"), bevelled="true"), mi("α", mathvariant="bold"), mo("")]
    pad = mrow(*[mi("w")] * n)

    def variant(c):
        i = c.choose(len(base) + 1)
        t = list(base)
        if i:
            t[i - 1] = other[i - 1]
        return i, t

    def driver(c):
        lay = c.choose(4)
        (i, a), (j, b) = variant(c), variant(c)
        way = c.choose(3)

        def spell(t):
            if lay == 0:
                return doc(*t)
            if lay == 1:
                return doc(pad, *t)
            if lay == 2:
                return doc(*t, pad)
            return doc(pad, *t, pad)
        d, e = spell(a), spell(b)
        if way == 1:
            e = e.replace(" ", "\n").replace("><", "> <")
        return {"history": [(0, d), (1 if way == 2 else 0, e), (0, d)]}
    return space("similar" if n < 100 else f"similar-{n}", driver, f"a, b, a for documents that agree in all but one or two places or in their layout, padded with {n} elements")


SAME = [
    ("<math><mi>x</mi><mo>+</mo><mn>2</mn></math>", ["<math> <mi>x</mi> <mo>+</mo> <mn>2</mn> </math>", "<math><mi>X</mi><mo>+</mo><mn>2</mn></math>", "<MATH><mi>x</mi><mo>+</mo><mn>2</mn></MATH>",
        "<math><mi>x</mi><mo>+</mo><mn>2</mn>", "<math><mn>2</mn><mo>+</mo><mi>x</mi></math>", "<math><mi>x</mi><mo>2</mo><mn>+</mn></math>", "<math><mi>x+2</mi><mo/><mn/></math>", "<mml:math><mml:mi>x</mml:mi><mml:mo>+</mml:mo><mml:mn>2</mml:mn></mml:math>",
        "<math><mi>x</mi><mo>+</mo><mn>2</mn></math ><!-- a -->", "<math><mo>x</mo><mi>+</mi><mn>2</mn></math>", "<math><mrow><mi>x</mi><mo>+</mo><mn>2</mn></mrow></math>", "<p><math><mi>x</mi></math><math><mo>+</mo><mn>2</mn></math></p>",
        "<math><mi>x</mi><!-- <mo>-</mo> --><mo>+</mo><mn>2</mn></math>", "<math><mi>x</mi><mo>+</mo><mn>2</mn><mi/></math>"]),
    ("<math><mtext>a b</mtext></math>", ["<math><mtext>ab</mtext></math>", "<math><mtext>a  b</mtext></math>", "<math><mtext>A B</mtext></math>", "<math><mtext> a b </mtext></math>", "<math><mtext>a&#160;b</mtext></math>", "<math><mtext>a\nb</mtext></math>",
        "<math><mtext>b a</mtext></math>", "<math><mi>a b</mi></math>", "<math><mtext>a</mtext><mtext>b</mtext></math>", "<math><mtext>a_b</mtext></math>", "<math><mtext>a&amp;b</mtext></math>", "<math><mtext mathvariant='bold'>a b</mtext></math>"]),
    ('<math><mfenced open="[" close="]"><mi>x</mi><mi>y</mi></mfenced></math>', ['<math><mfenced close="]" open="["><mi>x</mi><mi>y</mi></mfenced></math>', '<math><mfenced open="]" close="["><mi>x</mi><mi>y</mi></mfenced></math>', "<math><mfenced><mi>x</mi><mi>y</mi></mfenced></math>",
        '<math><mfenced open="["><mi>x</mi><mi>y</mi></mfenced></math>', '<math><mfenced open="[" close="]" separators=";"><mi>x</mi><mi>y</mi></mfenced></math>', '<math><mfenced open="[" close="]"><mrow><mi>x</mi><mi>y</mi></mrow></mfenced></math>',
        '<math><mfenced open="[" close="]"><mi>y</mi><mi>x</mi></mfenced></math>', '<math><mfenced open="[" close="]"><mtable><mtr><mtd><mi>x</mi></mtd><mtd><mi>y</mi></mtd></mtr></mtable></mfenced></math>', '<math><mfenced open="[" close="]"><mi>xy</mi></mfenced></math>',
        '<math><mfenced open="[" close="]" x><mi>x</mi><mi>y</mi></mfenced></math>', '<math><mfenced open=[ close=]><mi>x</mi><mi>y</mi></mfenced></math>']),
    ("<math><msup><mi>α</mi><mn>2</mn></msup></math>", ["<math><msub><mi>α</mi><mn>2</mn></msub></math>", "<math><msup><mi>a</mi><mn>2</mn></msup></math>", "<math><msup><mi>Α</mi><mn>2</mn></msup></math>", "<math><msup><mn>2</mn><mi>α</mi></msup></math>", "<math><msup><mi>&#945;</mi><mn>2</mn></msup></math>",
        "<math><msup><mi>α2</mi></msup></math>", "<math><msup><mi>α</mi><mn>2</mn><mi/></msup></math>", "<math><msup><mi>𝛼</mi><mn>2</mn></msup></math>", "<math><msup><mi>α</mi><mn>²</mn></msup></math>", "<math><msup><mi>ά</mi><mn>2</mn></msup></math>", "<math><mover><mi>α</mi><mn>2</mn></mover></math>"]),
    ("<math><mi>é</mi><mi>K</mi><mi>ﬁ</mi></math>", ["<math><mi>e\u0301</mi><mi>K</mi><mi>ﬁ</mi></math>", "<math><mi>é</mi><mi>K</mi><mi>fi</mi></math>", "<math><mi>É</mi><mi>k</mi><mi>FI</mi></math>", "<math><mi>e</mi><mi>K</mi><mi>ﬁ</mi></math>", "<math><mi>&#233;</mi><mi>K</mi><mi>ﬁ</mi></math>"]),
    ("<math><mfrac bevelled='true'><mi>x</mi><mi>y</mi></mfrac></math>", ["<math><mfrac bevelled='false'><mi>x</mi><mi>y</mi></mfrac></math>", "<math><mfrac><mi>x</mi><mi>y</mi></mfrac></math>", "<math><mfrac bevelled=true><mi>x</mi><mi>y</mi></mfrac></math>", "<math><mfrac bevelled=''><mi>x</mi><mi>y</mi></mfrac></math>",
        "<math><mfrac bevelled='true'><mi>xy</mi><mi>y</mi></mfrac></math>", "<math><mfrac class='bevelled' id='true'><mi>x</mi><mi>y</mi></mfrac></math>", "<math><mroot><mi>x</mi><mi>y</mi></mroot></math>"]),
]


def folded():
    """Documents that some way of comparing would take for the same: a, b, a and b, a, b."""
    def driver(c):
        a, bs = c.pick(SAME)
        group = [a] + bs
        d, e = c.pick(group), c.pick(group)
        way = c.choose(2)
        return {"history": [(0, d), (way, e), (0, d), (0, e)]}
    return space("folded", driver, "a, b, a, b for documents that are equal up to white space, case, prefixes, comments, order, spelling, normal form")


VARIANTS = [lambda s: mi(s), lambda s: mo(s), lambda s: mn(s), lambda s: mtext(s), lambda s: mi(s, mathvariant="bold"), lambda s: mtext(s, mathvariant="italic"), lambda s: E("msup", mi(s), mo(s))]


def kinds(texts, chunk):
    """The same text as one kind of token, then as another."""
    texts = list(texts)
    orders = list(itertools.permutations(range(len(VARIANTS)), 2))

    def driver(c):
        i, j = c.pick(orders)
        k = c.choose((len(texts) + chunk - 1) // chunk)
        part = texts[k * chunk:(k + 1) * chunk]
        h = [(0, doc(VARIANTS[n](s))) for s in part for n in (i, j, i)]
        return {"history": h, "first": 1, "name": f"variants {i}, {j}, {i} of {part[0]!r} to {part[-1]!r}"}
    return space("kinds", driver, f"each of {len(texts)} texts as one kind of token, then another, then the first, every two of {len(VARIANTS)} kinds")


def strings(alphabet, n):
    return ["".join(t) for k in range(n + 1) for t in itertools.product(alphabet, repeat=k)]


def families():
    """Documents that differ in one or two dimensions only, every value of them: what is remembered under a part of them shows."""
    kids = [X, Y, Z, ONE, TWO, mi("u"), mi("v"), mi("w")]
    delimiters = ["", "(", "[", "{", "|", "||", "⟨", ")"]
    variants = [*ref.FONTS, "normal", "unknown", ""]
    good = '<math><msup><mi mathvariant="bold">x</mi><mn>2</mn></msup><mtext>a b</mtext></math>'
    fams = {
        "separators": [doc(E("mfenced", *kids[:k], separators=s)) for s in strings(";,.", 3) for k in (2, 3, 4)],
        "long separators": [doc(E("mfenced", *kids[:k], separators=s)) for s in strings(";|", 5) for k in (4, 7)],
        "delimiters": [doc(E("mfenced", t, open=o, close=c)) for o in delimiters for c in delimiters for t in (X, table([X]))],
        "delimiters and separators": [doc(E("mfenced", X, Y, Z, open=o, close=c, separators=s)) for o in "([|" for c in ")]|" for s in (";", ",;", ";,", "")],
        "variants": [doc(f(s, mathvariant=v)) for v in variants for s in ("x", "AB", "α", "é", "1", "") for f in (mi, mtext)],
        "notations": [doc(E("menclose", *k, notation=n)) for n in [*sorted(ref.ENCLOSE), "", "unknown"] for k in ((), (X,), (Y,), (X, Y), (mrow(X, Y),))],
        "actions": [doc(E("maction", *kids[:k], actiontype=a, selection=s)) for a in ("toggle", "tooltip", "", "x") for k in range(4) for s in ("1", "2")],
        "fractions": [doc(E("mfrac", a, b, bevelled=v)) for v in ("true", "false", "") for a in FEW[:11] for b in FEW[:11]],
        "roots": [doc(E(n, a, b)) for n in ("mroot", "msup", "msub", "mover", "munder") for a in FEW[:11] for b in FEW[:11]],
        "accents": [doc(E(n, a, mo(o))) for n in ("mover", "munder") for a in FEW[:8] for o in "^¯⏞⏟~→_.'"],
        "three": [doc(E(n, *k)) for n in ("msubsup", "munderover", "mmultiscripts") for k in itertools.product(FEW[:5], repeat=3)],
        "scripts": [doc(E("mmultiscripts", X, *k[:i], E("mprescripts"), *k[i:])) for n in range(1, 7) for k in [kids[1:n + 1]] for i in range(n + 1)] + [doc(E("mmultiscripts", X, *kids[1:n])) for n in range(8)],
        "tables": [doc(f(table(*[[kids[(i * a + j) % 8] for j in range(b)] for i in range(r)]))) for r in range(4) for b in range(4) for a in (1, 3) for f in (lambda t: t, lambda t: table([t]), lambda t: E("mfenced", t, open="[", close="]"), lambda t: mrow(X, t))],
        "frames": [doc(f(t)) for f in KIND_FRAMES for t in FEW],
        "nested frames": [doc(f(g(X))) for f in KIND_FRAMES for g in KIND_FRAMES],
        "wrong numbers": [doc(E(n, *kids[:k])) for n in ("msup", "msub", "msubsup", "mfrac", "mroot", "mover", "munder", "munderover", "mmultiscripts") for k in range(6)],
        "damages": [good[:i] for i in range(len(good))] + [good[:i] + good[i + 1:] for i in range(len(good))],
        "unquoted attributes": [good.replace(">", f" {a}>", k).replace(f" {a}>", ">", k - 1) for a in ("a", "a=", "a=b", "b", "mathvariant", 'c="d"') for k in range(1, 9)],
        "layouts": [good.replace("><", f">{w}<", k).replace(" ", v) for w in (" ", "\n", "\t\t") for v in (" ", "\n ") for k in range(9)],
        "formulas": ["<p>" + "".join(t) + "</p>" for k in range(4) for t in itertools.product([doc(X), doc(Y), doc(), doc(mrow(X, Y)), "t"], repeat=k)],
        "rows": [doc(*t) for k in range(5) for t in itertools.product([X, Y, mi(""), mo("+")], repeat=k)],
        "groups": [doc(mrow(*t), *u) for t in itertools.product([X, Y, mi("")], repeat=2) for u in itertools.product([X, mi("α"), mrow()], repeat=2)],
    }
    for n, f in (("mi", mi), ("mo", mo), ("mn", mn), ("mtext", mtext)):
        fams["texts of " + n] = [doc(f(s)) for s in strings("aα ²+", 3)]
    names = list(fams)

    def driver(c):
        n = c.pick(names)
        docs = list(dict.fromkeys(fams[n]))
        k = c.choose(6)
        docs = [docs, docs[::-1], docs[::2] + docs[1::2], docs[len(docs) // 2:] + docs[:len(docs) // 2], docs[1::2][::-1] + docs[::2], sorted(docs, key=len)][k]
        return {"history": [(0, d) for d in docs], "name": f"{n}, order {k}"}
    return space("families", driver, f"{sum(map(len, fams.values()))} documents in {len(names)} families that differ in one or two dimensions only, each family in one process in six orders")


def failing(tops):
    """Conversions that fail inside some element, over and over, then ones with that element: what is not undone after an error shows."""
    bad = [E("mroot", X), E("mmultiscripts", X, Y), E("munderover")]
    frames = list({f(X): f for f in ALL_FRAMES}.values())
    whole = doc(mrow(*[f(Y) for f in KIND_FRAMES]))

    def driver(c):
        i = c.choose(len(frames))
        f, b, n = frames[i], c.pick(bad), c.pick(tops)
        bare = f(X)
        bare = (bare[0], (), bare[2], bare[3])
        probes = [doc(f(X)), doc(bare), doc(f(f(X))), whole, doc(X)]
        inner = c.choose(2)
        d = doc(f(f(b)) if inner else f(b))
        h = [(0, d)] * n
        return {"history": h + [(0, p) for p in probes] + [(0, d)] + [(0, p) for p in probes], "last": 2 * len(probes) + 1, "name": f"{n} times {d!r}, then {probes[0]!r} and others"}
    return space("failing", driver, f"a document that fails inside an element, {list(tops)} times, then ones of that element (with and without attributes, in itself) and of others, twice, for {len(frames)} elements and places in them x {len(bad)} failures x in one or two of that element")


def sourced():
    """Documents with what the source mentions, all in one process and again, and each between others."""
    texts = literals.texts()
    words = literals.words()
    makers = [lambda s: doc(mi(s), mo(s)), lambda s: doc(mtext(s)), lambda s: doc(E("mfenced", X, Y, open=s)), lambda s: doc(E("menclose", X, notation=s)), lambda s: doc(mi("x", mathvariant=s)),
              lambda s: doc(E("maction", X, Y, actiontype=s)), lambda s: doc(E("mstyle", X, **{"class": s})), lambda s: doc(E("mfrac", X, Y, bevelled=s)), lambda s: doc(E("mfenced", X, Y, separators=s))]

    def driver(c):
        f = c.pick(makers)
        a = c.pick(texts)
        g = c.pick(makers[:1] + [f])
        h = [(0, f(a)), (0, g("x")), (0, f(a)), (0, g(a)), (0, doc(X)), (0, doc(E(a if a in words else "g", X)))]
        return {"history": h, "first": 1, "name": f"{f('L')}, {g('L')} with {a!r}"}
    return space("source", driver, f"histories of documents with {len(texts)} texts that the source mentions")


def spaces(tier):
    q = tier == "quick"
    few = DOCS[:1] + DOCS[4:6] + DOCS[9:12] + DOCS[15:]
    return [sequences(DOCS[:-1], 3 if q else 4), sequences(few if q else DOCS, 2, "ways", (0, 1, 2, 3)), sequences(few[1:], 4 if q else 5, "long"), pairs(WIDE),
            repeated([150] if q else [2, 5, 16, 64, 130, 300, 1100]), many([16, 600, 1300, 4200] if q else [16, 140, 600, 2500, 4200, 10000]), counted(5000 if q else 70000), similar(40), similar(400), folded(), sourced(), families(), failing([1, 12] if q else [1, 2, 3, 7, 20, 150]),
            kinds(sorted({x for k in ref.SYMBOLS for x in ref.SYMBOLS[k]} | set(literals.texts())) if not q else
                  sorted({x for k in ref.SYMBOLS for x in ref.SYMBOLS[k]})[::2] + literals.texts()[::2], 40)]
