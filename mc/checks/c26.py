"""C26: every string has an outcome, and only two kinds of errors exist."""
import html.entities
import xml.parsers.expat as expat

import literals
import present
import xmldoc
from gen import ALL_FRAMES, E, EA, KIND_FRAMES, kinds_of_characters, numerics, NAMES, SHAPES6, Space, T, X, Y, Z, doc, el, mrow, table
from space import describe
from term import esca, esc, xml

RULE = ("every path of each space is one string; its conversion must return a string or raise the XML parser's ExpatError or InvalidNumberOfChildrenError, and must return a string "
        "when an independent parse says that the string is well-formed XML in which the elements that need a number of children have it")
ASSUMPTIONS = ["expat decides what is well formed", "strings without lone surrogates, nested at most a hundred levels"]

NEED = {"msup": 2, "msub": 2, "mfrac": 2, "mroot": 2, "mover": 2, "munder": 2, "msubsup": 3, "munderover": 3}


def wrong(t):
    """Whether an element in t has a number of children it must not have."""
    n = t[0]
    if n in NEED and len(t[3]) != NEED[n] or n == "mmultiscripts" and len(t[3]) < 3:
        return True
    return any(wrong(k) for k in t[3])


def judge(case, out):
    if out[0] == "ok":
        return None
    if out[0] != "err":
        return describe(out)
    if out[1] not in ("ExpatError", "InvalidNumberOfChildrenError"):
        return f"raised {out[1]}: {out[2]}; only ExpatError and InvalidNumberOfChildrenError are errors of a conversion"
    try:
        t = xmldoc.parse(xmldoc.plain(case["doc"]))
    except expat.ExpatError:
        if out[1] == "ExpatError" or any(f"<{n}" in case["doc"] for n in [*NEED, "mmultiscripts"]):
            return None
        return f"raised {out[1]}: {out[2]} for a document without an element that needs a number of children"
    if out[1] == "ExpatError" or not wrong(t):
        return f"raised {out[1]}: {out[2]} for a well-formed document" + ("" if wrong(t) else " whose elements have their numbers of children")
    return None


def space(name, driver, rule, split=512):
    return Space(name, lambda c: {"doc": driver(c)}, rule, judge=judge, split=split)


FRAGMENTS = ["<math>", "</math>", "<mi>", "</mi>", "<msup>", "</msup>", "<mtable/>", "<mtr>", "</mtr>", "<mprescripts/>", "x", " ", "<", ">", "/", "&", ";", "#", '"', "=", "a", "!", "-", "]", "[", "?", "<![CDATA[", "<!--", "\x0c"]


def strings(n):
    def driver(c):
        k = c.choose(n + 1)
        s = "".join(c.pick(FRAGMENTS) for _ in range(k))
        return s if c.flag() else "<math>" + s + "</math>"
    return space("strings", driver, f"every string of up to {n} of {len(FRAGMENTS)} fragments, alone and in a formula", split=4096)


def shapes():
    """All trees of up to three elements of any names, in and around, with and without text between."""
    def driver(c):
        a, b, d = c.pick(NAMES), c.pick(NAMES), c.pick(NAMES)
        t = c.pick(SHAPES6)(a, b, d)
        return f"<math>{t}</math>"
    return space("shapes", driver, f"elements of {len(NAMES)} names in six arrangements of three", split=4096)


def four():
    """Every row of elements in every element, with the numbers of children needed or not."""
    few = [el("mi", "x"), el("mi"), el("mrow"), el("mprescripts"), el("none"), el("mtr"), el("mtr", "x"), el("mtd", "x"), el("mtable"), el("mo"), el("mphantom"), el("mprescripts", "x")]

    def driver(c):
        a = c.pick(NAMES)
        k = c.choose(5)
        kids = "".join(c.pick(few) for _ in range(k))
        return f"<math>{el(a, kids)}</math>"
    return space("rows", driver, f"rows of up to 4 of {len(few)} elements in elements of {len(NAMES)} names", split=4096)


VALUES = ["", " ", "x", "true", "0", "-1", "1.5em", "(", ")", "()", "\\", "{", "}", "%", "%s", "{}", "{0}", "é", "α", "\U0001d400", "∑", "a b", "&lt;", "&amp;", "&#9;", "&#10;x", "&#160;", "\u200b", "\ufeff", "\u202e", "x" * 300, ",;" * 40, "none", "None", "bold", "BOLD",
          "box", "box circle", "toggle", "$", "#", "^", "_", "~", "&quot;", "'", "||", "\\{", "[a-", "(?P<", "*", "+", "?", "\\1", "\\g<0>"]
USED = ["mathvariant", "open", "close", "separators", "bevelled", "notation", "actiontype", "selection", "class", "encoding", "xml:lang", "linethickness", "xmlns"]


def attributes():
    def driver(c):
        n, k, v = c.pick(NAMES), c.pick(USED), c.pick(VALUES)
        if k == "xmlns" and not v.strip():
            v = "u"
        return f"<math>{el(n, c.pick(['', 'x', '<mi>x</mi><mi>y</mi>', '<mtable><mtr><mtd/></mtr></mtable><mi/>', '<mi>x</mi><mprescripts/><mi>y</mi>']), f' {k}={chr(34)}{v}{chr(34)}')}</math>"

    def pairs(c):
        o, cl, s = c.pick(VALUES), c.pick(VALUES), c.pick(["", " ", ";", "é;", None])
        at = f' open="{o}" close="{cl}"' + (f' separators="{s}"' if s is not None else "")
        return f"<math>{el('mfenced', c.pick(['', '<mi>x</mi>', '<mi>x</mi><mi/><mi>y</mi>', '<mrow><mtable/></mrow>']), at)}</math>"
    return space("attributes", lambda c: c.pick([driver, pairs])(c), f"{len(USED)} attributes with {len(VALUES)} values on elements of {len(NAMES)} names, and every pair of delimiters")


INSIDE = ["A", "x", "é", "1", "∑", "a α", "\\", "", "<mo>∑</mo>", "<mi>A</mi><mi>x</mi>", "<mi>x</mi><mo>∑</mo><mn>1</mn>", "<mtable><mtr><mtd>\\g</mtd></mtr></mtable>"]


def values():
    """Real attribute values, and those the source mentions, around all kinds of contents."""
    own = {"mathvariant": ["mi", "mtext"], "open": ["mfenced"], "close": ["mfenced"], "separators": ["mfenced"], "notation": ["menclose"], "actiontype": ["maction"], "selection": ["maction"], "bevelled": ["mfrac"], "linethickness": ["mfrac"], "encoding": ["annotation"]}
    few = [INSIDE[i] for i in (0, 5, 10, 11)]
    theirs = [((k, s), own[k], INSIDE) for k in own for s in literals.texts()]
    real = [(p, own.get(p[0], []), INSIDE) for p in present.PAIRS if p[0] in own] + [(p, [n for n in NAMES if n not in own.get(p[0], [])], few) for p in present.PAIRS if not p[0].startswith("xmlns")]

    def driver(c):
        (k, v), names_, inside = c.pick(real + theirs)
        return f"<math>{el(c.pick(names_), c.pick(inside), f' {k}={chr(34)}{esca(v)}{chr(34)}')}</math>"
    return space("values", driver, f"{len(present.PAIRS)} real attribute values on elements of {len(NAMES)} names and {len(theirs)} of the source's texts as values of those the code reads, around 4 to {len(INSIDE)} contents", split=4096)


def texts():
    """Every token of the source, and texts of every kind, in every place."""
    more = VALUES + ["\\" * 50, "{" * 50, "}{", "1e400", "1" * 400, "-" * 50, "٣", "二", "½", "①", "Ⅳ", "ﬁ", "ß", "İ", "ı", "̂", "x̂", "👨‍👩‍👧", "\U0010ffff", "\ue000", "\x7f", "\x85", "\u2028", "\u3000", "]]&gt;", "--", "\ufffd"]

    def driver(c):
        t = c.pick([esc(s) for s in literals.texts()] + more)
        n = c.pick(NAMES)
        w = c.choose(5)
        return [f"<math>{el(n, t)}</math>", f"<math>{el(n, t + el('mi', 'x') + t + el('mi', 'y'))}</math>", f"<math>{el('msup', el(n, t) + el('mi', t))}</math>", f"<p>{t}{el(n, t)}<math>{el('mtext', t)}</math></p>",
                f"<math>{el('mover', el('mi', t) + el('mo', t))}{el('mmultiscripts', el('mn', t) * 3)}</math>"][w]
    return space("texts", driver, f"texts of all kinds and of the source in elements of {len(NAMES)} names, in five places")


MARKS = [*"!#$%'()*+,-./:;=?@[\\]^_`{|}~", "%s", "%d", "%r", "%%", "%(a)s", "%(0)d", "%c", "%5.2f", "100%", "{}", "{0}", "{a}", "{!r}", "{:d}", "{{", "}}", "{0[a]}", "{0.a}", "{", "}", "}{", "\\1", "\\g<0>", "\\g<a>", "\\g", "\\0", "\\x", "\\u", "\\N", "\\U0001",
         "$1", "$$", "${a}", "${", "$a", "(?P<", "(?", "(", ")", "[", "[a-", "]", "*", "+", "?", "a{2,1}", "|", "^", "$", "1/0", "0", "-1", "1e999", "nan", "inf", "0x1", "1_0", "٣", "²", "½", "１", "()", "[]", "{}", "None", "True", "eval", "__import__('os')", "a" * 70, "é", "İ", "ß", "𝐀", "\u200b", "\ufeff", "\u2028", "'", '"', "&", "<", ">"]
NUMBERS = ["", " ", "x", "0", "-1", "1", "2", "+1", "1.5", "1.5em", "em", "%", "100%", "%s", "{", "{0}", "\\", "(", "é", "٣", "²", "9" * 5000, "1 2", "x y z", ",", "nan", "inf", "1/0", "true", "None", "0x", "#", "-", "1e999", "\U0001d7ce"]


def every_mark():
    """Texts that a format string, a regular expression, a number or a way of evaluating takes for something else, at every place of a formula."""
    texts_ = sorted({*MARKS, *(s for s in literals.texts() if not s.isalnum())})

    def driver(c):
        t = T(c.pick(["mi", "mo", "mn", "mtext"]), c.pick(texts_))
        f = c.pick(ALL_FRAMES)
        return doc([f(t), f(mrow(X, t)), f(E("msup", t, t)), mrow(f(X), f(t), t)][c.choose(4)])
    return space("marks", driver, f"{len(texts_)} texts with a meaning for format strings, regular expressions and numbers, in the four kinds of tokens in every one of {len(ALL_FRAMES)} slots")


def mixed(step):
    """Texts of two and three characters of different kinds, in tokens and attributes."""
    chars = [c for c in kinds_of_characters() if c not in "\x7f"]
    nums = numerics(step)
    few = ["1", "0", "x", "A", ".", ",", "-", " ", "²", "α", "\u0301", "٣", "½", "\\", "%", "e", "/"]
    jobs = [(a, chars) for a in chars] + [(n, few) for n in nums]

    def driver(c):
        a, bs = c.pick(jobs)
        ss = [s for b in bs for s in ((a + b,) if bs is chars else (a + b, b + a, b + a + b, a + b + a, a + a))]
        k = c.choose(6)
        if k < 4:
            return doc(*[T(("mi", "mo", "mn", "mtext")[k], s) for s in ss])
        return doc(*[T("mi", "x", mathvariant=s) if k == 4 else E("mfenced", X, Y, Z, open=s, close=s, separators=s) for s in ss])
    return space("mixed", driver, f"every two of {len(chars)} texts of one character of each Unicode category and plane, and {len(nums)} numeric characters around, before and after {len(few)} others, as tokens and attributes")


def settings():
    """Every attribute there is, with values that are no names, no numbers or no lengths, on all elements of formulas of all kinds."""
    ks = sorted({*(k for k, _ in present.PAIRS if not k.startswith("xmlns")), *(w for w in literals.words() if ":" not in w)})
    base = [f(X) for f in KIND_FRAMES] + [f(table([X, Y], [Z])) for f in KIND_FRAMES[::3]] + [table([X, Y], [Z])]

    def driver(c):
        k, v, t = c.pick(ks), c.pick(NUMBERS), c.pick(base)

        def on(t):
            return EA(t[0], ((k, v),) + tuple(a for a in t[1] if a[0] != k), *map(on, t[3])) if t[3] else (t[0], ((k, v),) + tuple(a for a in t[1] if a[0] != k), *t[2:])
        return doc(on(t))
    return space("settings", driver, f"{len(ks)} attributes with {len(NUMBERS)} values on all elements of {len(base)} formulas")


def unicode_(step):
    """All of Unicode, in every place where text may stand."""
    points = [i for i in range(0x110000) if not 0xd800 <= i < 0xe000 and i not in (0xfffe, 0xffff) and (i >= 0x20 or i in (9, 10, 13))]
    blocks = [points[i:i + step] for i in range(0, len(points), step)]

    def driver(c):
        s = "".join(map(chr, c.pick(blocks)))
        t, a = esc(s), esca(s)
        w = c.choose(9)
        return [lambda: "<math>" + "".join(f"<mi>{esc(x)}</mi>" for x in s) + "</math>", lambda: "<math>" + "".join(f"<mo>{esc(x)}</mo><mn>{esc(x)}</mn>" for x in s) + "</math>", lambda: f'<math><mtext mathvariant="bold">{t}</mtext></math>',
                lambda: f"<math><mi>{t}</mi><mo>{t}</mo></math>", lambda: f'<math><mfenced open="{a}" close="{a}" separators="{a}"><mi>x</mi><mi>y</mi><mi>z</mi></mfenced></math>',
                lambda: f'<math id="{a}"><menclose notation="{a}"><mi mathvariant="{a}">x</mi></menclose><maction actiontype="{a}"/></math>', lambda: f"<p>{t}<math>{t}<mi>x</mi>{t}</math></p>",
                lambda: "<math>" + "".join(f'<mi mathvariant="script">{esc(x)}</mi>' for x in s) + "</math>", lambda: f"<math><mi a>{t}</mi><mtext>{t}</mtext></math>"][w]()
    return space("unicode", driver, f"every Unicode character XML may hold, {step} at a time, in nine places")


def names():
    """Elements and attributes with names of all kinds."""
    odd = ["a", "A", "_", "a.b", "a-b", "é", "αβγ", "名前", "x" * 200, "MATH", "Mi", "MROW", "mi2", "m", "mathx", "xmath", "convert", "init", "class", "None", "children", "value", "__class__", "__init__", "__dict__", "self", "_adapter", "name", "attributes",
           "to_latex_converter", "msupx", "xmsup", "mTable", "generic", "void", "undefined", "prototype", "constructor", "toString", "keys", "get", "items", "pop"]

    all_ = sorted({*odd, *literals.words(), *literals.identifiers()})

    def driver(c):
        n = c.pick(all_)
        d = [f"<math><{n}>x</{n}></math>", f"<math><{n}/></math>", f"<math><{n}><mi>x</mi><mi>y</mi><mi>z</mi></{n}></math>", f'<math><mi {n}="x">x</mi><mfenced {n}="x"/><maction {n}=""/></math>',
             f"<{n}><math><mi>x</mi></math></{n}>", f"<math><mi {n}>x</mi></math>", f"<math><msup><{n}/><{n}>y</{n}></msup></math>", f"<math><mmultiscripts><{n}/><{n}/><{n}/></mmultiscripts></math>"][c.choose(8)]
        return d if ":" not in n else d.replace("<math", '<math xmlns:%s="u"' % n.split(":")[0], 1)
    return space("names", driver, "elements and attributes of names of all kinds and of the source")


def nesting():
    def driver(c):
        f, g = c.pick(KIND_FRAMES), c.pick(KIND_FRAMES)
        n = c.pick([1, 10, 45])
        x = xml(f(g(X)))
        inner = xml(X)
        i = x.index(inner)
        return "<math>" + x[:i] * n + inner + x[i + len(inner):] * n + "</math>"
    return space("nesting", driver, f"every two of {len(KIND_FRAMES)} kinds of elements in each other, up to 90 levels")


def prologues():
    """Documents with declarations, entities and processing instructions of all kinds."""
    xmls = ["", '<?xml version="1.0"?>', '<?xml version="1.0" encoding="UTF-8"?>', '<?xml version="1.0" encoding="utf-16"?>', '<?xml version="1.0" encoding="us-ascii"?>', "<?xml version='1.0' encoding='windows-1252' standalone='yes'?>",
            '<?xml version="1.0" encoding="x-unknown"?>', '<?xml version="1.1"?>', "\ufeff", "\n", "<?mathml?>", "<!-- a -->", '<?xml version="1.0" encoding="EUC-JP"?>', '<?xml version="1.0" encoding="UTF-7"?>', '<?xml version="1.0" encoding=""?>']
    types = ["", "<!DOCTYPE math>", '<!DOCTYPE math SYSTEM "m.dtd">', '<!DOCTYPE math PUBLIC "-//W3C//DTD MathML 2.0//EN" "m.dtd">', "<!DOCTYPE math []>", '<!DOCTYPE math [<!ENTITY e "x">]>', '<!DOCTYPE math [<!ENTITY e "<mi>x</mi>">]>',
             '<!DOCTYPE math [<!ENTITY % p "<!ENTITY e \'x\'>"> %p;]>', "<!DOCTYPE math [<!ELEMENT math ANY><!ATTLIST mi a CDATA 'b' c ID #IMPLIED>]>", '<!DOCTYPE math [<!NOTATION n SYSTEM "s"><!ENTITY e SYSTEM "u" NDATA n>]>',
             "<!DOCTYPE html>", "<!DOCTYPE book>", "<!DOCTYPE p SYSTEM 'about:legacy-compat'>", "<!DOCTYPE mml:math>", "<!DOCTYPE MATH PUBLIC '' ''>", "<!DOCTYPE é [ ]>", '<!DOCTYPE math [<!ENTITY e "&e;">]>', '<!DOCTYPE math [<!-- c --><?p q?>]>', "<!DOCTYPE", '<!DOCTYPE math [<!ENTITY e SYSTEM "u">]>', '<!DOCTYPE math [<!ATTLIST math xmlns CDATA #FIXED "u"><!ENTITY e "&#60;mi>y&#60;/mi>">]>']
    bodies = ["<math><mi>x</mi></math>", "<math><mi>&e;</mi></math>", "<math>&e;</math>", '<math><mi a="&e;">x</mi></math>', "<math><msup>&e;<mi>x</mi></msup></math>", "<math><mi a>&e;</mi></math>", "<math>é€</math>", "<math><mi>é€𝐀</mi></math>", "", "<p/>", "x",
              "<math><mi>&f;</mi></math>", "<math><mi>x</mi>", "<a:math xmlns:a='u'><a:mi>x</a:mi></a:math>", "<math xmlns='http://www.w3.org/1998/Math/MathML'><mi>x</mi></math>"]

    def driver(c):
        return c.pick(xmls) + c.pick(["", " ", "<!-- -->"]) + c.pick(types) + c.pick(bodies)
    return space("prologues", driver, f"{len(xmls)} declarations, {len(types)} document types and {len(bodies)} documents")


def lengths():
    """Long texts, values, names and rows."""
    ns = sorted({1, 2, 63, 64, 65, 255, 256, 257, 639, 641, 1000, 1023, 1025, 4095, 4097, 4299, 4300, 4301, 5000, 10001, 65537, *literals.sizes()} - {0})

    def driver(c):
        n, ch = c.pick(ns), c.pick(["7", "x", "é", "α", " ", ".", "-", "\\", "{", "(", "٣", "𝟗", "∑", "a ", "1,", "&amp;"])
        t, k = ch * n, min(n, 2000)
        return [lambda: f"<math><mn>{t}</mn></math>", lambda: f"<math><mi>{t}</mi></math>", lambda: f"<math><mo>{t}</mo></math>", lambda: f"<math><mtext>{t}</mtext></math>", lambda: f'<math><mi mathvariant="{t}">x</mi></math>',
                lambda: f'<math><mfenced open="{t}" separators="{t}"><mi>x</mi><mi>y</mi></mfenced></math>', lambda: f"<math><msup><mn>{t}</mn><mn>{t}</mn></msup></math>", lambda: f'<math><menclose notation="{t}"/><maction selection="{t}"/></math>',
                lambda: f"<p>{t}<math/>{t}</p>", lambda: "<math>" + f"<mn>{ch}</mn>" * k + "</math>", lambda: "<math><mtable>" + f"<mtr><mtd>{ch}</mtd></mtr>" * k + "</mtable></math>",
                lambda: f'<math><mstyle scriptlevel="{t}" mathsize="{t}" displaystyle="{t}"><mspace width="{t}em"/><mpadded width="{t}"/></mstyle></math>'][c.choose(12)]()
    return space("lengths", driver, f"texts of 16 kinds in 12 places, of {len(ns)} lengths up to {ns[-1]}")


def entities():
    names_ = sorted({n.rstrip(";") for n in html.entities.html5} | {"foo", "amp", "lt"})

    def driver(c):
        n = c.pick(names_)
        return [f"<math><mi>&{n};</mi></math>", f"<math><mtext>a &{n} b</mtext></math>", f'<math><mi a="&{n};">x</mi></math>', f"&{n};"][c.choose(4)]
    return space("entities", driver, f"each of {len(names_)} HTML entity names in four places")


def spaces(tier):
    q = tier == "quick"
    return [strings(4 if q else 5), shapes(), four(), attributes(), values(), texts(), every_mark(), settings(), mixed(1), unicode_(64 if q else 16), names(), lengths(), nesting(), prologues(), entities()]
