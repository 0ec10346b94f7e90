"""C16: XML spelling."""
import unicodedata

import literals
import ref
import skipped
from checks.c15 import expect
from gen import E, EA, Space, T, X, Y, Z, FRAMES, OPERANDS, KIND_FRAMES, doc, mi, mn, mo, mrow, mtext, table, TWO
from space import case
from spell import Plain
from term import esc, esca, xml

RULE = ("every path of each space spells one document differently; its LaTeX must be that of the reference model for the plain spelling")
ASSUMPTIONS = ["external DTDs are not read (C23), so entities are only those XML defines or the document declares itself"]

DOCS = [
    E("math", X, mo("<"), Y),
    E("math", mtext("if a&b"), mi("α"), display="block", id="m1"),
    E("math", E("mfenced", X, Y, Z, open="<", close="]", separators=";,")),
    E("math", E("msup", mrow(X, mo("-"), Y), TWO)),
    E("math", table([X], [Z])),
    E("math", E("mmultiscripts", X, E("none"), TWO, E("mprescripts"), Y, Z)),
    E("math", E("mfrac", mi("𝐀b", mathvariant="bold"), mn("12"), bevelled="true")),
    E("math", E("mspace", width="1em", height="2"), E("mi"), mo("∑")),
    E("math", mtext("α > 'c' \"d\"", mathvariant="bold")),
    E("math", E("mover", X, mo("^")), E("menclose", Y, notation="box")),
    E("math", E("mfenced", X, mtext("it's \"so\""), Y, open="'", close='"', separators="\"'&<>"), E("mi", **{"class": "a'b\"c"})),
    E("html", E("math", mi("α")), E("p", E("math", mi("b")))),
]
NOTES = ["<!-- note -->", "<!---->", "<!--<mi>z</mi>-->", "<!-- a=b \"c' & > mml:x -->", "<?pi data?>", "<?x <mi>z</mi> a=\"b?>", "<!-- é\n -->", "<?a?>",
         "<!-- note --><!-- two --> <?p q?>"]
PROLOGS = ["", '<?xml version="1.0"?>', '<?xml version="1.0" encoding="UTF-8"?>', "<?xml version='1.0' encoding='utf-8' standalone='yes'?>\n",
           '<?xml version="1.0" encoding="ISO-8859-1"?>', "<!DOCTYPE math>", '<!DOCTYPE math SYSTEM "mathml.dtd">',
           '<!DOCTYPE math PUBLIC "-//W3C//DTD MathML 2.0//EN" "http://www.w3.org/Math/DTD/mathml2/mathml2.dtd">',
           '<?xml version="1.0"?><!DOCTYPE math [<!ENTITY foo "bar"><!ATTLIST mi note CDATA #IMPLIED>]>', "\ufeff", '\ufeff<?xml version="1.0"?>',
           "<!-- before -->", "<?before it?>", '<?xml version="1.0"?>\n<!-- a -->\n<!DOCTYPE math>\n<!-- b -->']


def charspellings(ch):
    cp = ord(ch)
    res = [esc(ch), f"&#{cp};", f"&#x{cp:x};", f"&#x{cp:06X};", f"&#000{cp};", f"<![CDATA[{ch}]]>", f"<![CDATA[]]>{esc(ch)}"]
    for n, x in (("lt", "<"), ("gt", ">"), ("amp", "&"), ("apos", "'"), ("quot", '"')):
        if ch == x:
            res.append(f"&{n};")
    return res


class Spelling(Plain):
    def between(self):
        return self.pick([""] + NOTES)

    def text(self, s):
        out = self.pick([""] + NOTES + ["<![CDATA[]]>"])
        if self.c.flag(1):
            return out + f"<![CDATA[{s}]]>"
        for ch in s:
            out += self.pick(charspellings(ch)) + self.pick(["", "<!-- -->", "<?p?>", "<!--<mi>z</mi>-->", "<![CDATA[]]>"])
        return out

    def attrs(self, attrs, name=""):
        return attrs if len(attrs) < 2 or not self.c.flag(1) else attrs[::-1]

    def attr(self, k, v):
        kind = self.c.choose(6, 1)
        if kind == 0:
            return f'{k}="{esca(v)}"'
        if kind == 1:
            return f"{k}='" + esc(v).replace("'", "&apos;") + "'"
        if kind == 2:
            return k + '="' + "".join(f"&#{ord(ch)};" for ch in v) + '"'
        if kind == 3:
            return k + "='" + "".join(f"&#x{ord(ch):X};" for ch in v) + "'"
        if kind == 4:
            return k + '="' + esca(v[:1]) + "".join(f"&#{ord(ch)};" for ch in v[1:]) + '"'
        return k + ' = "' + esca(v).replace(">", "&#62;") + '"'

    def empty(self, name):
        return self.pick(["/>", " />", f"></{name}>", f"><!-- x --></{name}>", f"><?p?></{name}>", f"><![CDATA[]]></{name}>", f"><!--<mi>z</mi>--></{name}>"])

    def prolog(self):
        return self.pick(PROLOGS)

    def epilog(self):
        return self.pick([""] + NOTES + ["\n<!-- after -->\n"])


class Prefixed(Spelling):
    def name(self, n):
        return "mml:" + n if n not in ("html", "p") else n


def deviations(docs, bound, cls=Spelling, name="spellings", extra=()):
    def driver(c):
        t = c.pick(docs)
        ns = c.pick([(), (("xmlns:mml", "http://www.w3.org/1998/Math/MathML"),)]) if cls is Prefixed else ()
        root = (t[0], t[1] + ns, t[2], t[3])
        return case(cls(c).document(root), expect(t))
    return Space(name, driver, f"{len(docs)} documents with up to {bound} changes of spelling", bound=bound)


def everywhere():
    """One spelling applied at all places at once."""
    docs = [E("math", o) for o in OPERANDS] + [E("math", f(o)) for f in FRAMES for o in (X, mtext("a&b"), mo("<"), mrow(X, Y))]

    class All(Spelling):
        def __init__(self, k):
            self.k = k

        def pick(self, options):
            return options[self.k % len(options)]

        def attrs(self, attrs, name=""):
            return attrs[::-1] if self.k % 2 else attrs

        def attr(self, k, v):
            self.c = self.Fixed(self.k)
            return Spelling.attr(self, k, v)

        def text(self, s):
            if self.k % 5 == 4:
                return f"<![CDATA[{s}]]>"
            return self.pick([""] + NOTES) + "".join(self.pick(charspellings(ch)) + self.pick(["", "<!-- -->", "<?p?>"]) for ch in s)

        class Fixed:
            def __init__(self, k):
                self.k = k

            def choose(self, n, cost=0):
                return self.k % n

    def driver(c):
        t = c.pick(docs)
        return case(All(c.choose(60)).document(t), expect(t))
    return Space("everywhere", driver, f"{len(docs)} documents with every place spelled alike, 60 ways")


def prefixes():
    """mml: on all elements of formulas in every slot; mml: in text and attribute values stays."""
    def pre(t):
        n, a, x, k = t
        return ("mml:" + n, a, x, tuple(map(pre, k)))

    def driver(c):
        o = c.pick(OPERANDS + [mtext("mml:a"), mi("mml:b"), mtext("a mml:b"), mtext("x /mml:y <mml:z>"), mo("mml:"), E("mfenced", X, Y, separators="mml:")])
        f = c.choose(len(KIND_FRAMES) + 1)
        t = KIND_FRAMES[f - 1](o) if f else o
        s = xml(pre(E("math", t)))
        w = c.choose(5)
        if w == 1:
            s = s.replace("<mml:math", '<mml:math xmlns:mml="http://www.w3.org/1998/Math/MathML"', 1)
        elif w == 2:
            s = s.replace("<mml:math", '<mml:math xmlns:mml="http://www.w3.org/1998/Math/MathML" xmlns="http://www.w3.org/1998/Math/MathML"', 1)
        elif w == 3:
            s = f"<div>text mml: {s}<!-- mml: --></div>"
        elif w == 4:
            s = xml(E("math", t))
        return case(s, ref.outcome(t))
    return Space("prefixes", driver, "operands in every kind of container with mml: on all elements, with and without declarations; mml: in text")


def prefix_values(top):
    """mml: and what could hide it in attribute values, texts and CDATA sections, the elements with the prefix or without."""
    pieces = ["mml:", " mml:", "/mml:", "<mml:", "</mml:", "</mml:mi>", ">", "x", " a=", "'", '"', "mml", "]]", "-->", "<!--", "m:"]

    def driver(c):
        s = "".join(c.pick(pieces) for _ in range(1 + c.choose(top)))
        p = c.pick(["", "mml:"])
        w = c.choose(5)
        if w == 0:
            t = T("mtext", s)
            body = f"<{p}mtext><![CDATA[" + s.replace("]]>", "]]]]><![CDATA[>") + f"]]></{p}mtext>"
        elif w == 1:
            t = T("mi", s)
            body = f"<{p}mi>{esc(s)}</{p}mi>"
        else:
            q = c.pick(['"', "'"])
            v = s.replace("&", "&amp;").replace("<", "&lt;").replace(q, "&#39;" if q == "'" else "&quot;")
            t = E("mfenced", X, Y, **{["open", "close", "separators"][w - 2]: s})
            body = f"<{p}mfenced {['open', 'close', 'separators'][w - 2]}={q}{v}{q} {p and 'mml:'}class='{p}x'><{p}mi>x</{p}mi><{p}mi>y</{p}mi></{p}mfenced>"
        return case(f"<{p}math>{body}</{p}math>", ref.outcome(t))
    return Space("prefix-values", driver, f"values, texts and CDATA sections of up to {top} pieces of {pieces}, the elements with mml: or without")


def references(tier):
    """Every dictionary symbol as decimal, hexadecimal, padded reference and in CDATA, in every token."""
    chars = {x for k in ref.SYMBOLS for x in ref.SYMBOLS[k] if len(x) == 1} | {chr(k) for k in range(0x21, 0x700)} | {chr(k) for k in range(0x2000, 0x2C00)}
    chars |= {chr(k) for k in range(0xA0, 0x110000 if tier != "quick" else 0x20000) if unicodedata.category(chr(k)) in ("Cf", "Zs", "Zl", "Zp", "Sk", "Lm")}
    chars |= {x for x in literals.texts() if len(x) == 1}
    texts = sorted(ch for ch in chars if not ch.isspace())
    few = set(texts[:94])

    def driver(c):
        ch = c.pick(texts)
        kind = c.pick(["mi", "mo", "mn", "mtext"])
        cp = ord(ch)
        s = c.pick(charspellings(ch)[1:] if ch in few or tier != "quick" else [f"&#{cp};", f"&#x{cp:x};"])
        w = c.pick(["%s", "%sq", "q%s"] if ch in few or tier != "quick" else ["%s", "q%sq"]) if kind != "mo" else "%s"
        return case(f"<math><{kind}>{w.replace('%s', s)}</{kind}></math>", ref.outcome(T(kind, w.replace("%s", ch))))
    return Space("references", driver, f"{len(texts)} characters as every kind of reference and in CDATA in every token")


def source(tier):
    """What the source mentions, in tokens and values, spelled in every way."""
    ways = [lambda s: "".join(f"&#{ord(ch)};" for ch in s), lambda s: "".join(f"&#x{ord(ch):X};" for ch in s), lambda s: esc(s[:1]) + "<!-- x -->" + esc(s[1:]),
            lambda s: "<![CDATA[" + s.replace("]]>", "]]]]><![CDATA[>") + "]]>", lambda s: "<?p " + s.replace("?>", "") + "?>" + esc(s), lambda s: "<!--" + s.replace("-", "") + "-->" + esc(s), esc]

    def driver(c):
        s = c.pick(literals.texts())
        if c.flag():
            k = c.pick(["mi", "mo", "mn", "mtext"])
            return case(f"<math><{k}>{c.pick(ways)(s)}</{k}></math>", ref.outcome(T(k, s)))
        k = c.pick(["open", "close", "separators", "class", "notation", "actiontype", "mathvariant", "bevelled"])
        n = {"class": "mi", "notation": "menclose", "actiontype": "maction", "mathvariant": "mi", "bevelled": "mfrac"}.get(k, "mfenced")
        q = c.pick(['"', "'"])
        v = [ways[0], ways[1], lambda s: esc(s).replace(q, "&quot;" if q == '"' else "&apos;")][c.choose(3)](s)
        d = f"<math><{n} {k}={q}{v}{q}>" + ("x" if n == "mi" else "<mi>x</mi><mi>y</mi>") + f"</{n}></math>"
        return case(d, ref.outcome(T("mi", "x", **{k: s}) if n == "mi" else E(n, X, Y, **{k: s})))
    return Space("source", driver, f"{len(literals.texts())} texts that the source mentions, spelled in every way, in tokens and attribute values")


def declared():
    """Entities that the document declares itself."""
    vals = ["x", "α", "a b", "&#945;", "&#x3B1;", "2", "sin"]

    def driver(c):
        v = c.pick(vals)
        real = v.replace("&#945;", "α").replace("&#x3B1;", "α")
        kind = c.pick(["mi", "mtext", "mn", "mo"])
        pad = c.pick(["%s", "a%s", "%sa", "%s%s"])
        d = f'<!DOCTYPE math [<!ENTITY e "{v}">]><math><{kind}>{pad.replace("%s", "&e;")}</{kind}></math>'
        return case(d, ref.outcome(T(kind, pad.replace("%s", real))))
    def markup(c):
        v, t = c.pick([("<mi>x</mi>", (X,)), ("<mi>x</mi><mo>+</mo>", (X, mo("+"))), ("<mrow><mi>x</mi><mi>y</mi></mrow>", (mrow(X, Y),)), ("x", None), ("&f;", None),
                       ("<msup><mi>x</mi><mn>2</mn></msup>", (E("msup", X, TWO),)), ("", ()), ("<!-- c -->", ()), (" ", ())])
        w = c.choose(5)
        inner = t if t is not None else ()
        if t is None and w != 4:
            body, r = "<mi>&e;</mi><mn>&e;</mn><mtext>a&e; &e;</mtext>", mrow(X, T("mn", "x"), mtext("ax x"))
        elif w == 0:
            body, r = "<mrow>&e;<mi>y</mi>&e;</mrow>", mrow(*inner, Y, *inner)
        elif w == 1:
            body, r = "&e;", mrow(*inner)
        elif w == 2:
            body, r = "<msqrt>&e;</msqrt><mfenced>&e;&e;</mfenced>", mrow(E("msqrt", *inner), E("mfenced", *inner, *inner))
        elif w == 3:
            body, r = "<mtable><mtr><mtd>&e;</mtd><mtd>&e;</mtd></mtr></mtable>", E("mtable", E("mtr", E("mtd", *inner), E("mtd", *inner)))
        else:
            v = c.pick(["[", "x", "|", "&f;", "&#40;"])
            body = "<mfenced open='&e;' close=\"a&e;\" separators='&e;;'><mi>x</mi><mi>y</mi><mi>z</mi></mfenced>"
            r = v.replace("&f;", "x").replace("&#40;", "(")
            r = E("mfenced", X, Y, Z, open=r, close="a" + r, separators=r + ";")
        q = c.pick(['"', "'"])
        top = c.pick(["%s", "<!DOCTYPE math SYSTEM 'x.dtd' [%s]>"])
        decl = f"<!ENTITY f {q}x{q}><!ENTITY e {q}{v}{q}>"
        d = (top % decl if "DOCTYPE" in top else f"<!DOCTYPE math [{decl}]>") + f"<math>{body}</math>"
        return case(d, ref.outcome(r))

    def either(c):
        return driver(c) if c.flag() else markup(c)
    return Space("declared", either, "entities declared in the document, in every token")


def comments(top):
    """Many comments and instructions in one token and between elements."""
    def driver(c):
        n = 1 + c.choose(top)
        note = c.pick(NOTES[:-1])  # the last one has text between
        w = c.choose(4)
        if w == 0:
            d, t = "<math><mi>" + note.join("α" + "b" * n) + "</mi></math>", mi("αb" + "b" * (n - 1))
        elif w == 1:
            d, t = "<math><mrow>" + note * n + "<mi>x</mi>" + note * n + "<mi>y</mi>" + note * n + "</mrow></math>", mrow(X, Y)
        elif w == 2:
            d, t = note * n + "<math><mi>x</mi></math>" + note * n, X
        else:
            d, t = "<math><mtext>a" + note * n + "b</mtext><mo>" + note * n + "</mo></math>", mrow(mtext("ab"), mo(""))
        return case(d, ref.outcome(t))
    return Space("comments", driver, f"up to {top} comments or instructions in tokens, between elements, around the root")


def spaces(tier):
    q = tier == "quick"
    return [deviations(DOCS, 2), deviations(DOCS[:4] + DOCS[7:] if q else DOCS, 1 if q else 2, Prefixed, "prefixed"), everywhere(), prefixes(), prefix_values(3 if q else 4), source(tier),
            references(tier), declared(), comments(20 if q else 100),
            skipped.space(["mml:", "<mml:mi", "</mml:", " mml:", "/mml:", "<", ">", "'", '"', "-", "]", "?", "<![CDATA[", "<!--", "<?", "/>"], 3 if q else 4, [""], ["mml:", ""])] + ([] if q else [deviations([DOCS[0], DOCS[7], DOCS[9]], 3, name="spellings3")])
