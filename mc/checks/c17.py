"""C17: attributes without a quoted value."""
import re

import impl
import literals
import ref
import skipped
import xmldoc
from checks.c15 import expect
from gen import E, EA, FRAMES, OPERANDS, Space, T, X, Y, Z, KIND_FRAMES, doc, mi, mn, mo, mrow, mtext, table, TWO
from space import case, agree
from spell import Plain
from term import esc, esca, xml

RULE = ("every path of each space puts damaged attributes into one document (or none at all); the LaTeX must be that of the reference model for the "
        "document without them")
ASSUMPTIONS = ["a damaged attribute is name, name= or name=value with neither white space, quotes, < nor > in the value; the rest of the document is well formed"]

DOCS = [
    E("math", X, mo("+"), Y),
    E("math", mtext("disabled x=5 b", alt="a disabled x=5 b", mathvariant="bold"), mi("x")),
    E("math", E("mfenced", X, Y, Z, open="[", close="]", separators=";,")),
    E("math", E("mfrac", X, mi("α", mathvariant="bold"), bevelled="true"), display="block"),
    E("math", table([X, Y])),
    E("math", E("mspace", width="1em"), E("mi"), E("msup", X, TWO)),
    E("math", mtext("a > b = c / d", alt="x > y", title="it's <b>"), E("mo")),
    E("html", E("math", mi("α"), id="m"), E("p", E("math", mi("b"), lang="en"))),
    E("math", E("menclose", X, notation="box"), E("maction", X, Y, actiontype="toggle")),
    E("math", E("mmultiscripts", X, E("none"), TWO, E("mprescripts"), Y, Z)),
]
FORMS = ["disabled", "x=5", "x=", "open", "close", "mathvariant=bold", "bevelled", "w = ", "a-b", "href=http://a.b/c?d=e", "color=#fff", "size=50%", "x==", "é", "x=a=b",
         "notation=", "_x", "data-x=1/2", "nowrap  ", "checked\n", "x=\n", "separators", "mml=1", "id", "display", "alt=d", "\talt"]


class Damaged(Plain):
    """A damaged attribute may stand before, between and after the attributes of every start tag."""
    forms = FORMS

    def damage(self):
        k = self.c.choose(len(self.forms) + 1, 1)
        return " " + self.forms[k - 1] if k else ""

    def gap(self):
        return self.damage() + " "

    def tag_end(self, name):
        return self.damage()

    def empty(self, name):
        return self.c.pick([" />", f"></{name}>"])


class Once(Damaged):
    """... every form, also when nothing separates it from the end of an empty element."""

    def empty(self, name):
        return self.c.pick([" />", "/>", f"></{name}>", " / >".replace(" >", ">")])


def deviations(docs, bound, cls, name):
    def driver(c):
        t = c.pick(docs)
        return case(cls(c).document(t), expect(t))
    return Space(name, driver, f"{len(docs)} documents with up to {bound} damaged attributes of {len(cls.forms)} forms at every place", bound=bound)


class Brief(Damaged):
    forms = ["disabled", "x=5", "open", "x=", "mathvariant=bold", "href=http://a.b/c?d=e", "w = ", "id", "checked\n"]


class Few(Damaged):
    forms = ["disabled", "x=5", "open", "x="]


def many(top):
    """The same damage many times, in one tag and over many tags."""
    def driver(c):
        n = 1 + c.choose(top)
        f = c.pick(["a%d", "a%d=", "a%d=v", "a%d=%d", "same", "same=1"])
        dam = " ".join(f % ((i,) * f.count("%d")) for i in range(n))
        w = c.choose(7)
        if w == 0:
            return case(f"<math {dam}><mi>x</mi></math>", ("ok", "x"))
        if w == 1:
            return case(f'<math><mi {dam} mathvariant="bold">x</mi></math>', ("ok", "\\mathbf{x}"))
        if w == 2:
            return case(f'<math><mi mathvariant="bold" {dam}>x</mi></math>', ("ok", "\\mathbf{x}"))
        one = f % ((1,) * f.count("%d"))
        if w == 3:
            return case("<math>" + f"<mi {one}>x</mi>" * n + "</math>", ("ok", " ".join("x" * n)))
        if w == 4:
            return case("<math>" + "".join(f"<mi b{i}=v>x</mi>" for i in range(n)) + "</math>", ("ok", " ".join("x" * n)))
        if w == 5:
            return case("<math>" + f"<mrow {one}>" * n + "<mi>x</mi>" + "</mrow>" * n + "</math>", ("ok", "x"))
        good = " ".join(f'g{i}="{i}"' for i in range(n))
        return case(f'<math><mfenced {one} {good} {one} open="[" {one} close="]">x<mi>y</mi></mfenced></math>', ("ok", "\\left[y\\right]"))
    return Space("many", driver, f"1..{top} damaged attributes of 6 forms in one tag, over many tags, nested, among many good ones")


def all_slots():
    """A damaged attribute on every element of operands in every slot."""
    class Each(Plain):
        def __init__(self, f, first):
            self.f, self.first = f, first

        def element(self, t):
            return Plain.element(self, t)

        def attrs(self, attrs, name=""):
            return attrs

        def name(self, n):
            return n + (" " + self.f if self.first else "")

        def tag_end(self, name):
            return "" if self.first else " " + self.f

        def end_tag(self, n):
            return f"</{n.split(' ')[0]}>"

        def empty(self, n):
            return f"></{n.split(' ')[0]}>"

    def driver(c):
        o = c.pick(OPERANDS)
        f = c.choose(len(KIND_FRAMES) + 1)
        t = KIND_FRAMES[f - 1](o) if f else o
        d = Each(c.pick(["disabled", "x=5", "open=", "mathvariant", "bevelled=true"]), c.flag())
        return case(d.document(E("math", t)), ref.outcome(t))
    return Space("slots", driver, "operands in every kind of container, with a damaged attribute on every element")


def lookalikes():
    """Text, attribute values, comments, CDATA and instructions that look like damage, next to real damage or without any."""
    texts = ["disabled", "x=5", " disabled ", "a disabled b", "x=", "a > b disabled", "disabled>", "x=5 >", "= 5", "/disabled", "'x=5'", '"x=5"', 'x="5"', "a='5' b", "a=b c=d",
             "=", "==", ">", "'", '"', "''", '"">', "/>", "a/>b", "--", "]]", "]", "?>", "-->"]

    def driver(c):
        txt = c.pick(texts)
        dam = c.pick(["", " disabled", " x=5", " disabled x=5"])
        w = c.choose(9)
        e = esc(txt)
        val = esca(txt)
        shown = mtext(txt)
        if w == 0:
            return case(f"<math><mi{dam}>q</mi><mtext>{e}</mtext></math>", ref.outcome(mi("q"), shown))
        if w == 1:
            return case(f"<math><mtext{dam}>{e}</mtext></math>", ref.outcome(shown))
        if w == 2:
            return case(f'<math><mi alt="{val}"{dam} mathvariant="bold">x</mi></math>', ref.outcome(mi("x", mathvariant="bold")))
        if w == 3:
            v = esc(txt).replace("'", "&#39;")
            return case(f"<math><mi{dam} alt='{v}' mathvariant='bold'>x</mi></math>", ref.outcome(mi("x", mathvariant="bold")))
        if w == 4:
            v = "-" if "--" in txt else txt
            return case(f"<math><!-- <mi {v}> --><mi{dam}>x</mi><!--{v} <mi x=5>--></math>", ref.outcome(X))
        if w == 5:
            return case(f"<math><mtext{dam}><![CDATA[{txt if ']]>' not in txt else ''}]]></mtext></math>", ref.outcome(shown))
        if w == 6:
            v = txt + " " if txt.endswith("]]") else txt  # ]]> would end the section
            return case(f"<math><mtext{dam}><![CDATA[<mi {v}> <b c=d>]]></mtext></math>", ref.outcome(mtext(f"<mi {v}> <b c=d>")))
        if w == 7:
            v = "p" if "?>" in txt else txt
            return case(f"<?p <mi {v}>?><math><?q {v}?><mi{dam}>x</mi></math>", ref.outcome(X))
        s = (txt[:1] or ",")
        return case(f'<math><mfenced separators="{esca(s)}"{dam}><mi>x</mi><mi>y</mi></mfenced></math>', ref.outcome(E("mfenced", X, Y, separators=s)))
    return Space("lookalikes", driver, f"{len(texts)} texts that look like damage in text, values, comments, CDATA and instructions, with and without damage")


def intact():
    """Well-formed documents are never altered: values and names of every length and character, all gaps."""
    names = ["a", "x1", "data-x", "xml:lang", "A", "_", "a.b", "é"]
    vals = ["", "v", " ", "a b", ">", "a>b", "=", "a=b", "'", "/", "a/", " x=5 ", "disabled", "x=", "<b>", "é"]

    def driver(c):
        n, v = c.pick(names), c.pick(vals)
        eq = c.pick(["=", " = ", "= ", " =", "\n=\n"])
        q = c.pick(['"', "'"])
        s = esca(v) if q == '"' else esc(v).replace("'", "&#39;")
        gap = c.pick([" ", "\n", "\t ", "  "])
        tail = c.pick(["", " ", "\n"])
        a = f"{n}{eq}{q}{s}{q}"
        b = f'mathvariant{eq}{q}bold{q}'
        w = c.choose(4)
        body = [f"<mi{gap}{a}{gap}{b}{tail}>x</mi>", f"<mi{gap}{b}{gap}{a}{tail}>x</mi>", f"<mi{gap}{a}{tail}/>", f"<mtext{gap}{a}{tail}>{esc(v)}q</mtext>"][w]
        t = [mi("x", mathvariant="bold"), mi("x", mathvariant="bold"), mi(""), mtext(v + "q")][w]
        if c.flag():
            return case(f"<math>{body}<mo disabled>+</mo></math>", ref.outcome(t, mo("+")))
        return case(f"<math>{body}<mo>+</mo></math>", ref.outcome(t, mo("+")))
    return Space("intact", driver, f"{len(names)} names x {len(vals)} values x equals signs x quotes x gaps, alone and beside a damaged element")


def values(n):
    """Unquoted values: every string over the characters they may hold."""
    alphabet = ["a", "5", "/", "=", ".", "-", "#", ":", "%", ";", "&", "]", "?", "!", "é"]

    def driver(c):
        v = "".join(c.pick(alphabet) for _ in range(c.choose(n + 1)))
        w = c.choose(4)
        if w == 0:
            return case(f'<math><mi x={v} mathvariant="bold">x</mi></math>', ref.outcome(mi("x", mathvariant="bold")))
        if w == 1:
            return case(f'<math><mi mathvariant="bold" x={v} >x</mi></math>', ref.outcome(mi("x", mathvariant="bold")))
        if w == 2:
            return case(f'<math><mspace x={v} /><mi>x</mi></math>', ref.outcome(E("mspace"), X))
        return case(f'<math><mi x={v}\n y={v} mathvariant="bold">x</mi></math>', ref.outcome(mi("x", mathvariant="bold")))
    return Space("values", driver, f"every unquoted value of up to {n} characters over {len(alphabet)} characters, in four places")


NODAMAGE = re.compile(r"[\s\"'<>]")


def source():
    """Values, names and texts that the source mentions (and the names of the elements and attributes themselves), beside damage and as damage."""
    words = sorted(set(literals.texts()) | {"mi", "mn", "mfenced", "open", "class", "id", "mstyle", "math"})
    names = [w for w in words if literals.NAME.match(w)]
    bare = [w for w in words if not NODAMAGE.search(w) and "&" not in w and not w.startswith("/")]
    dams = [" disabled", " open=5", " x="]

    def driver(c):
        w = c.choose(5)
        if w == 0:  # good values
            k = c.pick(["open", "close", "separators", "class", "notation", "actiontype", "mathvariant", "bevelled", "id"])
            n = {"class": "mi", "id": "mstyle", "notation": "menclose", "actiontype": "maction", "mathvariant": "mi", "bevelled": "mfrac"}.get(k, "mfenced")
            s = c.pick(words)
            q = c.pick(['"', "'"])
            v = esc(s).replace(q, "&#34;" if q == '"' else "&#39;")
            dam = c.pick([d for d in dams if d.split("=")[0].strip() != k])
            a = f" {k}={q}{v}{q}"
            tag = c.pick([a + dam, dam + a, a])
            d = f"<math><mo{dam}>+</mo><{n}{tag}>" + ("x" if n == "mi" else "<mi>x</mi><mi>y</mi>") + f"</{n}></math>"
            return case(d, ref.outcome(mo("+"), T("mi", "x", **{k: s}) if n == "mi" else E(n, X, Y, **{k: s})))
        if w == 1:  # names of damage
            f = c.pick(names) + c.pick(["", "=", "=5", "=/"])
            e = c.pick([("mi", "x", X), ("mfenced", "<mi>x</mi><mi>y</mi>", E("mfenced", X, Y)), ("mfrac", "<mi>x</mi><mi>y</mi>", E("mfrac", X, Y)), ("mstyle", "<mi>x</mi>", mrow(X))])
            good = c.pick(["", ' class="b"', f" id='{f.split('=')[0]}'"])
            tag = f" {f} {good}" if c.flag() else f"{good} {f} "
            return case(f"<math><{e[0]}{tag}>{e[1]}</{e[0]}></math>", ref.outcome(e[2]))
        if w == 2:  # values of damage
            v = c.pick(bare)
            return case(f"<math><mi {c.pick(['x', 'open', 'mathvariant', 'class'])}={v} id='i'>x</mi><mtext>{esc(v)} q</mtext></math>", ref.outcome(X, mtext(v + " q")))
        if w == 3:  # texts
            s = c.pick(words)
            k = c.pick(["mi", "mo", "mn", "mtext"])
            return case(f"<math><{k}{c.pick(dams)}>{esc(s)}</{k}></math>", ref.outcome(T(k, s)))
        g = c.pick([n for n in names if n not in ("mi", "mo", "mn", "mtext", "math", "void") and not n.startswith("m")])
        return case(f"<math><{g}{c.pick(dams)}><mi>x</mi></{g}></math>", ref.outcome(X))
    return Space("source", driver, f"{len(words)} values, names and texts that the source mentions, beside damage and as damage")


def far(sizes):
    """Damage at the end of long documents: long texts, values, many elements, many lines."""
    def driver(c):
        n = c.pick(sizes)
        dam = c.pick([" disabled", " x=5", " open="])
        w = c.choose(7)
        at = c.choose(3)
        a, b = (dam if at != 1 else ""), (dam if at != 0 else "")
        if w == 0:
            return case(f"<math><mi{a}>{'x' * n}</mi><mi{b}>y</mi></math>", ref.outcome(mi("x" * n), Y))
        if w == 1:
            return case(f"<math><mi{a} alt='{'x' * n}'>x</mi><mi{b}>y</mi></math>", ref.outcome(X, Y))
        if w == 2:
            k = n // 10 + 1
            return case(f"<math><mo{a}>+</mo>" + "<mi>x</mi>" * k + f"<mi{b}>y</mi></math>", ref.outcome(mo("+"), *[X] * k, Y))
        if w == 3:
            return case(f"<math><mo{a}>+</mo>" + "\n" * n + f"<mi{b}>y</mi></math>", ref.outcome(mo("+"), Y))
        if w == 4:
            k = n // 12 + 1
            return case(f"<math><mo{a}>+</mo>\n" + "<mi>x</mi>\r\n" * k + f"<mi{b}>y</mi></math>", ref.outcome(mo("+"), *[X] * k, Y))
        if w == 5:
            return case(f"<math><!--{'x=5 ' * (n // 4)}--><mo{a}>+</mo><mi{b}>y</mi></math>", ref.outcome(mo("+"), Y))
        k = n // 20 + 1
        return case(f"<math><mo{a}>+</mo>" + f"<mi{b} id='i'>x</mi>" * k + "</math>", ref.outcome(mo("+"), *[X] * k))
    return Space("far", driver, f"damage before and after {len(sizes)} lengths of text, values, elements, lines and comments up to {sizes[-1]}")


def prefixed():
    """mml: on the elements and on the damaged attributes."""
    def driver(c):
        dam = c.pick(["mml:x", "mml:x=5", "mml:open=", "x=mml:y", "x=/mml:y", "disabled", "a=mml:", "mml=mml:x=5"])
        good = c.pick(["", ' id="mml:i"', " class=' mml:c '", ' title="a > mml:b"'])
        tag = f" {dam}{good}" if c.flag() else f"{good} {dam} "
        p = c.pick(["mml:", ""])
        ns = c.pick(["", ' xmlns:mml="urn:m"'])
        w = c.choose(3)
        if w == 0:
            return case(f"<{p}math{ns}><{p}mi{tag}>x</{p}mi><{p}mtext>a mml:b {esc(dam)}</{p}mtext></{p}math>", ref.outcome(X, mtext("a mml:b " + dam)))
        if w == 1:
            return case(f"<{p}math{ns}{tag}><{p}msup{tag}><{p}mi>x</{p}mi><{p}mn{tag}>2</{p}mn></{p}msup></{p}math>", ref.outcome(E("msup", X, TWO)))
        return case(f'<{p}math{ns}><{p}mfenced open=" mml:" close="/mml:"{tag} separators="mml:"><{p}mi>x</{p}mi><{p}mi>y</{p}mi></{p}mfenced></{p}math>',
                    ref.outcome(E("mfenced", X, Y, open=" mml:", close="/mml:", separators="mml:")))
    return Space("prefixed", driver, "damage with and without mml: in documents with and without the prefix, values that hold it")


MARKUP = ["<mi", "<mi a", "<mi a=5", ">", "<", "'", '"', " x", "-", "]", "]]", "?", "</mi", "/>", "<![CDATA[", "<!--", "<?p", "&", " ", "=", "<1", "!"]


def spaces(tier):
    q = tier == "quick"
    return [deviations(DOCS, 1, Once, "one"), deviations(DOCS[:5] if q else DOCS, 2, Brief if q else Damaged, "two"), deviations(DOCS[:6], 3, Few, "three") if q else deviations(DOCS, 4, Few, "four"),
            many(40 if q else 300), all_slots(), skipped.space(MARKUP, 3 if q else 4, ["", " disabled", " x=5"], [""]), lookalikes(), intact(), values(3 if q else 4), source(), prefixed(),
            far([5, 10, 50, 100, 127, 128, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4000, 4095, 4096, 4097, 5000, 8192, 10000, 20000, 65536, 70000] if q else
                list(range(1, 300)) + [2 ** k + d for k in range(9, 19) for d in (-1, 0, 1)])]
