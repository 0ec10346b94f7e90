"""C21: all formulas of a document, each once, in order, and nothing else."""
import impl
import literals
import present
import ref
import xmldoc
from explore import Skip
from gen import E, FEW, OPERANDS, Space, T, X, Y, Z, FRAMES, KIND_FRAMES, doc, mi, mn, mo, mrow, mtext, table, ONE, TWO
from space import agree, case
from term import esc, xml

RULE = ("every path of each space is one arrangement of formulas, texts and elements in a document; the LaTeX must be that of its outermost math elements in document "
        "order, by the reference model, the non-empty ones joined by a space")
ASSUMPTIONS = ["math elements are those named math, without prefix or with mml:"]

M = [
    "<math><mi>a</mi></math>",
    "<math><mi>b</mi><mo>+</mo></math>",
    "<math/>",
    "<math><mphantom><mi>h</mi></mphantom></math>",
    "<math><math><mi>c</mi></math></math>",
    "<math><mrow><mi>d</mi><math><mi>e</mi></math></mrow></math>",
    "<math display=\"block\"><mtable><mtr><mtd><mi>f</mi></mtd></mtr></mtable></math>",
    "<math><mtext>g h</mtext></math>",
    "<math><mspace/><mi></mi></math>",
    "<math><semantics><mi>k</mi><annotation-xml><math><mi>l</mi></math></annotation-xml></semantics></math>",
]
ANY = ("q:math mathml:math m:maths x:mi a abbr address article aside audio b base bdi bdo blockquote body br button canvas caption cite code col data datalist dd del details dfn dialog div dl dt em embed fieldset figure footer form h1 "
       "head header hr html i iframe img input ins kbd label legend li link main map mark menu meta meter nav noscript object ol optgroup option output p picture pre q s samp script section select "
       "small span strong style sub summary sup svg table tbody td template textarea tfoot th thead time title tr track u ul var video wbr foreignObject desc "
       "MATH Math maths mathematics mat m math1 math-x xmath formula equation "
       "mi mn mo mtext ms mrow mfrac msqrt mroot mstyle merror mpadded mphantom mfenced menclose msub msup msubsup munder mover munderover mmultiscripts mtable mtr mtd maction semantics annotation "
       "annotation-xml none mprescripts mspace mglyph "
       "document root doc text para chapter omml oMath w:p w:r m:oMath document-part _ é").split()
HOSTS = ["p", "div", "mrow", "mi", "mtable", "msup", "maths", "Math", "m", "mphantom", "mtext"]
TEXTS = ["", "t", " math ", "&lt;math&gt;", "\\frac", "\n\n", "<!-- <math><mi>z</mi></math> -->", "<![CDATA[<math><mi>z</mi></math>]]>", "<?q <math/>?>", "<br/>", "<mi>q</mi>", "<mtext>q</mtext>"]


def expected(d):
    v = xmldoc.verdict(d)
    assert v[0] == "is", d
    return v[1]


def items(c, n, depth, ms, hosts, texts):
    """A sequence of exactly n nodes: formulas and hosts, with texts between."""
    s = c.pick(texts, 1)
    while n:
        k = c.choose(2) if depth and n >= 1 else 0
        if k == 0:
            s += c.pick(ms)
            n -= 1
        else:
            size = 1 + c.choose(n)
            h = c.pick(hosts)
            s += f"<{h}>" + items(c, size - 1, depth - 1, ms, hosts, texts) + f"</{h}>"
            n -= size
        s += c.pick(texts, 1)
    return s


def forests(n, bound, ms, hosts, texts, name):
    def driver(c):
        k = c.choose(n + 1)
        d = f"<r>{items(c, k, n, ms, hosts, texts)}</r>"
        return case(d, expected(d))
    return Space(name, driver, f"every forest of up to {n} nodes over {len(ms)} formulas and {len(hosts)} hosts, with up to {bound} of {len(texts) - 1} texts or elements between", bound=bound)


def hosts():
    """Elements of every name around, beside and between formulas."""
    def driver(c):
        h = c.pick(ANY)
        w = c.choose(9)
        m, n = c.pick([(M[0], M[1]), (M[7], M[9])])
        a = c.pick(["", " hidden=\"hidden\"", " style=\"display:none\"", " class=\"math\"", " type=\"math\"", " math=\"math\"", " aria-hidden=\"true\""])
        if ":" in h:
            a += f' xmlns:{h.split(":")[0]}="urn:x"'
        o = f"<{h}{a}>"
        e = f"</{h}>"
        d = [f"{o}{m}{e}", f"{o}{m}{n}{e}", f"<p>{m}{o}{n}{e}{m}</p>", f"<p>{o}{m}{e}{n}</p>", f"<p>{o}<q>{m}</q>{e}{o}{n}{e}</p>", f"<p>{o}{o}{m}{e}{e}</p>", f"{o}x{m}y{n}z{e}", f"<p>{o}x{e}{m}{o}{e}</p>",
             f"<p><math{a.split(' xmlns')[0]}>{o}<mi>v</mi>{m}{e}</math>{n}</p>"][w]
        if w == 8:
            return case(d, expected2(d))
        return case(d, expected(d))
    return Space("hosts", driver, f"elements of {len(ANY)} names around, beside and between formulas, with 7 attributes")


def in_a_row(n):
    def driver(c):
        k = 1 + c.choose(n)
        sep = c.pick(["", " ", "\n", " and ", "<br/>"])
        d = "<p>" + sep.join(c.pick(M) for _ in range(k)) + "</p>"
        return case(d, expected(d))
    return Space("row", driver, f"every sequence of 1..{n} of {len(M)} formulas with 5 separators")


def many(tops):
    def driver(c):
        n = c.pick(tops)
        w = c.choose(5)
        if w == 0:
            d = "<p>" + "".join(f"<math><mn>{i}</mn></math>" for i in range(n)) + "</p>"
        elif w == 1:
            d = "<p>" + "".join(f"<q><math><mn>{i}</mn></math> {i} <math/></q>" for i in range(n)) + "</p>"
        elif w == 2:
            n = min(n, 150)
            d = "".join(f"<d><math><mn>{i}</mn></math>" for i in range(n)) + "</d>" * n
        elif w == 3:
            n = min(n, 150)
            d = "<d>" * n + "".join(f"</d><math><mn>{i}</mn></math>" for i in range(n - 1)) + "</d>"
        else:
            n = min(n, 100)
            d = "<math>" * n + "".join(f"<mn>{i}</mn></math>" for i in range(n))
        return case(d, expected(d))
    return Space("many", driver, f"{list(tops)} formulas side by side, in elements, before and after ever deeper elements, and inside one another")


def nested():
    """Math in a math, in every slot, beside other formulas."""
    def driver(c):
        inner = c.pick(OPERANDS)
        f = c.choose(len(FRAMES) + 1)
        t = E("math", inner)
        if f:
            t = FRAMES[f - 1](t)
        w = c.choose(3)
        d = "<math>" + xml(t) + "</math>"
        if w == 1:
            d = f"<p>{M[0]}{d}{M[1]}</p>"
        if w == 2:
            d = f"<p><q>{d}</q>t<b>{d}</b></p>"
        return case(d, expected2(d))
    return Space("nested", driver, f"math elements with {len(OPERANDS)} contents in {len(FRAMES)} slots of other math elements, alone and beside formulas")


def expected2(d):
    return xmldoc.outcome(d)


def around(hosts, ms, texts):
    """Each operand as a formula among others, in hosts."""
    def driver(c):
        o = c.pick(OPERANDS)
        h = c.pick(hosts)
        w = c.choose(6)
        a = c.pick(ms)
        m = f"<math>{xml(o)}</math>"
        t = c.pick(texts)
        d = [f"<{h}>{t}{m}{t}</{h}>", f"<{h}>{a}{t}{m}</{h}>", f"<{h}>{m}{t}{a}</{h}>", f"<{h}><{h}>{m}{t}</{h}>{a}</{h}>", f"<{h}>{a}<{h}>{m}</{h}>{t}{a}</{h}>",
             f"<{h}>{xml(o)}{t}{a}</{h}>"][w]
        return case(d, expected2(d))
    return Space("around", driver, "every operand as a formula (or outside of one) in every host, before, after and between formulas and texts")


def no_math():
    def driver(c):
        o = c.pick(OPERANDS)
        w = c.choose(4)
        x = xml(o).replace("<math", "<maths").replace("</math", "</maths")
        d = [x, f"<p>{x}</p>", f"<maths>{x}</maths>", f"<p a='math'>{x} math</p>"][w]
        return case(d, ("ok", ""))
    return Space("no-math", driver, "documents of operands without a math element")


def failing(top):
    """If one formula is faulty the whole conversion fails, wherever it stands."""
    bad = [E("msup", X), E("mfrac"), E("munderover", X, Y), E("mmultiscripts", X, Y)]

    def driver(c):
        b = f"<math>{xml(c.pick(bad))}</math>"
        n = c.choose(top + 1)
        parts = [c.pick(M) for _ in range(n)]
        parts.insert(c.choose(n + 1), b)
        h = c.pick(HOSTS)
        d = "<p>" + "".join(f"<{h}>{p}</{h}>" for p in parts) + "</p>"
        return case(d, xmldoc.outcome(d))
    return Space("failing", driver, "a formula with a wrong number of children among others")


def attributed():
    """Attributes on one or all of the math elements and on what stands around them: all formulas count."""
    def driver(c):
        k, v = c.pick(present.PAIRS)
        if k in ("open", "close", "separators", "notation", "mathvariant", "bevelled", "actiontype") and v in ("", k):
            raise Skip()
        a = f' {k}="{esc(v)}"'
        w = c.choose(7)
        m = ["<mi>a</mi>", "<mi>b</mi>", "<mi>c</mi>"]
        if w < 4:
            ms = [f"<math{a if w in (i, 3) else ''}>{x}</math>" for i, x in enumerate(m)]
            d = "<p>" + "".join(ms) + "</p>"
        elif w == 4:
            d = f"<p><math>{m[0]}</math><q{a}><math>{m[1]}</math></q><math>{m[2]}</math></p>"
        elif w == 5:
            d = f"<p{a}><math>{m[0]}</math><math><mrow{a}>{m[1]}</mrow></math>t<math{a}>{m[2]}</math></p>"
        else:
            d = f"<math>{m[0]}<math{a}>{m[1]}</math>{m[2]}</math>"
        return case(d, ("ok", "a b c"))
    return Space("attributes", driver, f"each of {len(present.PAIRS)} attributes on one or all of three formulas, around one, inside one")


def source():
    """Elements around named, texts around equal to, and attributes of what the source mentions."""
    def driver(c):
        s = c.pick(literals.texts())
        w = c.choose(6)
        if w < 3:
            if s not in literals.words() or s == "math":
                raise Skip()
            d = [f"<{s}>{M[0]}{M[1]}</{s}>", f"<p>{M[0]}<{s}/>{M[1]}<{s}>x</{s}></p>", f"<p>{M[0]}<{s}><q>{M[1]}</q></{s}></p>"][w]
        elif w == 3:
            d = f"<p>{esc(s)}{M[0]}{esc(s)}{M[1]}{esc(s)}</p>"
        elif w == 4:
            d = f"<p>{M[0]}<!-- {s.replace('-', '')} --><b>{esc(s)}</b>{M[1]}</p>"
        else:
            q = s.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")
            d = f'<p class="{q}"><math class="{q}"><mi>a</mi></math><math id="{q}"><mi>b</mi><mo>+</mo></math></p>'
        return case(d, ("ok", "a b +"))
    return Space("source", driver, f"elements, texts, comments and attributes of {len(literals.texts())} texts that the source mentions, around two formulas")


def spaces(tier):
    q = tier == "quick"
    few = [M[0], M[2], M[4], M[7]]
    return [hosts(), in_a_row(3 if q else 4), forests(3 if q else 4, 1, few, HOSTS[:4] if q else HOSTS, TEXTS, "forests"), forests(5 if q else 6, 0, M[:2] + M[4:5], ["p"], TEXTS, "shapes"),
            many(list(range(2, 40)) + [63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257, 500, 512, 513, 1000, 1001, 1024, 1025, 2500] if q else
                list(range(2, 300)) + [500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4097, 5000, 10001]), attributed(), source(), nested(), around(HOSTS[:3], M[:5], TEXTS[:8]) if q else around(HOSTS, M, TEXTS), no_math(), failing(2 if q else 3)]
