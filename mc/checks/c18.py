"""C18: broken documents are rejected, never half converted."""
import html.entities
import re

import impl
import literals
import ref
import xmldoc
from explore import Skip
from gen import E, OPERANDS, Space, T, X, Y, Z, KIND_FRAMES, mi, mn, mo, mrow, mtext, table, ONE, TWO
from space import agree, case
from term import xml

RULE = ("every path of each space damages one document in one way; an independent parser says whether the result is well formed (the LaTeX must then be "
        "that of the reference model), becomes so by leaving out unquoted attributes (then that LaTeX, or the parser's error), or is broken "
        "(then the parser's error)")
ASSUMPTIONS = ["the parser of the Python standard library (expat) decides what well-formed XML is; it reads the documents without the library under test",
               "documents that are Python strings without surrogate code points"]

DOCS = [
    "<math><mi>x</mi></math>",
    "<math><mfrac><mi>a</mi><mn>2</mn></mfrac></math>",
    '<math display="block"><msup><mi mathvariant="bold">x</mi><mn>2</mn></msup></math>',
    "<math><mtext>a&amp;b</mtext><mspace/><mo>&lt;</mo></math>",
    '<?xml version="1.0"?><!DOCTYPE math><math><!-- c --><mi><![CDATA[x]]></mi></math>',
    "<p>t<math><mi>x</mi></math><b/><math><mn>1</mn></math></p>",
    "<math><mtable><mtr><mtd><mi>x</mi></mtd><mtd/></mtr></mtable></math>",
    "<math><mfenced open='[' close=\"]\" separators=';|'><mi>x</mi><mi>y</mi><mi>z</mi></mfenced></math>",
    "<math><mmultiscripts><mi>x</mi><none/><mn>2</mn><mprescripts/><mi>y</mi><none/></mmultiscripts></math>",
    "<math>\n <mrow>\n  <mi>&#945;</mi>\n  <mo>&#x2b;</mo>\n </mrow>\n</math>\n",
    "<math><mi disabled>x</mi><mo x=5>+</mo></math>",
    "<math/>",
    "",
]
ALPHABET = list("<>&\"'/= ax!-]?;:#5.\n[")


def judge(case, out):
    v = xmldoc.verdict(case["doc"])
    if v[0] == "is":
        return agree(v[1], out)
    msg = agree(("xmlerror",), out)
    if v[0] == "may" and msg is not None:
        return agree(v[1], out) and msg + f" or {v[1]}"
    return msg


def space(name, driver, rule):
    return Space(name, driver, rule, judge=judge)


def truncations(docs):
    def driver(c):
        d = c.pick(docs)
        i = c.choose(len(d) + 1)
        w = c.choose(3)
        return case((d[:i], d[i:], d[:i] + d[:i])[w], None)
    return space("truncations", driver, f"every prefix and suffix of {len(docs)} documents, and every prefix twice")


def edits(docs, alphabet, n):
    """Every single-character insertion, deletion and replacement (n times)."""
    def driver(c):
        d = c.pick(docs)
        low = 0
        for _ in range(1 + c.choose(n)):
            if low > len(d):
                raise Skip()
            i = low + c.choose(len(d) + 1 - low)
            k = c.choose(2 * len(alphabet) + 1)
            if k == 0:
                if i >= len(d):
                    raise Skip()
                d = d[:i] + d[i + 1:]
                low = i
            elif k <= len(alphabet):
                d = d[:i] + alphabet[k - 1] + d[i:]
                low = i + 1
            else:
                if i >= len(d):
                    raise Skip()
                d = d[:i] + alphabet[k - 1 - len(alphabet)] + d[i + 1:]
                low = i + 1
        return case(d, None)
    return space("edits" if n == 1 else "pairs", driver, f"1..{n} insertions, deletions or replacements of one of {len(alphabet)} characters at every place of {len(docs)} documents")


def ranges(docs):
    """Every substring left out or repeated."""
    def driver(c):
        d = c.pick(docs)
        i = c.choose(len(d) + 1)
        j = i + 1 + c.choose(len(d) - i)
        return case(c.pick([d[:i] + d[j:], d[:j] + d[i:j] + d[j:]]), None)
    return space("ranges", driver, f"every substring of {len(docs)} documents deleted or repeated")


SNIPPETS = ["<", ">", "</", "/>", "<mi>", "</mi>", "</math>", "<math>", "<mrow>", "</mrow>", "<x", "<!", "<!--", "-->", "<!-- -- -->", "<![CDATA[", "]]>", "<?", "?>", "<?xml version='1.0'?>",
            "<!DOCTYPE x>", "&", "&;", "&x", "&nbsp;", "&alpha;", "&#;", "&#x;", "&#0;", "&#xD800;", "&#1114112;", "&lt", "&amp", "\"", "'", " a='1' a='2'", " a='<'", " a=\"", " b='",
            "a='1'", " 1='x'", " a='&'", " a='1'b='2'", " xmlns:p='q' p:a='1' p:a='1'", "q:", "<q:mi/>", "\x00", "\x01", "\x0c", "\ufffe", "text", "<mi/>", "<mi>y</mi>", "<mi>y",
            "y</mi>", "<mi><mrow></mi></mrow>", "<MI></mi>", "<math><mi>q</mi></math>", "</", "<mi", "<mi a", "<mi a=", "<mi a='", "<mi a='b'", "< mi>", "<mi >", "< /mi>", "</ mi>", "</mi >",
            "<1></1>", "<-/>", "<>", "</>", "<mi/ >", "<mi//>", "<mi><", "&lt;", "&#65;", "&#x41;", "<?p q?>", "<!-- c -->", "<![CDATA[y]]>"]


def snippets(docs, n):
    def driver(c):
        d = c.pick(docs)
        low = 0
        for _ in range(n):
            i = low + c.choose(len(d) + 1 - low)
            s = c.pick(SNIPPETS)
            d = d[:i] + s + d[i:]
            low = i + len(s)
        return case(d, None)
    return space(f"snippets{n}", driver, f"{n} of {len(SNIPPETS)} pieces of markup inserted at every place of {len(docs)} documents")


TOKEN = re.compile(r"<!--.*?-->|<!\[CDATA\[.*?\]\]>|<[^<>]*>|[^<>]+", re.S)


def tags(docs):
    """Every tag or text deleted, doubled, moved, exchanged with another, or renamed."""
    def driver(c):
        d = c.pick(docs)
        ts = TOKEN.findall(d)
        if not ts:
            raise Skip()
        i = c.choose(len(ts))
        w = c.choose(6)
        if w == 0:
            del ts[i]
        elif w == 1:
            ts.insert(i, ts[i])
        elif w == 2:
            j = c.choose(len(ts))
            ts[i], ts[j] = ts[j], ts[i]
        elif w == 3:
            t = ts.pop(i)
            ts.insert(c.choose(len(ts) + 1), t)
        elif w == 4:
            j = c.choose(len(ts))
            if j <= i:
                raise Skip()
            del ts[j], ts[i]
        else:
            m = re.match(r"</?", ts[i])
            if not m:
                raise Skip()
            ts[i] = c.pick([m.group() + "z" + ts[i][m.end():], m.group() + ts[i][m.end():].upper(), m.group() + "p:" + ts[i][m.end():],
                            ("</" if m.group() == "<" else "<") + ts[i][m.end():], ts[i].replace("/", ""), ts[i].replace(">", " >"), ts[i].replace(">", "/>")])
        return case("".join(ts), None)
    return space("tags", driver, f"in {len(docs)} documents every tag, text or comment deleted (also two), doubled, exchanged, moved or renamed")


def operands():
    """One fault in the spelling of every operand in every kind of container."""
    def driver(c):
        o = c.pick(OPERANDS)
        f = c.choose(len(KIND_FRAMES) + 1)
        t = KIND_FRAMES[f - 1](o) if f else o
        d = f"<math>{xml(t)}</math>"
        w = c.choose(6)
        if w == 0:
            d = d[:-7]
        elif w == 1:
            k = d.rfind("</", 0, len(d) - 7)
            if k < 0:
                raise Skip()
            d = d[:k] + d[d.index(">", k) + 1:]
        elif w == 2:
            d = d.replace("<math>", "<math><mi>q", 1)
        elif w == 3:
            d = d + "<mi>q</mi>"
        elif w == 4:
            d = d[:-7] + "</mi></math>"
        else:
            d = d[:-7] + "<mo>&nbsp;</mo></math>"
        return case(d, ("xmlerror",))
    return Space("operands", driver, "operands in every kind of container with a missing, extra or misplaced tag, a second root or an unknown entity")


def mixed(n):
    """Damage that can be repaired, next to a fault that cannot be."""
    broken = ["<mi>", "</mi>", "&", "&nbsp;", "<", "<mi a='1' a='2'/>", "<mi a='<'/>", "<mi a='1'b='2'/>", "<![CDATA[", "<!-- -- -->", "<?xml version='1.0'?>", "\x01", "<mi 5=6/>", "<1/>", "<mi 'q'/>"]
    damage = ["disabled", "x=5", "x=", "open", "a-b=c"]

    def driver(c):
        parts = []
        for _ in range(1 + c.choose(n)):
            parts.append(f"<mi {c.pick(damage)}>x</mi>")
        parts.insert(c.choose(len(parts) + 1), c.pick(broken))
        root = c.pick(["<math>", "<math disabled>", "<math x=5 b>", '<math a="b">'])
        end = c.pick(["</math>", "</math >", "</math><q>", ""])
        return case(root + "".join(parts) + end, None)
    return space("mixed", driver, f"1..{n} elements with unquoted attributes beside one of {len(broken)} faults")


PLACES = ["<math><mi>%s</mi></math>", "<math><mo>a%sb</mo></math>", "<math><mtext>%s %s</mtext></math>", "<math><mfenced open='%s'><mi>x</mi></mfenced></math>", "<math>%s</math>",
          "<p>%s<math><mi>x</mi></math></p>", "<math><mi disabled>%s</mi></math>", "<!DOCTYPE math><math><mn>1</mn><mo>%s</mo></math>", "<math><mi>x</mi></math>%s", "<math><!-- %s --><mn>%s</mn></math>",
          '<?xml version="1.0"?><math xmlns="http://www.w3.org/1998/Math/MathML"><mi>x</mi><mo>%s</mo><mi>y</mi></math>']


def entities():
    """Every entity name of HTML and MathML, and what the source mentions, at every kind of place."""
    names = sorted({n.rstrip(";") for n in html.entities.html5} | set(literals.words()) | {"x", "X", "foo", "lt2", "Amp", "LT", "ApplyFunction"})

    def driver(c):
        n = c.pick(names)
        e = c.pick([f"&{n};", f"&{n}", f"&{n.lower()};" if n.lower() != n else f"&{n} ;"])
        d = c.pick(PLACES).replace("%s", e)
        return case(d, None)
    return space("entities", driver, f"{len(names)} entity names at {len(PLACES)} kinds of places")


def source():
    """Faults made of what the source mentions."""
    ways = [lambda s: f"<math><{s}><mi>x</mi></math>", lambda s: f"<math><mi>x</mi></{s}></math>", lambda s: f"<math><{s}>x</m{s}></math>", lambda s: f"<{s}><math><mi>x</mi></{s}></math>",
            lambda s: f"<math><mi {s}='1' {s}='2'>x</mi></math>", lambda s: f"<math><mi {s}='<'>x</mi></math>", lambda s: f"<math><mi>x</mi></math><{s}/>", lambda s: f"<math><mi>x</mi></math>{s}",
            lambda s: f"<math><{s}><mi>x</mi></{s.upper()}></math>", lambda s: f"<math><{s} x='1><mi>x</mi></{s}></math>", lambda s: f"<math><mi>x</mi><{s}", lambda s: f"{s}<math><mi>x</mi></math>"]
    raw = [lambda s: f"<math><mi>x{s}</math>", lambda s: f"<math><mi>{s}</mi>", lambda s: s, lambda s: f"<math>{s}<mi></math>", lambda s: f"<math><mi a='{s}>x</mi></math>", lambda s: f"<math><mi {s}>x</mo></math>",
           lambda s: f"<math><mi>x</mi>{s}</mi></math>", lambda s: f"<math><mi>{s}&</mi></math>", lambda s: f"<math><mi>x</mi></math>{s}<"]

    def driver(c):
        if c.flag():
            return case(c.pick(ways)(c.pick(literals.words())), None)
        return case(c.pick(raw)(c.pick([t for t in literals.texts() if "mml:" not in t])), None)
    return space("source", driver, f"{len(ways) + len(raw)} faults with each of {len(literals.texts())} texts that the source mentions")


def far(sizes):
    """A fault after, before or around much that is well formed."""
    faults = ["<mi>", "</mi>", "&", "&nbsp;", "<", "<mi a='1' a='2'/>", "<mi a='<'/>", "<mi a='1'b='2'/>", "<mi>q</mo>", "<mi 'q'/>", "<mi x=5>", "\x01", "<![CDATA[", "<!--", "]]>"]

    def driver(c):
        n, f = c.pick(sizes), c.pick(faults)
        pad = [lambda: "<mi>x</mi>" * (n // 10 + 1), lambda: "\n" * n, lambda: f"<mtext>{'a ' * (n // 2)}</mtext>", lambda: "<mi y=5>x</mi>" * (n // 14 + 1),
               lambda: "<mi>x</mi>\n" * (n // 11 + 1), lambda: f"<!--{'-a' * (n // 2)}-->"][c.choose(6)]()
        d = [lambda: f"<math>{pad}{f}</math>", lambda: f"<math>{f}{pad}</math>", lambda: f"<math>{pad}</math>{f}", lambda: f"<math><mrow>{pad}{f}{pad}</mrow></math>"][c.choose(4)]()
        return {"doc": d, "expect": ("xmlerror",)}
    return Space("far", driver, f"{len(faults)} faults before, after and between {len(sizes)} lengths of well-formed content up to {sizes[-1]}")


def fragments(n):
    """Every short string of fragments."""
    from checks.c26 import FRAGMENTS

    def driver(c):
        k = c.choose(n + 1)
        s = "".join(c.pick(FRAGMENTS) for _ in range(k))
        return case(s if c.flag() else "<math>" + s + "</math>", None)
    return Space("fragments", driver, f"every string of up to {n} of {len(FRAGMENTS)} fragments, alone and in a formula", judge=judge, split=4096)


def spaces(tier):
    q = tier == "quick"
    return [fragments(3 if q else 4), truncations(DOCS), edits(DOCS, ALPHABET, 1), ranges(DOCS), snippets(DOCS, 1), tags(DOCS), operands(), mixed(2 if q else 4), entities(), source(),
            far([10, 60, 100, 129, 256, 300, 512, 600, 1025, 2049, 4097, 5000, 9000, 20000, 66000] if q else list(range(10, 300, 3)) + [2 ** k + d for k in range(9, 18) for d in (-1, 0, 1)]),
            edits(["<mi/>", "<math/>", "<math>x</math>"] if q else ["<math/>", "<math><mi>x</mi></math>", "<math><mi a='b'/></math>"], ALPHABET if not q else list("<>&\"'/= a!-;"), 2)] + ([] if q else [snippets(DOCS[:2], 2)])
