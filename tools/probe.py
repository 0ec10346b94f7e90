"""Which situations an element is met in: pairs of features of every converted element, for tools/pairs.py."""
import os

KINDS = set("math mi mo mn mtext msqrt mfenced mfrac mroot maction menclose merror mphantom msup msub msubsup mmultiscripts munderover mtable mtr mover munder mrow mpadded "
            "mtd mstyle semantics annotation mprescripts none mspace annotation-xml mlabeledtr".split())
TOKENS = {"mi", "mo", "mn", "mtext"}
seen = set()
out = None


def kind(e):
    return None if e is None else e.name if e.name in KINDS else "?"


def bucket(n, tops=(0, 1, 2, 3, 4, 8, 16, 64)):
    for t in tops:
        if n <= t:
            return t
    return 999


def shape(v):
    """The class of a token's text."""
    if not v:
        return "empty"
    if len(v) == 1:
        return "letter" if v.isascii() and v.isalpha() else "digit" if v.isascii() and v.isdigit() else "ascii" if v.isascii() else "bmp" if ord(v) < 65536 else "astral"
    if v.isascii():
        return "word" if v.isalpha() else "number" if v.replace(".", "").isdigit() else "words" if " " in v else "mix"
    return "long-mix" if " " in v else "mix-u"


USED = {"mi": ["mathvariant"], "mtext": ["mathvariant"], "mfenced": ["open", "close", "separators"], "mfrac": ["bevelled"], "maction": ["actiontype"], "menclose": ["notation"]}


def features(e, parent, grand, index, depth, same):
    kids = e.children
    sibs = parent.children if parent is not None else [e]
    f = [("parent", kind(parent)), ("grand", kind(grand)), ("index", bucket(index)), ("last", index == len(sibs) - 1), ("siblings", bucket(len(sibs))),
         ("prev", kind(sibs[index - 1]) if index else None), ("next", kind(sibs[index + 1]) if index + 1 < len(sibs) else None), ("depth", bucket(depth)), ("same", bucket(same)),
         ("others", len([a for a in e.attributes if a not in USED.get(e.name, ())]) > 0)]
    for a in USED.get(e.name, ()):
        v = e.attributes.get(a)
        f.append((a, v if v is None or len(v) <= 12 else "long"))
    if e.name in TOKENS:
        f.append(("text", shape(e.value)))
        f.append(("length", bucket(len(e.value))))
    else:
        f.append(("kids", bucket(len(kids), (0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 64))))
        for i in range(4):
            k = kids[i] if i < len(kids) else None
            f.append((f"kid{i}", kind(k)))
            if i < 3 and k is not None:
                f.append((f"kid{i}#", shape(k.value) if k.name in TOKENS else bucket(len(k.children))))
        f.append(("lastkid", kind(kids[-1]) if kids else None))
        if kids:
            f.append(("alike", len({(k.name, k.value, len(k.children)) for k in kids}) < len(kids)))
    return f


def note(trees):
    new = []
    stack = [(t, None, None, 0, 1, ()) for t in trees]
    n = 0
    while stack:
        e, p, g, i, d, line = stack.pop()
        n += 1
        if n > 400:
            break
        f = features(e, p, g, i, d, line.count(e.name))
        name = kind(e)
        for a in range(len(f)):
            for b in range(a + 1, len(f)):
                k = (name, f[a], f[b])
                if k not in seen:
                    seen.add(k)
                    new.append(repr(k))
        up = (line + (e.name,))[-70:]
        for j, c in enumerate(e.children):
            stack.append((c, e, p, j, d + 1, up))
    if new:
        with open(f"{os.environ['PROBE_OUT']}.{os.getpid()}", "a") as h:
            h.write("\n".join(new) + "\n")


def install():
    from mathml_to_latex.xml_to_mathml.adapter import XmlToMathMLAdapter
    convert = XmlToMathMLAdapter.convert

    def wrapped(self, xml):
        trees = convert(self, xml)
        note(trees)
        return trees
    XmlToMathMLAdapter.convert = wrapped
