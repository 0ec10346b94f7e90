"""Element trees as tuples (name, attributes, text, children) and their XML spelling."""


def E(name, *kids, **attrs):
    return (name, tuple(attrs.items()), "", tuple(kids))


def EA(name, attrs, *kids):
    return (name, tuple(attrs), "", tuple(kids))


def T(name, text, **attrs):
    return (name, tuple(attrs.items()), text, ())


def mi(s, **a):
    return T("mi", s, **a)


def mo(s, **a):
    return T("mo", s, **a)


def mn(s, **a):
    return T("mn", s, **a)


def mtext(s, **a):
    return T("mtext", s, **a)


def mrow(*kids):
    return E("mrow", *kids)


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def esca(s):
    return esc(s).replace('"', "&quot;")


def xml(t):
    name, attrs, text, kids = t
    a = "".join(f' {k}="{esca(v)}"' for k, v in attrs)
    if kids:
        return f"<{name}{a}>" + "".join(map(xml, kids)) + f"</{name}>"
    if text:
        return f"<{name}{a}>{esc(text)}</{name}>"
    return f"<{name}{a}/>"


def doc(*ts):
    return "<math>" + "".join(map(xml, ts)) + "</math>"


def names(t):
    yield t[0]
    for k in t[3]:
        yield from names(k)


def height(t):
    """Nesting depth in elements."""
    return 1 + max(map(height, t[3]), default=0)


DEEPEST = 100  # elements: how deep the documents go for which a result is required
_rise = {}


def rise(f):
    """How many elements a slot (a function from trees to trees) puts above the tree."""
    if f not in _rise:
        _rise[f] = height(f(T("mi", "\0")))  # the other operands are not higher
        t = f(mrow(mrow(mrow(mrow(mrow(mrow(mrow(mrow(T("mi", "\0"))))))))))
        _rise[f] = height(t) - 9
    return _rise[f]


def grow(t, slots):
    """The slots applied in turn, as long as the tree is no more than DEEPEST elements deep."""
    h = height(t) + 1  # and the math element
    for f in slots:
        h += rise(f)
        if h > DEEPEST:
            break
        t = f(t)
    return t


def size(t):
    return 1 + sum(map(size, t[3]))
