"""C10: letters keep their identity.  Oracle: Unicode's own decompositions, not the dictionary."""
import re
import unicodedata as U

import impl
import ref
from checks.c09 import valid
from gen import KIND_FRAMES, E, Space, T, doc, mrow
from space import agree, describe

RULE = ("every path of each space converts one letter-like character; its LaTeX must be the character itself or show the letter or digit that "
        "Unicode decomposes it to, in the same case")
ASSUMPTIONS = ["Python's unicodedata (NFKD) says which letter a character is", "a Greek capital that looks like a Latin one may be shown as that one"]
KINDS = ["mi", "mo", "mn"]
SHAPES = dict(zip("ΑΒΕΖΗΙΚΜΝΟΡΤΥΧ", "ABEZHIKMNOPTYX"))
PINNED = ["𝞆"]
FONT = re.compile(r"\\(?:math(?:bf|it|bb|frak|cal|sf|tt|rm|scr)|boldsymbol|bm)\s*(?![a-zA-Z])")


def letter(ch):
    base = [c for c in U.normalize("NFKD", ch) if not U.combining(c)]
    return base[0] if len(base) == 1 else None


def targets():
    latin, greek = [], []
    for cp in range(0x21, 0x110000):
        if not valid(cp):
            continue
        b = letter(chr(cp))
        if b and b.isascii() and b.isalnum():
            latin.append((chr(cp), b))
        elif b and 0x1D6A8 <= cp <= 0x1D7CB:
            greek.append((chr(cp), b))
    return latin, greek


def greek_names(b):
    n = U.name(b, "").split()
    if "LETTER" not in n:
        return {"nabla", "partial"}
    w = n[n.index("LETTER") + 1].lower().replace("lamda", "lambda")
    if w == "final":
        return {"varsigma"}
    if "CAPITAL" in n:
        w = w.capitalize()
    return {w, "var" + w}


def wrong(ch, b, s):
    """None, or why s does not show the letter b."""
    core = FONT.sub("", s).replace("{", "").replace("}", "").strip()
    if s == ch or s == b or core == ch:
        return None
    if b.isascii():
        shown = re.sub(r"\\[a-zA-Z]+|\\.", "", s)
        letters = [c for c in shown if c.isalnum()]
        if letters == [b]:
            return None
        return f"shows {''.join(letters)!r}"
    if core.startswith("\\") and core[1:] in greek_names(b):
        return None
    if core == b or core == SHAPES.get(b):
        return None
    return f"shows {core!r}"


def judge(c, out):
    if out[0] != "ok":
        return describe(out)
    s = out[1]
    for a, z in c["around"]:
        if not s.startswith(a) or not s.endswith(z):
            return f"{describe(out)}, expected the letter between {a!r} and {z!r}"
        s = s[len(a):len(s) - len(z)]
    m = wrong(c["ch"], c["letter"], s)
    return m and f"{c['ch']} (U+{ord(c['ch']):04X} {U.name(c['ch'], '')}) {m}, it is {c['letter']!r}: {describe(out)}"


def special():
    """Letters whose case mapping or normal form has several characters, and plain ones of other scripts."""
    res = []
    for cp in range(0xAA, 0x2FA20):
        ch = chr(cp)
        if valid(cp) and ch.isalpha() and (len(ch.upper()) > 1 or len(ch.lower()) > 1 or len(ch.casefold()) > 1 or cp < 0x250 or (cp < 0x600 and cp % 3 == 0)) and letter(ch):
            res.append((ch, letter(ch)))
    return res


def spaces(tier):
    latin, greek = targets()
    every = latin + [x for x in greek if x[0] not in PINNED]

    around = [(lambda t: t, []), (lambda t: mrow(t), []), (lambda t: E("mstyle", t), []), (lambda t: E("msqrt", t), [("\\sqrt{", "}")]),
              (lambda t: E("msup", T("mn", "2"), t), [("2^{", "}")]), (lambda t: E("mfenced", t), [("\\left(", "\\right)")]),
              (lambda t: E("mfrac", T("mn", "1"), t), [("\\frac{1}{", "}")]), (lambda t: mrow(T("mn", "1"), t), [("1 ", "")]),
              (lambda t: mrow(t, T("mn", "1")), [("", " 1")]), (lambda t: E("mtable", E("mtr", E("mtd", t), E("mtd", T("mn", "1")))), [("", " & 1")]),
              (lambda t: mrow(T("mi", "x"), t), [("x ", "")])]

    def driver(c):
        ch, b = c.pick(every)
        kind = c.pick(KINDS)
        f, a = c.pick(around)
        pad = c.pick(["%s", " %s", "%s "]) if tier != "quick" else "%s"
        return {"doc": doc(f(T(kind, pad % ch))), "ch": ch, "letter": b, "around": a}

    def pinned(c):
        ch, kind = c.pick(PINNED), c.pick(KINDS)
        return {"doc": doc(T(kind, ch)), "ch": ch, "letter": letter(ch), "around": []}
    def attributes(c):
        ch, b = c.pick(every)
        kind = c.pick(KINDS)
        a = c.pick([("mathvariant", v) for v in ("bold", "italic", "script", "fraktur", "double-struck", "monospace", "sans-serif", "normal", "x")] +
                   [("form", "prefix"), ("stretchy", "false"), ("dir", "rtl"), ("class", "x"), ("display", "block")])
        return {"doc": doc((kind, (a,), ch, ())), "ch": ch, "letter": b, "around": []}

    def beside(c):
        """Letters before and after: each is itself."""
        ch, b = c.pick(every)
        kind = c.pick(KINDS)
        o = c.pick(["x", "1", "+", "α", "Ω", "\u0301", "-", "E", "i"])
        oo = impl.convert(doc(T("mi", o)))[1]
        f = c.flag()
        return {"doc": doc(*([T("mi", o), T(kind, ch)] if f else [T(kind, ch), T("mi", o)])), "ch": ch, "letter": b, "around": [(oo + " ", "") if f else ("", " " + oo)]}
    singles = [x for x, b in every if b.isascii()] + [x for x, _ in special()]

    def together(c):
        """Several letters in one token: each is itself."""
        ch = c.pick(singles)
        kind = c.pick(["mi", "mo", "mn", "mtext"])
        text = c.pick([lambda: ch * 2, lambda: ch * 3, lambda: ch * 2 + "x", lambda: "x" + ch * 2, lambda: ch + "α" + ch])()
        t = T(kind, text)
        return {"doc": doc(t), "expect": ref.outcome(t)}
    return [Space("together", together, "two or three letters in one token: all their letters come out, in order and case (oracle: the reference model)", judge=lambda c, out: agree(c["expect"], out), split=4096),
            Space("attributes", attributes, "... with a mathvariant or another attribute", judge=judge, split=4096),
            Space("beside", beside, "... before and after nine other identifiers", judge=judge, split=4096),
            Space("pinned", pinned, "letters whose wrong LaTeX the library's own tests require (known findings)", judge=judge),
            Space("letters", driver, f"{len(latin)} Latin letters and digits and {len(greek)} Greek mathematical letters x {KINDS} x {len(around)} places",
                  judge=judge, split=4096)]
