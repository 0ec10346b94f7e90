"""C05: fences without tables."""
from gen import *  # noqa: F403
from gen import (kinds_of_characters, EA, FEW, FRAMES, KIND_FRAMES, OPERANDS, E, Space, X, Y, Z, check, contexts_space, mi, mn, mo, mrow,
                 mtext, nest_space, slots_space, trees_space, common, PLUS, TWO)
import ref
from explore import Skip

RULE = ("every path of each space builds one formula with a fence; its LaTeX must have the delimiters, the children "
        "in order and the separators of the reference model")
ASSUMPTIONS = ["operands' own LaTeX is taken from the reference model, whose symbols come from spec/symbols.json",
               "fences with a table inside are C06's"]
WANT = {"mfenced"}
DELIMS = ["", "(", ")", "[", "]", "{", "}", "|", "||", "<", ">", "‖", "⟨", "⟩", "⌊", "⌋", "⌈", "⌉", "/", ".", ",", "open", "close", "\\{",
          "((", "&", "∥", "〈", "\"", "'", " ", "  ", "\u00a0", " [", "] ", "Open", "CLOSE", "Separators", "opens", "[[", "\\langle", "\\lbrace", "langle", "#", "none", "0", "false", "{}", "&lpar;", "\\}"]


def fence(kids, **at):
    return EA("mfenced", tuple((k, v) for k, v in at.items() if v is not None), *kids)


def separators(alphabet, top, kids_top):
    def driver(c):
        n = c.choose(kids_top + 1)
        k = c.choose(top + 2) - 1
        seps = None if k < 0 else "".join(c.pick(alphabet) for _ in range(k))
        return check(fence([mn(str(10 + i)) for i in range(n)], separators=seps))
    return Space("separators", driver, f"0..{kids_top} children x absent separators and every string of 0..{top} over {alphabet}")


def long_separators(top):
    """Distinct separators, so that each index shows."""
    marks = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ;:,.|/!?-+*="

    def driver(c):
        n, k = c.choose(top), c.choose(top)
        seps = "".join(marks[i % len(marks)] for i in range(k))
        at = dict(separators=seps) if k else {}
        if c.flag():
            at.update(open="[", close=")")
        return check(fence([mn(str(100 + i)) for i in range(n)], **at))
    return Space("long", driver, f"0..{top - 1} children x 0..{top - 1} distinct separators")


def delimiters():
    def driver(c):
        o, k = c.pick([None] + DELIMS), c.pick([None] + DELIMS)
        seps = c.pick([None, "", ";", "|,", "separators"])
        kids = c.pick([(), (X,), (X, Y), (X, mi("α"), mrow(X, Y)), (mi(""), X), (X, mi("")), (mtext("a"), mo(","))])
        at = [("open", o), ("close", k), ("separators", seps)]
        if c.flag():
            at.reverse()
        return check(fence(kids, **dict(at)))
    return Space("delimiters", driver, f"every pair of {len(DELIMS)} delimiters (and absent), 5 separators, 7 contents")


def chars(tier):
    """Every single character (of a few blocks) as delimiter and as separator."""
    lim = 0x2600 if tier == "quick" else 0x30000
    cps = [cp for cp in range(0x21, lim) if not 0xD800 <= cp <= 0xDFFF and not 0xFFFE <= cp & 0xFFFF
           and not chr(cp).isspace() and not 0x7F <= cp < 0xA0]

    def driver(c):
        ch = chr(c.pick(cps))
        return check(fence([X, Y, Z], open=ch, close=ch, separators=ch + ";"),
                     fence([X, Y, Z], separators=ch), fence([X], open=ch), fence([X], close=ch))
    return Space("chars", driver, f"each of {len(cps)} characters as opening, closing delimiter and separator")


def characters(tier):
    """Separators and delimiters of every kind of character, every white space character and control among them, alone and beside others."""
    blank = [ch for ch in map(chr, range(0x3001)) if (ch.isspace() or ch in "\u200b\u2060\u180e" or 0x7F <= ord(ch) < 0xA0) and (ord(ch) >= 0x20 or ch in "\t\n\r")]
    chars = list(dict.fromkeys(blank + kinds_of_characters()))

    def driver(c):
        ch = c.pick(chars)
        seps = c.pick([ch, ch + ";", ";" + ch, ch + ch, ";" + ch + ";", ch + ";|", ";|" + ch, ch + "x" + ch])
        at = c.pick([{}, {"open": "[", "close": ")"}, {"open": ch}, {"close": ch}])
        return check(*[fence([mn(str(10 + i)) for i in range(n)], separators=seps, **at) for n in (1, 2, 3, 5)])
    return Space("blanks", driver, f"{len(chars)} characters ({len(blank)} white space and control characters, the kinds of characters) x 8 separator strings x 4 delimiters x 1, 2, 3 and 5 children")


def kids3(ops):
    def driver(c):
        n = 1 + c.choose(3)
        kids = [c.pick(ops) for _ in range(n)]
        at = c.pick([{}, {"separators": ";|"}, {"open": "[", "close": "]"}, {"open": "|", "close": "|", "separators": ""}])
        if any(ref.has(E("x", k), "mtable") for k in kids):
            raise Skip()
        return check(fence(kids, **at))
    return Space("kids", driver, f"1..3 children from {len(ops)} operands x 4 attribute sets")


SUBJECTS = [fence([]), fence([X]), fence([X, Y]), fence([X, Y, Z], separators=";|"), fence([X, PLUS], open="[", close="]"), fence([X, Y], open="|", close="|"),
            fence([mrow(X, Y), Z], open="{", close=""), fence([fence([X, Y]), Z], separators=";")]
OWN = [f for f in FRAMES if f(X)[0] in WANT]


def spaces(tier):
    q = tier == "quick"
    return [separators(",;|a ", 4, 6) if q else separators(",;|a ", 6, 9), long_separators(40 if q else 150), delimiters(), chars(tier), characters(tier),
            kids3(FEW if q else OPERANDS[:30]),
            slots_space("pairs", [("mfenced", (), 2), ("mfenced", (("open", "["), ("separators", ";")), 2)],
                        [o for o in OPERANDS if not ref.has(E("x", o), "mtable")], FEW),
            contexts_space("contexts", SUBJECTS, 2, [f for f in FRAMES if not ref.has(E("x", f(X)), "mtable")]) if q else
            contexts_space("contexts", SUBJECTS, 3),
            nest_space("nest", OWN, [2, 3, 5, 9, 30] if q else list(range(2, 20)) + [40, 80, 100]),
            nest_space("mixed", KIND_FRAMES, [4] if q else [4, 9, 24], (fence([X, Y], open="["), fence([X], separators=";"))),
            *common(WANT, SUBJECTS, not q, [("mfenced", (), 2), ("mfenced", (("open", "["), ("separators", ";")), 2), ("mfenced", (("open", "|"), ("close", "|")), 3)]),
            trees_space("trees", 5, WANT, leaves=[X, mi("α")] if q else [X, mi("α"), mi(""), mn("12")])]
