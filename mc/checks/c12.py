"""C12: text elements."""
import literals
import present
import ref
from gen import E, EA, FRAMES, KIND_FRAMES, Space, grow, places_space, T, X, Y, chain, check, doc, kinds_of_characters, numerics, alike_space, twins_space, mi, mn, mo, mrow
from explore import Skip
from checks.c09 import valid

RULE = ("every path of each space builds one text element; its runs of letters, digits and white space must be in the variant's text command and its "
        "other characters translated in place")
ASSUMPTIONS = ["the LaTeX of single characters is spec/symbols.json's (C09)",
               "white space at the ends of a text is layout (C15), and runs of it are collapsed like everywhere in the output"]
VARIANTS = [None] + sorted(ref.TEXT_FONTS) + ["normal", "", "mathvariant", "script", "bold-script", "sans-serif", "bold-sans-serif", "sans-serif-italic",
                                             "sans-serif-bold-italic", "unknown", "Bold", "italic "]
CLASSES = ["a", "Z", "7", " ", "α", "&", "+", "é", "\u00a0", "{", ".", "字", "𝐀"]


def vt(x, v=None):
    return ("mtext", () if v is None else (("mathvariant", v),), x, ())


def strings(n, alphabet, variants):
    def driver(c):
        v = c.pick(variants)
        k = c.choose(n + 1)
        return check(vt("".join(c.pick(alphabet) for _ in range(k)), v))
    return Space(f"strings{n}", driver, f"every text of 0..{n} characters over {len(alphabet)} classes x {len(variants)} variants")


def unicode_(ranges, form):
    cps = [cp for a, b in ranges for cp in range(a, b) if valid(cp)]

    def driver(c):
        i = c.choose((len(cps) + 31) // 32)
        f = form[c.choose(len(form))]
        return check(*[vt(f % chr(cp)) for cp in cps[i * 32:i * 32 + 32]])
    return Space("unicode", driver, f"all {len(cps)} XML characters of {len(ranges)} ranges between {form}, 32 to a document", split=4096)


def symbols():
    texts = sorted(x for x in ref.SYMBOLS["mi"] if len(x) == 1) + [chr(i) for i in range(0x21, 0x7F)]

    def driver(c):
        x = c.pick(texts)
        f = c.pick(["%s", "a%s", "%sa", "a%sa", "%s%s", " %s ", "%s1", "1%s.", "a %s b", "%sé", "%s字", "α%s", "%s é"])
        return check(vt(f.replace("%s", x), c.pick([None, "bold", "monospace", "script"])))
    return Space("symbols", driver, f"each of {len(texts)} one-character entries in 13 surroundings x 4 variants")


def mixed(step):
    """Characters of every kind next to one another."""
    chars = [c for c in kinds_of_characters() if valid(ord(c[0]))]
    nums = numerics(step)
    few = ["a", "1", " ", "a ", ".", "α", "\u0301"]
    jobs = [(a, chars) for a in chars] + [(n, few) for n in nums]

    def driver(c):
        a, bs = c.pick(jobs)
        v = c.pick([None, "bold", "double-struck"])
        return check(*[vt(s, v) for b in bs for s in ((a + b,) if bs is chars else (a + b, b + a, b + a + b, a + a))])
    return Space("mixed", driver, f"every two of {len(chars)} texts of one character of each Unicode category and plane, and {len(nums)} numeric characters around, before and after {len(few)} others")


def lengths(top):
    def driver(c):
        n = c.pick(list(range(top)) + [199, 200, 201, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1024, 2000, 4096, 5000])
        f = c.pick(["a", "ab ", "a&", "&", "α", "é", " a", "1", "a\u00a0", "字a", "xα "])
        return check(vt(f * n, c.pick([None, "bold", "bold-italic"])))
    return Space("lengths", driver, f"11 patterns repeated up to {top - 1} times")


def words():
    """Whole ASCII runs: no word is special."""
    ws = ["sin", "cos", "log", "lim", "max", "if", "otherwise", "and", "for all", "alpha", "pi", "e", "i", "d", "inf", "Inf", "nan", "None", "True", "null",
          "text", "left", "begin", "frac", "mathbb", "R", "N", "Pr", "det", "mod", "gcd", "0x1F", "1e5", "3 14", "A B C", "ab12", "ZZ", "span", "math", "mi",
          "mml", "amp", "lt", "nbsp", "x" * 100, "Lorem ipsum dolor sit amet", "d x", "if x is", "innerTable", "undefined"]

    def driver(c):
        w = c.pick(ws)
        f = c.pick(["%s", "%s.", "(%s)", "é%s", "α%s", "%sα", "a-%s", "%s %s", "x_%s", "≤%s"])
        v = c.pick(VARIANTS)
        x = w if c.flag() else w.upper()
        return check(vt(f.replace("%s", x), v))
    return Space("words", driver, f"{len(ws)} words in 10 surroundings x {len(VARIANTS)} variants")


def contexts(depth):
    subs = [vt("if a"), vt("a&b", "bold"), vt("α b"), vt(""), vt("字"), vt("a  b", "italic"), vt("Å", "monospace")]

    def driver(c):
        return check(chain(c, c.pick(subs), depth, FRAMES))
    return Space("contexts", driver, f"{len(subs)} texts in every chain of up to {depth} of {len(FRAMES)} slots")


def pairs():
    def driver(c):
        ks = [vt(c.pick(["a", "a&", "é", " ", "α b"]), c.pick(VARIANTS)) for _ in range(2)]
        return check(*ks) if c.flag() else check(E("mrow", ks[0], X, ks[1]))
    return Space("pairs", driver, "two texts with every pair of variants")


def sourced():
    """Texts and variants the source mentions."""
    fs = ["%s", "a%s", "%sa", "%s%s", "%s %s", "a %s b", "é%s", "%sé", "α%s", "%s字", "(%s)", "&%s;", "1%s", "%s1"]

    def driver(c):
        n = c.choose(3)
        if n == 0:
            return check(vt(c.pick(fs).replace("%s", c.pick(literals.texts())), c.pick([None, "bold", "bold-italic", "script"])))
        if n == 1:
            ls = [x for x in literals.texts() if len(x) <= 2]
            return check(vt(c.pick(ls) + c.pick(ls)))
        return check(vt(c.pick(["a", "a b", "α", "", "aéb"]), c.pick(literals.texts())))
    return Space("source", driver, f"texts the source mentions in {len(fs)} surroundings, two together, and as variants")


def attributes(two):
    def driver(c):
        v = c.pick(VARIANTS[1:])
        a = c.pick(present.PAIRS + [(w, v) for w in literals.words() for v in ("true", "bold")])
        ats = [("mathvariant", v), a] + ([c.pick(present.PAIRS)] if two else [])
        if len({n for n, _ in ats}) < len(ats):
            raise Skip()
        if c.flag():
            ats.reverse()
        return check(*[("mtext", tuple(ats), x, ()) for x in ("a", "a b", "α", "aé b", "", "&")])
    return Space("attributes", driver, f"variants with each of {len(present.PAIRS)} presentation attributes and those the source mentions, before and after")


def blocks():
    """Runs of letters and runs of other characters of every length up to 24."""
    runs = ["a", "7", "a b", "αβγδ", "αxβ", "éα", "字é", "字"]

    def driver(c):
        a, b = c.pick(runs), c.pick(runs)
        s = (a * 24)[:1 + c.choose(24)]
        t = (b * 24)[:1 + c.choose(24)]
        return check(vt(c.pick([s + t, s + " " + t, s + t + s, s + "字" + t]), c.pick([None, "bold-italic"])))
    return Space("blocks", driver, f"two runs of 1..24 characters out of {len(runs)} patterns, in 4 arrangements")


def slots():
    def driver(c):
        t = vt(c.pick(["a", "a b", "α", "aéb", "", "&", "ab"]), c.pick(VARIANTS))
        f = c.pick(FRAMES)(t)
        return check(f) if c.flag() else check(E("mrow", mi("a"), f, vt("a")))
    return Space("slots", driver, f"{len(VARIANTS)} variants of 7 texts in {len(FRAMES)} slots")


def chains3():
    subs = [vt("x α", "bold"), mrow(vt("a+b"), vt("c", "monospace"))]

    def driver(c):
        return check(grow(c.pick(subs), [c.pick(KIND_FRAMES) for _ in range(3)]))
    return Space("chains3", driver, f"{len(subs)} formulas in every chain of three of {len(KIND_FRAMES)} slots", split=4096)


def spaces(tier):
    q = tier == "quick"
    V3 = [None, "bold-italic", "monospace"]
    same = [sourced(), attributes(not q), blocks(), slots(), mixed(4 if q else 1), alike_space(4, None, [X, vt("x"), vt("x", "bold"), vt("x", "italic"), mo("x")]),
            twins_space([vt(t, v) for t in ("x", "a b") for v in VARIANTS[:7]] + [mi("x"), mo("x"), vt("α"), vt("")])]
    if q:
        return same + [strings(2, CLASSES, VARIANTS), strings(4, CLASSES, [None]), strings(5, ["a", " ", "α", "&", "é"], V3), symbols(), lengths(140), words(),
                contexts(2), chains3(), places_space({"mtext"}), pairs(), unicode_([(0x20, 0x3100), (0xFB00, 0x10000), (0x1D400, 0x1D800), (0x1F100, 0x1F200)], ["a%sb"])]
    return same + [strings(3, CLASSES, VARIANTS), strings(6, CLASSES[:9], [None, "bold-italic"]), symbols(), lengths(600), words(), contexts(3), chains3(), places_space({"mtext"}), pairs(),
            unicode_([(9, 0x110000)], ["a%sb", "%s", "é%s1", "%s "])]
