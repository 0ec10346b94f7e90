"""C11: math variants of identifiers."""
import literals
import present
import ref
from gen import E, EA, FRAMES, KIND_FRAMES, Space, grow, places_space, T, X, Y, chain, check, doc, kinds_of_characters, numerics, alike_space, twins_space, mtext, mi, mn, mo, mrow
from explore import Skip
from checks.c09 import judge as judge_tokens  # noqa: F401

RULE = ("every path of each space builds one formula with identifiers that have a mathvariant; their LaTeX must be inside exactly the variant's "
        "font commands, bold outermost")
ASSUMPTIONS = ["identifiers' own LaTeX is spec/symbols.json's (C09)"]
OTHER = ["normal", "", "mathvariant", "Bold", "BOLD", " bold", "bold ", "bolditalic", "italic-bold", "bold italic", "italics", "unknown", "initial", "tailed",
         "looped", "stretched", "bold-double-struck", "script-bold", "calligraphic", "sansserif", "sans", "roman", "mathbf", "double", "struck",
         "bold-monospace", "sans-serif-bold", "fraktur-bold", "typewriter"]
VARIANTS = [None] + sorted(ref.FONTS) + OTHER


def vi(x, v, *more):
    return ("mi", (() if v is None else (("mathvariant", v),)) + more, x, ())


def symbols():
    texts = sorted(ref.SYMBOLS["mi"]) + ["", "x", "xy", "xyz", "A", "1", "12", "α", "αβ", " ", "a b", "%", "R", "ℝ", "Å", "\u00a0"]

    def driver(c):
        return check(vi(c.pick(texts), c.pick(VARIANTS)))
    return Space("symbols", driver, f"{len(VARIANTS)} variants x {len(texts)} identifiers")


def unicode_(lim):
    cps = [c for c in range(0x21, lim) if not 0xD800 <= c < 0xE000 and c & 0xFFFE != 0xFFFE and not 0x7F <= c < 0xA0]

    def driver(c):
        v = c.pick(VARIANTS)
        i = c.choose((len(cps) + 39) // 40)
        return check(*[vi(chr(cp), v) for cp in cps[i * 40:i * 40 + 40]])
    return Space("unicode", driver, f"{len(VARIANTS)} variants x {len(cps)} characters, 40 to a document", split=4096)


def words(top):
    def driver(c):
        v = c.pick(VARIANTS)
        n = c.choose(top)
        return check(vi(c.pick(["x", "A", "1", "α", "sin ", "\\"]) * n, v))
    return Space("words", driver, f"{len(VARIANTS)} variants x identifiers of up to {top} repetitions")


def elements():
    """The attribute has its effect on mi (and mtext, C12) only, alone or with other attributes, not inherited by or from others."""
    others = [(), (("class", "bold"),), (("id", "italic"), ("mathsize", "big")), (("fontweight", "bold"),), (("mathcolor", "red"),), (("style", "x"),)]

    def driver(c):
        v, w = c.pick(VARIANTS), c.pick([None, "bold", "italic", "monospace", "normal"])
        o = c.pick(others)
        first = c.flag()
        a = () if v is None else (("mathvariant", v),)
        x = ("mi", (o + a) if first else (a + o), "x", ())
        y = vi("y", w)
        box = c.pick(["mrow", "mstyle", "msqrt", "msup", "mfrac", "foo", "mtd"])
        boxed = EA(box, () if w is None else (("mathvariant", w),), x, y)
        return check(boxed)
    return Space("elements", driver, f"{len(VARIANTS)} variants next to and inside elements with another variant, among other attributes")


def pairs():
    def driver(c):
        return check(*[vi(c.pick(["x", "α"]), c.pick(VARIANTS)) for _ in range(2)], mo("+"), X)
    return Space("pairs", driver, "two identifiers with every pair of variants, and one without")


def slots():
    """Every variant in every slot, with identifiers of several shapes, twice."""
    def driver(c):
        v = c.pick(VARIANTS)
        x = c.pick(["x", "xy", "α", "1", "R", "sin", "", "ℓ"])
        t = c.pick(FRAMES)(vi(x, v))
        return check(t) if c.flag() else check(mrow(vi(x, None), t, vi("y", v)))
    return Space("slots", driver, f"{len(VARIANTS)} variants of 8 identifiers in {len(FRAMES)} slots")


def contexts(depth):
    subs = [vi("x", v) for v in sorted(ref.FONTS)] + [vi("α", "bold"), vi("x", "normal"), vi("", "bold"), vi("xy", "script")]

    def driver(c):
        return check(chain(c, c.pick(subs), depth, FRAMES))
    return Space("contexts", driver, f"{len(subs)} identifiers in every chain of up to {depth} of {len(FRAMES)} slots")


def sourced():
    """Texts and variants the source mentions."""
    def driver(c):
        n = c.choose(3)
        if n == 0:
            return check(vi(c.pick(literals.texts()), c.pick(VARIANTS)))
        if n == 1:
            return check(vi(c.pick(["x", "xy", "α", "1", ""]), c.pick(literals.texts())), vi("x", "bold"))
        a, b = c.pick(sorted(ref.FONTS)), c.pick(sorted(ref.FONTS) + ["-", " ", "x", "s"])
        return check(vi("x", c.pick([a + b, a + " " + b, a + "-" + b, a.upper(), a.title(), a.replace("-", " "), a.replace("-", ""), a[:-1], a[1:], a + a])))
    return Space("source", driver, "identifiers and variants the source mentions, and values nearly a variant")


def attributes(two):
    """Other attributes before and after the variant."""
    def driver(c):
        v = c.pick(sorted(ref.FONTS) + ["normal", "x"])
        a = c.pick(present.PAIRS + [(w, v) for w in literals.words() for v in ("true", "bold")])
        ats = [("mathvariant", v), a] + ([c.pick(present.PAIRS)] if two else [])
        if len({n for n, _ in ats}) < len(ats):
            raise Skip()
        if c.flag():
            ats.reverse()
        return check(*[("mi", tuple(ats), x, ()) for x in ("x", "xy", "α", "1", "", "sin")])
    return Space("attributes", driver, f"variants with each of {len(present.PAIRS)} presentation attributes and those the source mentions, before and after")


def chains3():
    subs = [vi("x", "bold"), mrow(vi("α", "script"), vi("ab", "sans-serif"))]

    def driver(c):
        return check(grow(c.pick(subs), [c.pick(KIND_FRAMES) for _ in range(3)]))
    return Space("chains3", driver, f"{len(subs)} formulas in every chain of three of {len(KIND_FRAMES)} slots", split=4096)


def mixed(step):
    """Characters of every kind, alone, next to one another and to letters, in every variant."""
    chars = [c for c in kinds_of_characters() if c not in "\x7f" and c.strip()]
    nums = numerics(step)
    few = ["a", "1", "α", "\u0301", "\\"]
    jobs = [(a, chars) for a in chars] + [(n, few) for n in nums]

    def driver(c):
        a, bs = c.pick(jobs)
        v = c.pick(VARIANTS)
        return check(*[vi(s, v) for s in [a, *(s for b in bs for s in ((a + b,) if bs is chars else (a + b, b + a)))]])
    return Space("mixed", driver, f"every two of {len(chars)} texts of one character of each Unicode category and plane, and {len(nums)} numeric characters before and after {len(few)} others, in {len(VARIANTS)} variants")


def spaces(tier):
    q = tier == "quick"
    return [symbols(), unicode_(0x2400 if q else 0x20000), words(140 if q else 600), sourced(), mixed(8 if q else 1), attributes(not q), elements(), pairs(), slots(), contexts(2 if q else 3), places_space({"mi"}), chains3(),
            alike_space(4, None, [X, vi("x", "bold"), vi("x", "script"), mtext("x"), mo("x")]),
            twins_space([vi("x", v) for v in VARIANTS[:9]] + [mtext("x"), mo("x"), vi("α", "bold"), vi("α", None), vi("", None)])]
