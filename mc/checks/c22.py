"""C22: conversion terminates, with bounded work and for deep formulas."""
import os
import sys
import time

import impl
import literals
import ref
import xmldoc
from explore import Skip
from gen import ALL_FRAMES, E, EA, FRAMES, KIND_FRAMES, P, Q, Space, T, X, Y, Z, DEEPEST, doc, grow, rise, mi, mn, mo, mrow, mtext, nest_space, table, ONE, TWO
from space import agree, case, describe
from term import esc, xml

RULE = ("every path of each space is a family of documents, one for each size of a doubling series; the work of each conversion (Python lines and calls in the library, and "
        "calls in the parser, counted by tracing) may grow by a factor of at most 6 at each doubling, the conversion must end within 20 s of processor time, and its result must be right")
ASSUMPTIONS = ["work is measured in executed lines and calls, not in time; work inside single calls of C functions (string and regular expression operations) is bounded only by the processor time limit",
               "the interpreter's default recursion limit of 1000"]
FACTOR, SLACK = 6, 3000
PARSES = 20


def measure(d, cap):
    """(outcome, work, parses); the work is cut off at cap."""
    n = 0
    parses = 0
    src = impl.SRC + os.sep

    class Over(BaseException):
        pass

    def line(frame, event, arg):
        nonlocal n
        n += 1
        if n > cap:
            raise Over()
        return line

    def trace(frame, event, arg):
        nonlocal n
        n += 1
        if n > cap:
            raise Over()
        return line if frame.f_code.co_filename.startswith(src) else None

    def prof(frame, event, arg):
        nonlocal n, parses
        if event == "c_call":
            n += 1
            if getattr(arg, "__name__", "") == "ParserCreate":
                parses += 1
    sys.setprofile(prof)
    sys.settrace(trace)
    try:
        out = impl.convert(d)
    except Over:
        out = ("over",)
    finally:
        sys.settrace(None)
        sys.setprofile(None)
    return out, n, parses


def execute(case):
    res = []
    last = None
    for n in case["sizes"]:
        d, want = case["make"](n)
        out, work, parses = measure(d, case["factor"] * last + SLACK if last else 10**8)
        res.append((n, work, parses))
        if out == ("over",):
            return ("over", res)
        msg = agree(want, out) if want else (None if out[0] in ("ok", "err") else describe(out))
        if msg:
            return ("wrong", res, msg)
        if parses > PARSES:
            return ("parses", res)
        last = work
    return ("fine", res)


def judge(case, out):
    if out[0] == "fine":
        return None
    s = ", ".join(f"{r[1]} steps at size {r[0]}" for r in out[1])
    if out[0] == "over":
        return f"the work grows too fast: {s} (cut off there)"
    if out[0] == "parses":
        return f"parsed {out[1][-1][2]} times at size {out[1][-1][0]}"
    return f"at size {out[1][-1][0]}: {out[2][:600]}"


def space(name, driver, rule):
    return Space(name, driver, rule, execute=execute, judge=judge, key=lambda case: case["name"])


def seconds(d):
    t = time.process_time()
    out = impl.convert(d)
    return out, time.process_time() - t


def execute_timed(case):
    """The time of each size of the series, up to the first that takes long; growth counts only if three measurements agree on it."""
    res, before = [], None
    for n in case["sizes"]:
        d, _ = case["make"](n)
        out, t = seconds(d)
        res.append((n, round(t, 2)))
        if out[0] not in ("ok", "err"):
            return ("wrong", res, describe(out))
        if t > LONG:
            if before and all(seconds(d)[1] > TIMES * seconds(before)[1] for _ in range(3)):
                return ("slow", res)
            break
        before = d
    return ("fine", [])


def judge_timed(case, out):
    if out[0] == "slow":
        return "the time grows too fast: " + ", ".join(f"{t} s at size {n}" for n, t in out[1])
    return judge(case, out)


def timed(sp, sizes):
    """A space of families, measured in processor time: this sees what happens inside single calls of C functions too."""
    def driver(c):
        fam = sp.driver(c)
        return dict(fam, sizes=sizes, name=fam["name"] + " (timed)")
    return Space("timed-" + sp.name, driver, sp.rule + f"; in processor time, at sizes {sizes}", execute=execute_timed, judge=judge_timed, key=lambda case: case["name"])


LONG, TIMES = 1.0, 6


def family(name, sizes, make, factor=FACTOR):
    return {"name": name, "sizes": sizes, "make": make, "factor": factor}


FAILING = [E("msup", X), E("mfrac", X, Y, Z), E("mmultiscripts", X, Y), E("munderover", X), E("mroot")]
SEEDS = [X, mrow(X, Y), mi(""), table([X]), table([table([X, Y])]), mtext("a α"), mo("^"), E("mphantom", X), E("maction"), E("mfenced"), E("mmultiscripts", mrow(X, Y), ONE, TWO, E("mprescripts"), ONE, TWO)]


def depth(frames, sizes, k, seeds=(X, mrow(X, Y)), name=None):
    """k frames applied in turn."""
    def driver(c):
        ids = [c.choose(len(frames)) for _ in range(k)]
        seed = c.pick(seeds)
        if k > 1 and len(set(ids)) == 1:
            raise Skip()
        up = sum(rise(frames[i]) for i in ids)
        fit = [n for n in sizes if n * up <= k * DEEPEST]

        def make(n):
            t = seed
            for i in range(n):
                t = frames[ids[i % k]](t)
            return doc(t), ref.outcome(t)
        return family(f"frames {ids} around {xml(seed)}, {fit} deep, e.g. {make(k)[0]}", fit, make)
    return space(name or f"depth-{k}", driver, f"{len(seeds)} formulas in every choice of {k} of {len(frames)} slots nested in turn to depths {sizes}")


def branching(sizes):
    """Elements with the same deep operand in two slots (the size doubles with each level)."""
    frames = [lambda t: mrow(t, t), lambda t: E("mfrac", t, t), lambda t: E("msubsup", t, t, t), lambda t: E("mfenced", t, t), lambda t: table([t, t]), lambda t: E("mmultiscripts", t, t, t),
              lambda t: E("mover", t, t), lambda t: E("mroot", t, t), lambda t: E("maction", t, t), lambda t: E("math", t, t), lambda t: E("mfrac", t, t, bevelled="true"), lambda t: E("mphantom", t, t),
              lambda t: E("munderover", t, t, t)]

    def driver(c):
        f, g = c.pick(frames), c.pick(frames)

        def make(n):
            t = X
            for i in range(n):
                t = (f, g)[i % 2](t)
            return doc(t), ref.outcome(t)
        return family(f"full trees of {make(2)[0]}, {sizes} deep", sizes, make, 14)  # up to three times as many nodes per level
    return space("branching", driver, f"full trees of every two of {len(frames)} shapes, up to {sizes[-1]} levels")


SHAPES = {
    "mrow": lambda k: mrow(*k), "msqrt": lambda k: E("msqrt", *k), "mfenced": lambda k: E("mfenced", *k), "mfenced-sep": lambda k: E("mfenced", *k, separators=";|"),
    "row": lambda k: E("mtable", E("mtr", *[E("mtd", x) for x in k])), "column": lambda k: E("mtable", *[E("mtr", E("mtd", x)) for x in k]),
    "mmultiscripts": lambda k: E("mmultiscripts", X, ONE, *k), "prescripts": lambda k: E("mmultiscripts", X, ONE, TWO, E("mprescripts"), *k),
    "menclose": lambda k: E("menclose", *k), "maction": lambda k: E("maction", *k), "merror": lambda k: E("merror", *k), "mphantom": lambda k: E("mphantom", *k),
    "mstyle": lambda k: E("mstyle", *k), "base": lambda k: E("msup", mrow(*k), TWO), "script": lambda k: E("msub", X, mrow(*k)), "fenced-table": lambda k: E("mfenced", *k, table([X]), open="[", close="]"),
    "numerator": lambda k: E("mfrac", mrow(*k), X, bevelled="true"), "over": lambda k: E("mover", mrow(*k), mo("^")), "tables": lambda k: mrow(*[table([x]) for x in k]),
    "nested-tables": lambda k: table([table([x]) for x in k]), "fences": lambda k: mrow(*[E("mfenced", x) for x in k]), "maths": lambda k: E("math", *[E("math", x) for x in k]),
    "unknown": lambda k: E("foo", *k), "semantics": lambda k: E("semantics", *k), "action-hidden": lambda k: E("maction", *k, actiontype="tooltip"), "mtr": lambda k: E("mtr", *k),
}
KIDS = [lambda i: X, lambda i: mn(str(i)), lambda i: mi(""), lambda i: mtext("a b"), lambda i: E("msup", X, TWO), lambda i: mo("∑"), lambda i: mi("x", mathvariant="bold"), lambda i: E("mspace"),
        lambda i: table([X]), lambda i: E("mfenced", X), lambda i: E("mfrac", X), lambda i: X if i else E("mroot", X), lambda i: mi("", mathvariant="bold"), lambda i: mtext("α" if i % 2 else "a"), lambda i: mrow(), lambda i: E("mphantom", X),
        lambda i: mo("|"), lambda i: E("mtr", E("mtd", X)), lambda i: E("mprescripts") if i % 3 else X, lambda i: E("none"), lambda i: E("math", X)]


def last_fails(sizes):
    """The last of many children fails, at one level or at each of two."""
    def driver(c):
        s = c.pick(list(SHAPES))
        r = c.pick(list(SHAPES))
        bad = c.pick(FAILING)

        def make(n):
            m = max(2, n // 2) if s != r else n
            t = SHAPES[s]([mn(str(i)) for i in range(m)] + [bad])
            if s != r:
                t = SHAPES[r]([mn(str(i)) for i in range(m)] + [t])
            return doc(t), ref.outcome(t)
        return family(f"{s} in {r}, {sizes} children, {xml(bad)} last", sizes, make)
    return space("last-fails", driver, f"{len(SHAPES)} elements in {len(SHAPES)} with {sizes} children, the last of which fails")


def grids(sizes):
    """Long in two directions at once: the size itself grows by four."""
    def driver(c):
        s = c.pick(list(SHAPES))
        r = c.pick(list(SHAPES))

        def make(n):
            t = SHAPES[r]([SHAPES[s]([X] * n) for _ in range(n)])
            return doc(t), ref.outcome(t)
        return family(f"{sizes} times {s} in {r} with as many children", sizes, make, 20)
    return space("grids", driver, f"n elements of {len(SHAPES)} kinds with n children each in one of {len(SHAPES)} kinds, n in {sizes} (work times 20 at most)")


def combs(frames, sizes):
    """Deep, with many siblings at each level."""
    def driver(c):
        s = c.pick(list(SHAPES))
        f = c.choose(len(frames))
        at = c.choose(2)
        bad = c.flag()

        def make(n):
            t = E("msup", X) if bad else X
            for _ in range(n):
                k = [X] * n
                k.insert(n * at, frames[f](t))
                t = SHAPES[s](k)
            return doc(t), ref.outcome(t)
        make(2)
        fit = [n for n in sizes if n * (1 + rise(frames[f]) + 3) <= DEEPEST]
        return family(f"{s} with frame {f} and {fit} siblings, as deep", fit, make, 20)
    return space("combs", driver, f"n levels of {len(SHAPES)} elements and {len(frames)} slots with n siblings each, failing or not (work times 20 at most)")


def width(sizes):
    def driver(c):
        s = c.pick(list(SHAPES))
        k = c.choose(len(KIDS))

        def make(n):
            t = SHAPES[s]([KIDS[k](i) for i in range(n)])
            return doc(t), ref.outcome(t)
        return family(f"{s} with {sizes} children like {xml(KIDS[k](1))}", sizes, make)
    return space("width", driver, f"{len(SHAPES)} elements with {sizes} children of {len(KIDS)} kinds")


PIECES = ["a", " ", "ab ", "a ", " a", "1", "+", "α", "a+", "+ ", "\n", "&amp;", "&#945;", "\\", "_", "𝐀", "é", "&lt;", "a\n", "=", "''", "mml:", "<!---->", "<!-- a -->", "<?a?>", "<![CDATA[a]]>", "x=5 ",
          "&lt;mi ", "&gt;", "/", "a=b ", "\"", "\t", "\u00a0", "(", "-"]


def text(sizes, name="text"):
    def driver(c):
        el = c.pick(["mtext", "mi", "mo", "mn"])
        p = c.pick(PIECES)
        w = c.choose(3)

        def make(n):
            d = f"<math><{el}>" + p * n + (f"</{el}></math>", f"x</{el}></math>", f"</{el}><mi disabled>x</mi></math>")[w]
            return d, None if w == 2 else xmldoc.outcome(d)
        return family(f"{el} of {sizes} times {p!r}, variant {w}", sizes, make)
    return space(name, driver, f"tokens with text of {sizes} times {len(PIECES)} pieces, also in a document that is repaired")


def spans(sizes):
    """Long runs of each character and of some pairs, between others, where a backtracking expression tries every way to divide them."""
    pieces = [*(chr(i) for i in range(0x21, 0x7F) if chr(i) not in "<&"), " ", "\u00a0", "\u2003", "\u3000", "α", "\u0301", "٣", "a ", " \u00a0", "a1", "a.", "ab", "1,", "\\a", "{}", "()", "a=", "\u00a0a", "xα", "&lt;", "&#32;"]
    ends = [("", "!"), ("a", "b"), ("a", ""), ("(", "1 "), ("", "\u00a0\\"), ("{\\", "\u0301")]
    places = [*(f"<math><{el}>%s</{el}></math>" for el in ("mi", "mo", "mn", "mtext")), '<math><mi mathvariant="%s">x</mi></math>', '<math><mfenced open="%s" separators="%s"><mi>x</mi><mi>y</mi></mfenced></math>',
              '<math><menclose notation="%s" id="%s"/><maction actiontype="%s"/><mfrac bevelled="%s"><mi/><mi/></mfrac></math>', "<p>%s<math>%s<mi>x</mi></math></p>", "<!--%s--><math/>", "<math><mi a>%s</mi></math>", "<math><mi a=%s b>x</mi></math>", "%s", "<math><mi>%s"]

    def driver(c):
        p, (a, b), w = c.pick(pieces), c.pick(ends), c.pick(places)

        def make(n):
            t = a + p * n + b
            return w.replace("%s", t.replace('"', "&quot;") if '="%s' in w else t), None
        return {"name": f"{a!r}, {sizes} times {p!r}, {b!r} in {w}", "sizes": sizes, "make": make}
    return Space("spans", driver, f"{sizes} times each of {len(pieces)} characters and pairs of them, between {len(ends)} pairs of others, in {len(places)} places (processor time)", execute=execute_timed, judge=judge_timed, key=lambda case: case["name"])


def attributes(sizes, name="attributes"):
    def driver(c):
        w = c.choose(12)
        p = c.pick(["a", " ", "a ", "=", "'", "x=5 ", "&amp;", "&gt;", "/", "mml:", ";,", "\t"])
        dam = c.flag()

        def make(n):
            good = " ".join(f'a{i}="{i}"' for i in range(n))
            d = [f'<math><mi alt="{p * n}">x</mi></math>', f'<math><mfenced separators="{p * n}"><mi>x</mi><mi>y</mi><mi>z</mi></mfenced></math>',
                 f"<math><mi {good}>x</mi></math>", "<math>" + '<mi a="b">x</mi>' * n + "</math>", f'<math><mi mathvariant="{p * n}">x</mi></math>',
                 "<math>" + p * n + "<mi>x</mi>" + p * n + "</math>", "<math><mi" + " " * n + 'a = "b"' + "\n" * n + ">x</mi></math>",
                 f"<p>{p * n}<math><mi>x</mi></math></p>", "<p>" + "<math><mi>x</mi></math>" * n + "</p>", f"<!--{p * n}--><math><mi>x</mi></math>",
                 f"<math><el{'l' * n}><mi>x</mi></el{'l' * n}></math>", f'<math><mfenced open="[{p * n}"><mi>x</mi></mfenced></math>'][w]
            try:
                want = xmldoc.outcome(d)
            except Exception:
                raise Skip()
            return (d.replace("</math>", "<mi b=5>q</mi></math>"), None) if dam else (d, want)
        make(2)
        return family(f"attributes variant {w} of {sizes} times {p!r}{', damaged' if dam else ''}", sizes, make)
    return space(name, driver, f"long and many attributes, names, layout and texts of {sizes} times 12 pieces, also in a document that is repaired")


def sourced(sizes, name):
    """Texts the source mentions again and again: in tokens, attributes, layout, damage."""
    def driver(c):
        p = c.pick(literals.texts())
        w = c.choose(9)
        x = esc(p)

        def make(n):
            d = [f"<math><mtext>{x * n}</mtext></math>", f"<math><mi>{x * n}</mi></math>", f"<math><mo>{x * n}!</mo></math>", f'<math><mi alt="{x * n}">x</mi></math>', f"<!--{(x * n).replace('-', '.')}--><math><mi>x</mi></math>",
                 f"<math><mi>{x * n}</mi><mi a>y</mi></math>", f"<math><mi {p * n}>x</mi></math>", f"<math>{p * n}", f'<math><mfenced separators="{x * n}"><mi>x</mi><mi>y</mi></mfenced></math>'][w]
            if w in (5, 6, 7):
                return d, None
            try:
                return d, xmldoc.outcome(d)
            except Exception:
                return d, None
        return family(f"source text {p!r} variant {w}, {sizes} times", sizes, make)
    return space(name, driver, f"texts the source mentions {sizes} times in tokens, attributes, comments and damage")


def damage(sizes, name="damage"):
    """Damage of growing amount, repairable and not."""
    def driver(c):
        w = c.choose(14)
        f = c.pick(["a", "a=", "a=5", "a%d", "a%d=5"])
        end = c.pick(["</math>", "", "</mi></math>", "&nbsp;</math>"])

        def make(n):
            fs = [f.replace("%d", str(i)) for i in range(n)]
            body = ["".join(f"<mi {x}>x</mi>" for x in fs), f"<mi {' '.join(fs)}>x</mi>", "".join(f"<mrow {x}>" for x in fs[:90]) + "</mrow>" * min(n, 90),
                    "<mi>" * n, "</mi>" * n, "&" * n, "<" * n, ">" * n + "<", "<mi " * n, "<mi a='" * n, '"' * n + "<mi a>", "<!--" * n, "<mi" + " a" * n, "<mi a" + "=" * n][w]
            d = "<math>" + body + end
            v = xmldoc.verdict(d) if n <= 64 else None
            return d, (None if not v else ("xmlerror",) if v[0] == "broken" else v[1] if v[0] == "is" else None)
        return family(f"damage variant {w} of {f!r}, {sizes} times, ended by {end!r}", sizes, make)
    return space(name, driver, f"{sizes} times 14 kinds of damage, well ended or not")


def hundred():
    """A hundred levels, of every kind and of every two kinds."""
    fr = KIND_FRAMES

    def driver(c):
        i, j = c.choose(len(fr)), c.choose(len(fr))
        seed = c.pick([X, mrow(X, Y), table([X])])
        w = c.choose(2)

        t = grow(seed, [fr[(i, j)[n % 2] if w == 0 else i] for n in range(100 if w == 0 else 100 // 2 // rise(fr[i]))])
        t = grow(t, [fr[j]] * (100 if w else 0))
        return case(doc(t), ref.outcome(t))
    return Space("hundred", driver, f"100 elements deep, every two of {len(fr)} slots, in turn or one after the other")


def cycle():
    """A hundred levels that go through all kinds, from each start and with each stride."""
    fr = KIND_FRAMES + FRAMES

    def driver(c):
        s, k = c.choose(len(fr)), 1 + c.choose(12)
        t = c.pick([X, mtext("a b"), table([X, Y])])
        t = grow(t, [fr[(s + n * k) % len(fr)] for n in range(100)])
        return case(doc(t), ref.outcome(t))
    return Space("cycle", driver, f"100 elements deep, going through {len(fr)} slots from each start with 12 strides")


def spaces(tier):
    q = tier == "quick"
    d = [3, 6, 12, 24, 48] if q else [3, 6, 12, 24, 48, 96]
    s = [4, 8, 16, 32, 64, 128] if q else [4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048]
    z = [750, 1500, 3000] if q else [375, 750, 1500, 3000, 6000, 12000]
    few = [f for i, f in enumerate(KIND_FRAMES) if i in (0, 1, 4, 5, 7, 9, 15, 17, 19, 20, 22, 25, 26)]
    few.append(lambda t: E("munderover", t, P, Q))
    return [depth(ALL_FRAMES, d + ([] if not q else [96]), 1), depth(few if q else KIND_FRAMES, d, 2), depth(ALL_FRAMES, d, 1, SEEDS[2:] + FAILING, "depth-seeds"),
            depth(few if q else KIND_FRAMES, d[:4] if q else d, 2, FAILING[:1] if q else FAILING[:2] + SEEDS[3:5], "depth-seeds-2"), last_fails(s[:5] if q else s[:7]), grids([3, 6, 12, 24] if q else [3, 6, 12, 24, 48, 96]),
            combs(few if q else KIND_FRAMES, [3, 6, 12] if q else [3, 6, 12, 24])] + ([] if q else [depth(few, d[:5], 3)]) + [
        branching([1, 2, 3, 4] if q else [1, 2, 3, 4, 5]), width(s), text(s if q else s), attributes(s), damage(s), sourced([8, 16, 32, 64] if q else s, "source"), sourced([700] if q else [5000], "long-source"),
        text([1500] if q else [30000], "long-text"), attributes([1500] if q else [10000], "long-attributes"), damage([1200] if q else [8000], "long-damage"), hundred(), cycle(),
        spans([12, 30, 60, 700, 1400]), timed(width([4]), z), timed(text([4]), z), timed(attributes([4]), z), timed(damage([4]), z), timed(sourced([4], "source"), z[1:])]
