"""C20: concurrent conversions do not interfere."""
import gc

import explore
import fork
import impl
import ref
import sched
from gen import ALL_FRAMES, KIND_FRAMES, E, Space, T, X, Y, Z, doc, mi, mn, mo, mrow, mtext, table, ONE, TWO
from space import describe

sched.patch()  # before the library is imported

RULE = ("every path of each space is a schedule of two or three real threads that each convert a document, in a process of its own: at every scheduling point "
        "(a call, line or bytecode of the library) the scheduler goes on with the thread or, within the bound on preemptions, with another; each thread's outcome "
        "must be that of its document alone in a fresh process, and all threads must finish")
ASSUMPTIONS = ["the interpreter and the standard library's own C code are thread-safe; threads switch at bytecode boundaries of the library's code at the finest",
               "locks the library makes through the threading module are controlled; a thread asleep in anything else is taken to be blocked after two seconds"]

A = "<math><mi>x</mi></math>"
B = "<math><mo>+</mo></math>"
DOCS = {
    "mi": A, "mo": B, "none": "<math/>", "row": "<math><mrow/></math>",
    "text": '<math><mtext mathvariant="bold">a α</mtext></math>',
    "sup": doc(E("msup", mrow(X, Y), TWO)),
    "fence": doc(E("mfenced", table([X, Y]), open="[", close="]")),
    "nested": doc(table([table([X]), Y])),
    "plainfence": doc(E("mfenced", X, Y, Z, open="|", close="", separators=";,")),
    "multi": doc(E("mmultiscripts", X, ONE, TWO, E("mprescripts"), Y, Z)),
    "frac": doc(E("mfrac", X, Y, bevelled="true"), E("mfrac", X, Y)),
    "enclose": doc(E("menclose", X, notation="box"), E("maction", X, Y)),
    "repair": "<math><mi disabled>a</mi><mo b=5>-</mo></math>",
    "broken": "<math><mi>x</math>",
    "arity": doc(E("mroot", X)),
    "two": "<p><math><mi>a</mi></math><math><mi>b</mi></math></p>",
    "bold": '<math><mi mathvariant="bold">A</mi><mover><mi>x</mi><mo>^</mo></mover></math>',
}




def every(a, b, n, v):
    """A formula with every kind of element, around the tokens given."""
    x, y, k = mi(a), mi(b), mn(n)
    return mrow(
        T("mi", a, mathvariant=v), mtext(f"{a} α {b}"), T("mtext", f"{b}β{a}", mathvariant=v), E("msup", mrow(x, y), k), E("msub", y, k), E("msubsup", mrow(y, x), k, x), E("mfrac", x, k),
        E("mfrac", mrow(x, k), y, bevelled="true"), E("msqrt", x, y), E("mroot", k, x), E("mover", x, mo("^")), E("munder", mo("lim"), y), E("munderover", mo("∑"), x, k),
        E("mmultiscripts", mrow(x, y), k, y, E("mprescripts"), y, k), E("mfenced", x, y, k, open=n and "[", close="]", separators=f";{b}"), E("mfenced", table([x, y], [k, x]), open="|", close="|"),
        table([x, table([y, k])]), E("menclose", x, notation="box"), E("menclose", y, k), E("maction", x, y), E("maction", y, x, actiontype="statusline"), E("merror", x, y), E("mphantom", x),
        E("mstyle", y, x), E("foo", x), E("math", y, x))


DOCS["every"] = doc(every("x", "y", "1", "bold"))
DOCS["every2"] = doc(every("p", "α", "23", "italic"))
DOCS["every-repair"] = DOCS["every"].replace("<mrow>", "<mrow hidden>", 1).replace("<mfrac>", "<mfrac a=5>", 1)
DOCS["every-repair2"] = DOCS["every2"].replace("<mrow>", "<mrow q=7 w>", 1).replace("<msqrt>", "<msqrt b>", 1)
SECOND = {  # the same kinds of documents with other contents
    "mi2": "<math><mi>β</mi></math>", "mo2": "<math><mo>-</mo></math>", "text2": '<math><mtext mathvariant="italic">b β c</mtext></math>', "sup2": doc(E("msup", mrow(Z, X, Y), mn("3"))),
    "fence2": doc(E("mfenced", table([Z], [X]), open="(", close=")")), "nested2": doc(table([Z, table([Y, X])])), "plainfence2": doc(E("mfenced", Z, X, Y, X, open="", close="]", separators="/")),
    "multi2": doc(E("mmultiscripts", mrow(Z, Y), TWO, ONE, E("mprescripts"), X, Y)), "frac2": doc(E("mfrac", Z, mrow(X, Y), bevelled="true")), "enclose2": doc(E("menclose", Z, X, notation="circle"), E("maction", Z, X, Y)),
    "repair2": "<math><mo c>/</mo><mi d=7>q</mi></math>", "broken2": "<math><mn>1</math>", "arity2": doc(E("msubsup", X, Y)), "two2": "<p><math><mi>c</mi></math><b/><math><mi>d</mi></math></p>",
    "bold2": '<math><mi mathvariant="italic">B</mi><munder><mi>y</mi><mo>_</mo></munder></math>',
}
DOCS.update(SECOND)


NESTED = {}
for i, f in enumerate(KIND_FRAMES):
    for j, g in enumerate(KIND_FRAMES):
        if i != j:
            NESTED[f"nested-{i}-{j}"] = doc(f(g(X)))
DOCS.update(NESTED)


def small(f, *kids):
    """The kind of element f makes, around children of different kinds."""
    n, at, x, old = f(X)
    if n == "mtable":
        return doc(table(list(kids)))
    return doc((n, at, x, tuple(kids) if len(old) != 3 else tuple(kids) + (X,)))


# every value of what an element looks at, in one document: against a small one of the same kind
VALUES = {
    "accents": [E(n, X, mo(o)) for o in "^¯⏞⏟~→_" for n in ("mover", "munder")] + [E("munderover", X, mo("⏟"), mo("^"))],
    "notations": [E("menclose", X, notation=n) for n in [*ref.ENCLOSE, "unknown"]],
    "fonts": [mi("A", mathvariant=v) for v in [*ref.FONTS, "normal"]],
    "textfonts": [mtext("a α", mathvariant=v) for v in [*ref.TEXT_FONTS, "normal"]],
    "delimiters": [E("mfenced", X, open=o, close=c) for o, c in (("[", "]"), ("{", "}"), ("|", "|"), ("⟨", "⟩"), ("", ""), ("||", "||"))],
    "matrices": [E("mfenced", table([X]), open=o, close=c) for o, c in (("[", "]"), ("{", "}"), ("(", ")"), ("|", "|"), ("||", "||"), ("{", ""), ("<", "]"))],
    "separators": [E("mfenced", X, Y, Z, separators=v) for v in (";", ",;", ";,", "", "|", "abc")],
    "actions": [E("maction", X, Y, actiontype=v) for v in ("toggle", "tooltip", "statusline", "", "x")],
    "identifiers": [mi(s) for s in ("α", "é", "𝒜", "∞", "sin", "ab", "", "ℝ", "&")],
    "operators": [mo(s) for s in ("+", "∑", "≤", "→", "−", "&", "", "∫", "(", "}")],
    "numbers": [mn(s) for s in ("1", "1.5", "12 000", "α", "", "½", "²")],
    "scripts": [E("mmultiscripts", X, *t) for t in ((Y, Z), (Y, Z, E("mprescripts"), Y, Z), (E("none"), Z), (E("mprescripts"), Y, Z), (E("mprescripts"), E("none"), Z))],
    "fractions": [E("mfrac", a, b, **t) for t in ({"bevelled": "true"}, {"bevelled": "false"}, {}) for a, b in ((X, Y), (mrow(X, Y), Y), (X, mrow(X, Y)))],
    "groups": [E(n, *t) for n in ("mrow", "mstyle", "merror", "mphantom", "msqrt", "math", "foo") for t in ((), (X,), (X, Y))],
    "wrappers": [E(n, mrow(*t), Z) for n in ("msup", "msub", "mroot", "mover", "munder") for t in ((), (X,), (X, Y))],
}
VALUED = []
for n, ts in VALUES.items():
    DOCS[f"values-{n}"] = doc(*ts)
    for i, t in enumerate((ts[0], ts[-1])):
        DOCS[f"value-{n}-{i}"] = doc(t)
        VALUED.append((f"value-{n}-{i}", f"values-{n}"))


PARSING = ("mathml_to_latex/xml_to_mathml",)
SMALL, kinds = [], {}
for f in KIND_FRAMES:
    kinds.setdefault(f(X)[:2], f)
for i, f in enumerate(kinds.values()):
    DOCS[f"small-{i}"] = small(f, mi("a"), mn("1"))
    DOCS[f"little-{i}"] = small(f, mo("-"), mtext("c"))
    SMALL.append((f"small-{i}", f"little-{i}"))


FAILING = []
for i, f in enumerate(ALL_FRAMES):
    DOCS[f"failing-{i}"] = doc(f(E("mroot", X)))
    DOCS[f"working-{i}"] = doc(f(mi("q")))
    FAILING += [(f"failing-{i}", f"working-{i}"), (f"failing-{i}", "every")]


def schedule(c, names, way, grain, stdlib, buckets, warm, visits=0, skip=()):
    """One execution, in a forked process; the choices made in it are brought back into c."""
    first = c.choose(len(names))
    bucket = (c.choose(buckets), buckets) if buckets else None

    def child():
        cls = impl.load()
        if warm:
            for d in warm:
                impl.outcome_of(lambda: cls.convert(d))
        shared = cls()
        call = {"class": lambda d: cls.convert(d), "shared": lambda d: shared.convert(d), "own": lambda d: cls().convert(d)}[way]

        def job(d):
            def run():
                try:
                    r = call(d)
                    return ("ok", r) if type(r) is str else ("bad", repr(type(r)))
                except RecursionError:
                    return ("err", "RecursionError")
                except Exception as e:
                    return ("err", type(e).__name__, str(e))
            return run
        s = sched.Scheduler(c, [job(DOCS[n]) for n in names], grain, stdlib, bucket, first, visits, skip)
        try:
            v = s.run()
        except explore.Probe as e:
            return ("probe", e.n)
        return ("ran", v, s.results, s.points, s.external, c.trace, c.spent)
    res = fork.run(child)
    if res[0] == "probe":
        raise explore.Probe(res[1])
    if res[0] != "ran":
        return {"names": names, "out": ("hang",), "way": way, "grain": grain, "trace": list(c.trace)}
    _, v, results, points, external, c.trace, c.spent = res
    return {"names": names, "way": way, "grain": grain, "first": first, "out": (v, tuple(results)), "points": points, "external": external,
            "trace": [k for k, _ in c.trace]}


def judge(case, out):
    if out[0] == "deadlock":
        return f"threads converting {case['names']} block each other for ever"
    if out[0] != "done":
        return f"threads converting {case['names']} do not finish"
    for n, o in zip(case["names"], out[1]):
        want = fork.alone(DOCS[n])
        if o != want:
            return f"the conversion of {DOCS[n]!r} {describe(o) if o[0] in ('ok', 'err') else o} under this schedule of {case['names']} ({case['way']}); alone it {describe(want)}"
    return None


def key(case):
    return f"{case['names']} {case['way']} {case['grain']} schedule {case['trace']}"


def space(name, tuples, ways, grain, bound, stdlib=False, buckets=0, warm=(None,), split=64, visits=0, skip=()):
    def driver(c):
        names, way, w = c.pick(tuples), c.pick(ways), c.pick(warm)
        return schedule(c, names, way, grain, stdlib, buckets, w, visits, skip)
    where = {"lock": "operation on a lock", "enter": "call", "call": "call and return", "line": "call, line and return", "opcode": "bytecode"}[grain] + (" of the library and the XML parser's Python code" if stdlib else " of the library")
    return Space(name, driver, f"{len(tuples)} combinations of documents, {len(ways)} ways to call: every schedule with at most {bound} preemptions, at every {where}" + (f", the first {visits} times a thread comes to it from the same line" if visits else "") + (f", outside {' and '.join(skip)}" if skip else ""),
                 bound=bound, execute=lambda case: case["out"], judge=judge, key=key, split=split)


def spaces(tier):
    q = tier == "quick"
    fork.preload([DOCS[n] for n in DOCS if n not in NESTED and n[:8] not in ("failing-", "working-")])
    impl.load()  # imported, never used: what each forked process starts with
    gc.freeze()
    names = [n for n in DOCS if n not in ("none", "row") and n not in SECOND and not n.startswith("every") and n not in NESTED and n[:6] not in ("small-", "little", "failin", "workin", "value-", "values")]
    kinds = [(n[:-1], n) for n in SECOND]
    ring = list(zip(names, names[1:] + names[:1]))
    pairs = [(a, b) for i, a in enumerate(names) for b in names[i:]]
    b = 8
    k = len(KIND_FRAMES)
    crossed = [(f"nested-{i}-{j}", f"nested-{j}-{i}") for i in range(k) for j in range(i)]
    locks = [space("failures", FAILING, ["shared"], "lock", 1), space("locks", crossed, ["shared"], "lock", 1), space("locks-every", [("every", "every2"), ("every-repair", "every"), ("every-repair", "every-repair2"), ("every", "broken"), ("every-repair", "arity")], ["shared"], "lock", 2)]
    if q:
        return [space("lines", [("mi", "mo"), ("repair", "text"), ("broken", "row")], ["shared"], "line", 1, buckets=b),
                space("kinds", kinds, ["shared"], "line", 1, buckets=b, visits=2),
                space("every", [("every", "every2")], ["shared"], "line", 1, buckets=b, visits=1),
                space("every-repair", [("every-repair", "every-repair2")], ["class"], "call", 1, buckets=b, visits=1),
                space("lines-own", [("mi", "none")], ["class"], "line", 1, buckets=b),
                space("values", VALUED, ["shared"], "line", 1, buckets=b, visits=2, skip=PARSING),
                *locks, space("two-kinds", SMALL, ["shared"], "enter", 2, buckets=b, visits=1, skip=PARSING),
                space("two-parsing", SMALL[:1], ["shared"], "enter", 2, buckets=b, visits=1),
                space("calls", ring, ["shared"], "call", 1, buckets=b),
                space("calls-class", [("repair", "repair"), ("nested", "nested"), ("fence", "nested")], ["class"], "call", 1, buckets=b),
                space("two-preemptions", [("none", "none")], ["shared"], "call", 2, buckets=b),
                space("three", [("none", "row", "none")], ["class"], "call", 1, buckets=b),
                space("bytecode", [("none", "row")], ["class"], "opcode", 1, buckets=b),
                ]
    warm = [None, [A, DOCS["nested"], DOCS["broken"]]]
    return locks + [space("values", VALUED + [(b, b) for _, b in VALUED[::2]], ["shared", "class"], "line", 1, buckets=b), space("two-kinds", SMALL, ["class"], "call", 2, buckets=b, visits=1, skip=PARSING), space("two-parsing", SMALL[:1] + [("repair", "repair2")], ["class"], "call", 2, buckets=b, visits=1), space("kinds", kinds, ["shared", "class"], "line", 1, buckets=b), space("every", [("every", "every2"), ("every-repair", "every-repair2"), ("every", "every-repair2")], ["shared", "class"], "line", 1, buckets=b),
            space("lines", pairs, ["shared"], "line", 1, buckets=b), space("lines-own", ring, ["class", "own"], "line", 1, buckets=b),
            space("warm", ring, ["shared", "class"], "line", 1, buckets=b, warm=warm[1:]),
            space("bytecode", ring, ["shared"], "opcode", 1, buckets=b),
            space("parser", ring, ["shared"], "line", 1, buckets=b, stdlib=True),
            space("two-preemptions", [("none", "none"), ("mi", "mo"), ("row", "broken"), ("repair", "none")], ["shared", "class"], "call", 2, buckets=b),
            space("two-preemptions-lines", [("none", "none"), ("none", "row")], ["shared"], "line", 2, buckets=b),
            space("three", [("mi", "mo", "row"), ("broken", "none", "mi"), ("none", "none", "none")], ["class", "shared"], "call", 2, buckets=b)]
