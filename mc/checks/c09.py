"""C09: the symbol dictionaries, over all of Unicode."""
import impl
import literals
import present
import ref
from gen import KIND_FRAMES, E, Space, T, X, doc, kinds_of_characters, mrow, numerics
from space import agree, case

RULE = ("every path of each space is one document holding token texts; each must come out as the dictionary of its kind "
        "(spec/symbols.json) says, or unchanged")
ASSUMPTIONS = ["spec/symbols.json is the published dictionary: resolved once from the library's tables (after the repairs listed "
               "in known_findings.json), independent of how they are stored"]
KINDS = ["mi", "mo", "mn"]
PACK = 40


def valid(cp):
    return cp in (9, 10, 13) or 0x20 <= cp < 0xD800 or 0xE000 <= cp < 0xFFFE or 0x10000 <= cp < 0x110000


def judge(c, out):
    msg = agree(c["expect"], out)
    if msg is None:
        return None
    for kind, text in c["tokens"]:
        one = T(kind, text)
        m = agree(ref.outcome(one), impl.convert(doc(one)))
        if m:
            return f"<{kind}>{text!r}</{kind}> ({', '.join('U+%04X' % ord(ch) for ch in text)}): {m}"
    return "each token alone is right, but together: " + msg


def tokens_case(tokens):
    ts = [T(k, x) for k, x in tokens]
    return case(doc(*ts), ref.outcome(*ts), tokens=tokens)


def unicode_space(name, ranges, pack, kinds=KINDS):
    cps = [cp for a, b in ranges for cp in range(a, b) if valid(cp)]
    groups = [(k, cps[i:i + pack]) for k in kinds for i in range(0, len(cps), pack)]

    def driver(c):
        k, g = c.pick(groups)
        return tokens_case([(k, chr(cp)) for cp in g])
    return Space(name, driver, f"all {len(cps)} XML characters of {len(ranges)} ranges as {kinds}, {pack} to a document", judge=judge, split=4096)


def entries():
    """Each dictionary entry of every kind, alone in a document, as each kind, bare, padded and with attributes."""
    texts = sorted({x for k in KINDS for x in ref.SYMBOLS[k]})

    def driver(c):
        x = c.pick(texts)
        return tokens_case([(c.pick(KINDS), c.pick(["", " "]) + x + c.pick(["", " "]))])
    return Space("entries", driver, f"each of {len(texts)} entries as mi, mo and mn, with and without space around", judge=judge)


def extensions(alphabet):
    """Each entry with one character before or after it, doubled, its proper prefixes and suffixes, its case swapped."""
    texts = sorted({x for k in KINDS for x in ref.SYMBOLS[k]})

    def driver(c):
        x = c.pick(texts)
        n = c.choose(2 * len(alphabet) + 6)
        if n < len(alphabet):
            y = x + alphabet[n]
        elif n < 2 * len(alphabet):
            y = alphabet[n - len(alphabet)] + x
        else:
            y = [x + x, x[:-1], x[1:], x.swapcase(), x + " " + x, x + "\u0301"][n - 2 * len(alphabet)]
        return tokens_case([(k, y) for k in KINDS])
    return Space("extensions", driver, f"{len(texts)} entries x one character of {alphabet} before or after, doubled, cut, case swapped", judge=judge)


def pairs(firsts, seconds, kinds):
    blocks = [(k, a) for k in kinds for a in firsts]

    def driver(c):
        k, a = c.pick(blocks)
        i = c.choose((len(seconds) + PACK - 1) // PACK)
        return tokens_case([(k, a + b) for b in seconds[i * PACK:(i + 1) * PACK]])
    return Space("pairs", driver, f"every two-character text from {len(firsts)} x {len(seconds)} characters", judge=judge)


def mixed(step):
    """Texts of two and three characters of different kinds: what some way of reading takes for a number, a letter, a mark or one character."""
    chars = [c for c in kinds_of_characters() if valid(ord(c[0]))]
    nums = numerics(step)
    few = ["1", "0", "x", "A", ".", ",", "-", " ", "²", "α", "\u0301", "٣", "½", "\\"]
    jobs = [(a, chars) for a in chars] + [(n, few) for n in nums]

    def driver(c):
        a, bs = c.pick(jobs)
        k = c.pick(KINDS)
        return tokens_case([(k, s) for b in bs for s in ((a + b,) if bs is chars else (a + b, b + a, b + a + b, a + b + a, a + a)) if s.strip()])
    return Space("mixed", driver, f"every two of {len(chars)} texts of one character of each Unicode category and plane, and {len(nums)} numeric characters around, before and after {len(few)} others", judge=judge)


def ascii_words(n, alphabet):
    def driver(c):
        k = 1 + c.choose(n)
        s = "".join(c.pick(alphabet) for _ in range(k - 1))
        return tokens_case([(kind, s + ch) for kind in KINDS for ch in alphabet])
    return Space("words", driver, f"every text of 1..{n} characters over {alphabet!r}", judge=judge)


def lengths(top, more=()):
    def driver(c):
        ch = c.pick(["x", "1", "α", "+", "é", "\\", "Ω", "½", "&", "=", ".", "𝐀", "́"])
        n = c.pick(list(range(2, top + 2)) + list(more))
        return tokens_case([(k, ch * n) for k in KINDS])
    return Space("lengths", driver, f"13 characters repeated up to {top + 1} times, and {list(more)} times", judge=judge)


def neighbours():
    """Two entries side by side: one must not change the other."""
    texts = [sorted(ref.SYMBOLS[k])[::step] for k, step in (("mi", 9), ("mo", 25), ("mn", 7))]
    toks = [(k, x) for k, xs in zip(KINDS, texts) for x in xs]

    def driver(c):
        a = c.pick(toks)
        i = c.choose((len(toks) + 9) // 10)
        return tokens_case([t for b in toks[i * 10:i * 10 + 10] for t in (a, b)])
    return Space("neighbours", driver, f"every pair of {len(toks)} entries side by side", judge=judge)


def slots(step):
    """Each entry in each slot of each kind of container."""
    toks = [(k, x) for k in KINDS for x in sorted(ref.SYMBOLS[k])[::step]]
    frames = KIND_FRAMES + [lambda t: E("msup", t, t), lambda t: E("mover", E("mo", X), t), lambda t: E("munder", t, t), lambda t: mrow(t, t, X, t)]

    def driver(c):
        k, x = c.pick(toks)
        t = c.pick(frames)(T(k, x))
        return case(doc(t), ref.outcome(t), tokens=[(k, x)])
    return Space("slots", driver, f"{len(toks)} entries in every kind of slot", judge=judge)


def attributes(step):
    """Attributes must not change what a symbol is."""
    groups = []
    for k in KINDS:
        xs = sorted(ref.SYMBOLS[k])[::step] + ["x", "sin", "xy", "1", "12", "+=", "α", "\u2070"]
        groups += [(k, xs[i:i + PACK]) for i in range(0, len(xs), PACK)]
    pairs = present.PAIRS + [(w, v) for w in literals.words() for v in ("true", "x")]

    def driver(c):
        k, xs = c.pick(groups)
        a = c.pick(pairs)
        ts = [(k, (a,), x, ()) for x in xs]
        return case(doc(*ts), ref.outcome(*ts), tokens=[])
    return Space("attributes", driver, f"entries of the three dictionaries with each of {len(present.PAIRS)} presentation attributes and of those the source mentions")


def sourced(alphabet):
    """Texts the source mentions: alone, in twos, beside other characters, repeated."""
    def driver(c):
        ls = literals.texts()
        a = c.pick(ls)
        n = c.choose(3)
        if n == 0:
            i = c.choose((len(ls) + PACK - 1) // PACK)
            ys = [a + b for b in ls[i * PACK:(i + 1) * PACK]]
        elif n == 1:
            ys = [a + b for b in alphabet] + [b + a for b in alphabet] + [a.swapcase(), a.title(), a.upper(), a.lower(), a[1:], a[:-1]]
        else:
            ys = [a * k for k in sorted({1, 2, 3, 4} | {m for m in literals.sizes() if 0 < m * len(a) < 300})]
        k = c.pick(KINDS)
        return tokens_case([(k, y) for y in ys if y.strip()])
    return Space("source", driver, f"texts the source mentions: two together, beside one of {alphabet!r}, cut, in other case, repeated", judge=judge)


def numerals(n, alphabet):
    """Texts that look like numbers."""
    def driver(c):
        k = 1 + c.choose(n)
        s = "".join(c.pick(alphabet) for _ in range(k - 1))
        return tokens_case([(kind, s + ch) for kind in KINDS for ch in alphabet])
    return Space("numerals", driver, f"every text of 1..{n} characters over {alphabet!r}", judge=judge)


def spaces(tier):
    q = tier == "quick"
    one = sorted({x for k in KINDS for x in ref.SYMBOLS[k] if len(x) == 1})
    latin = [chr(c) for c in range(0x21, 0x7F)]
    res = [entries(), extensions("x1+.é\\='" if q else latin), lengths(140 if q else 600, [199, 200, 201, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1024, 2000, 4096, 5000]),
           ascii_words(3, "sin1.+") if q else ascii_words(4, "abcdefghijklmnopqrstuvwxyz.1+-=<>|/*~"),
           pairs(latin, latin, KINDS), neighbours(), mixed(8 if q else 1),
           unicode_space("bmp-alone", [(9, 0x600), (0x1E00, 0x2400)] if q else [(9, 0x20000)], 1),
           unicode_space("unicode", [(9, 0x20000), (0xE0000, 0xE0200), (0x10FF00, 0x110000)] if q else [(9, 0x110000)], PACK)]
    res += [slots(3 if q else 1), attributes(3 if q else 1), sourced("x1+.=\\ é"), numerals(5, "10.,-e") if q else numerals(6, "10.,-+e/")]
    if not q:
        res.append(pairs(one, one, ["mi", "mo"]))
    return res
