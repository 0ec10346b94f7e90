"""The constants of the implementation's own source, as an alphabet of inputs: every string it
mentions (and the texts its regular expressions match, the characters its numbers denote) and every
number. They only add inputs; what has to come out is decided by the reference model alone. Whatever
text, name, value or size the code treats specially is thereby among the inputs explored."""
import ast
import os
import re

import impl

try:
    from re import _parser as sre_parse
except ImportError:  # before 3.11
    import sre_parse

NAME = re.compile(r"[A-Za-z_][\w.-]*$", re.ASCII)


CALLS = {"compile", "match", "fullmatch", "search", "sub", "subn", "split", "findall", "finditer"}


def constants():
    """Strings, regular expressions and numbers, without the entries of large tables."""
    texts, patterns, numbers = set(), set(), set()

    def add(v):
        if isinstance(v, str):
            texts.add(v)
        elif isinstance(v, bytes):
            texts.add(v.decode("latin-1"))
        elif isinstance(v, int) and not isinstance(v, bool):
            numbers.add(v)

    def walk(n):
        if isinstance(n, ast.Dict) and len(n.values) > 60:
            return
        if isinstance(n, ast.Constant):
            add(n.value)
        elif isinstance(n, ast.JoinedStr):
            texts.add("".join(p.value if isinstance(p, ast.Constant) else "x" for p in n.values))
        elif isinstance(n, ast.Call):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
            if name in CALLS:
                patterns.update(a.value for a in n.args[:1] if isinstance(a, ast.Constant) and isinstance(a.value, str))
        for k in ast.iter_child_nodes(n):
            walk(k)

    for d, _, files in os.walk(os.path.join(impl.SRC, "mathml_to_latex")):
        for f in sorted(files):
            if f.endswith(".py"):
                with open(os.path.join(d, f), encoding="utf-8") as h:
                    walk(ast.parse(h.read()))
    return texts, patterns, numbers


def matches(pattern, limit=24):
    """A few texts the regular expression matches: every branch, least and next repetition."""
    try:
        tree = sre_parse.parse(pattern)
    except Exception:
        return set()

    def cls(items):
        out, neg = [], False
        for op, av in items:
            op = str(op)
            if op == "NEGATE":
                neg = True
            elif op == "LITERAL":
                out.append(chr(av))
            elif op == "RANGE":
                out += [chr(av[0]), chr(av[1])]
            elif op == "CATEGORY":
                out += category(str(av))
        if neg:
            return [c for c in "x1 +α-" if c not in out][:2] or ["y"]
        return out[:8]

    def category(name):
        return {"CATEGORY_DIGIT": ["0", "9"], "CATEGORY_SPACE": [" "], "CATEGORY_WORD": ["x", "1"],
                "CATEGORY_NOT_DIGIT": ["x"], "CATEGORY_NOT_SPACE": ["x"], "CATEGORY_NOT_WORD": ["+"]}.get(name, ["x"])

    def go(seq):
        acc = [""]
        for op, av in seq:
            op = str(op)
            if op == "LITERAL":
                ls = [chr(av)]
            elif op == "NOT_LITERAL":
                ls = ["x" if av != ord("x") else "y"]
            elif op == "ANY":
                ls = ["x"]
            elif op == "IN":
                ls = cls(av)
            elif op == "BRANCH":
                ls = [x for b in av[1] for x in go(b)]
            elif op == "SUBPATTERN":
                ls = go(av[-1])
            elif op == "ATOMIC_GROUP":
                ls = go(av)
            elif op in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                one = go(av[2])
                ls = [x * k for k in sorted({av[0], min(av[0] + 1, av[1]), min(max(av[0], 2), av[1])}) for x in one[:4]]
            else:  # assertions, anchors, back references
                ls = [""]
            acc = [a + x for x in ls for a in acc][:limit]
        return acc
    return set(go(tree))


def ok(s):
    return all(ch in "\t\n" or 0x20 <= ord(ch) < 0xD800 or 0xE000 <= ord(ch) < 0xFFFE or ord(ch) > 0xFFFF for ch in s)


def collect():
    raw, patterns, numbers = constants()
    out = set()
    for s in raw:
        if len(s) > 60 and s not in patterns:
            continue  # documentation
        out.add(s)
        if len(s) < 30:
            out |= set(re.findall(r"[^\W_]+", s))
            out |= set(s)
    for s in patterns:
        out |= matches(s)
    for n in numbers:
        if 0x20 <= n <= 0x10FFFF:
            out |= {chr(k) for k in (n - 1, n, n + 1) if k <= 0x10FFFF}
    texts = sorted({s for s in out if s and ok(s) and len(s) < 80 and not re.match(r"&#x[0-9A-Fa-f]+;", s)})
    sizes = sorted({k for n in numbers for k in (n - 1, n, n + 1, 2 * n, 2 * n + 1) if 0 <= k <= 5000})
    return texts, sizes


_cache = []


def get():
    if not _cache:
        _cache.extend(collect())
    return _cache


def texts():
    """Strings of the source outside the symbol tables."""
    return get()[0]


def words():
    """... that can be the name of an element or attribute."""
    return [s for s in texts() if NAME.match(s)]


def identifiers():
    """The names the source itself uses for its variables, functions and attributes, and the parts of them, as names of elements."""
    if not _names:
        raw = set()
        for d, _, files in os.walk(os.path.join(impl.SRC, "mathml_to_latex")):
            for f in sorted(files):
                if f.endswith(".py"):
                    with open(os.path.join(d, f), encoding="utf-8") as h:
                        for n in ast.walk(ast.parse(h.read())):
                            raw |= {getattr(n, k) for k in ("id", "attr", "name", "arg") if isinstance(getattr(n, k, None), str)}
        for r in raw:
            ps = r.strip("_").split("_")
            _names.update("_".join(ps[i:j]) for i in range(len(ps)) for j in range(i + 1, len(ps) + 1))
            _names.add(r)
    return sorted(n for n in _names if NAME.match(n))


_names = set()


def sizes():
    """Numbers of the source, and their neighbours."""
    return get()[1]
