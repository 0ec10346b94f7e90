"""C25: the result is the same in every environment."""
import atexit
import json
import os
import shutil
import subprocess
import sys
import tempfile

import envrun
import fork
import impl
import literals
import ref
from gen import ALL_FRAMES, E, FEW, FRAMES, KIND_FRAMES, OPERANDS, Space, T, X, Y, Z, doc, mi, mn, mo, mrow, mtext, table
from space import describe

RULE = ("every path of each space is one way to run Python (hash seed, optimisation, modes, environment variables) and one situation of the caller, in a process of its own that converts every document of a fixed list; "
        "each outcome must be the one of the same document alone in an ordinary process")
ASSUMPTIONS = ["one interpreter (the one installed) and the locales of this machine"]

MARKS = "#$%&_{}^~\\"


def documents():
    ds = [doc(o) for o in OPERANDS] + [doc(f(t)) for f in ALL_FRAMES for t in FEW] + [doc(f(g(X))) for f in KIND_FRAMES for g in KIND_FRAMES]
    for k, table_ in sorted(ref.SYMBOLS.items()):
        syms = sorted(table_)
        ds += [doc(*[T(k, s) for s in syms[i:i + 60]]) for i in range(0, len(syms), 60)]
    ds += [doc(*[T("mi", s, mathvariant=v) for s in ("x", "AB", "α", "é", "")] + [T("mtext", "a α 1", mathvariant=v)]) for v in ref.FONTS]
    ds += [doc(*[T(k, c) for c in MARKS + "İıßſKÅéﬁǅ½①𝐀𝛼𝟘ªºⅣ"]) for k in ("mi", "mo", "mn", "mtext", "foo")]
    ds += [doc(E("mfenced", X, Y, Z, open=o, close=c, separators=s)) for o in "([{|⟨" for c in ")]}|⟩" for s in ("", ";", ";,")]
    ds += [doc(E("mfenced", table([X, Y]), open=o, close=c)) for o in ("", "(", "[", "{", "|", "||") for c in ("", ")", "]", "}", "|", "||")]
    ds += [doc(E("menclose", X, Y, notation=n)) for n in sorted(ref.ENCLOSE) + ["", "unknown", "box circle"]]
    ds += [doc(E(n, *[X] * k)) for n in ("msup", "msub", "msubsup", "mfrac", "mroot", "mover", "munder", "munderover", "mmultiscripts", "mtable", "mfenced", "maction", "msqrt", "menclose", "mphantom", "merror", "foo") for k in range(5)]
    ds += [doc(E("maction", X, Y, actiontype=a)) for a in ("toggle", "statusline", "tooltip", "", "x")] + [doc(E("mfrac", X, Y, bevelled=b)) for b in ("true", "false", "", "1")]
    good = doc(E("msup", mi("x", mathvariant="bold"), mn("2")), mtext("a b"))
    ds += [good[:i] for i in range(0, len(good), 3)] + ["", " ", "<math/>", "<p/>", "x", "&", "<math>&foo;</math>", "<math><mi>x</mi></math>y", "<a/><b/>", "<math><mi a='1' a='2'>x</mi></math>"]
    ds += ["<math><mi disabled>x</mi></math>", "<math a b=1 c='2'><mi d=e f>x</mi></math>", "<math><mi a>x</math>", "<p><math><mi>x</mi></math> t <b><math><mo>+</mo></math></b></p>",
           '<?xml version="1.0" encoding="UTF-8"?><math><mi>é</mi></math>', '<?xml version="1.0" encoding="ISO-8859-1"?><math><mi>α</mi></math>', '<!DOCTYPE math [<!ENTITY e "α">]><math><mi>&e;</mi></math>', "\ufeff<math><mi>x</mi></math>",
           "<mml:math><mml:mi>x</mml:mi></mml:math>", "<math>\r\n<mi>\tx </mi>\n</math>", "<math><mi><![CDATA[<&>]]></mi></math>", "<math><!-- c --><mi>x<?p?></mi></math>", "<math><mtext>a\u2003b \u00a0 c</mtext></math>"]
    ds += [doc(mrow(*[f(X) for f in KIND_FRAMES])), "<math>" + "<mrow>" * 60 + "<mi>x</mi>" + "</mrow>" * 60 + "</math>", doc(mtext("word α " * 300)), doc(*[mi("x")] * 300)]
    ds += [doc(T(k, c * n)) for k in ("mi", "mo", "mn", "mtext") for c in ("7", "1.", "9,") for n in (700, 5000)] + [doc(E("msup", X, mn("8" * n))) for n in (639, 641, 4299, 4301)] + [doc(mn("8" * 5000, mathsize="7" * 5000)), doc(E("mtable", E("mtr", E("mtd", X, columnspan="7" * 5000)))), doc(E("maction", X, Y, selection="1" * 5000))]
    ds += [doc(mn(s)) for s in ("1_000", "٣", "1e5", "0x1F", "1e400", "0.1", "½", "-0", "1,5", "１２", "nan", "007", "1.50")]
    seen = {}
    return [seen.setdefault(d, d) for d in ds if d not in seen]


WAYS = ["-c", "-", "-m", "-i"]
with open(envrun.__file__, encoding="utf-8") as f:
    SOURCE = f.read()


def one(args, env, situation):
    e = {"PATH": os.environ.get("PATH", ""), **env}
    e = {k: v for k, v in e.items() if v is not None}
    program, given, cwd = [os.path.join(os.path.dirname(envrun.__file__), "envrun.py")], subprocess.DEVNULL, DIR
    args = list(args)
    way = args.pop() if args and args[-1] in WAYS else None
    if way == "-c":
        program = ["-c", SOURCE]
    elif way == "-":
        program, given = ["-"], open(program[0], "rb")
    elif way == "-m":
        program, cwd = ["-m", "envrun"], os.path.dirname(envrun.__file__)
    elif way == "-i":
        program = ["-i", *program]
    try:
        p = subprocess.run([sys.executable, "-B", "-X", "pycache_prefix=/nonexistent-pycache", *args, *program, impl.SRC, FILE, situation], env=e, cwd=cwd, stdin=given, capture_output=True, timeout=300)
    except subprocess.TimeoutExpired:
        return ("hang",)
    try:
        res = json.loads(p.stdout)
    except ValueError:
        return ("died", p.returncode, p.stderr.decode("utf-8", "replace")[-400:])
    bad = [(i, r) for i, r in enumerate(res) if r != WANT[i]]
    if len(res) != len(WANT):
        return ("died", "number of outcomes", f"{len(res)} for {len(WANT)}")
    return ("same", len(res)) if not bad else ("differ", len(bad), bad[0][0], bad[0][1])


def judge(case, out):
    where = f"with Python's options {case['args']}, environment {case['env']}, converting {case['situation']}"
    if out[0] == "same":
        return None
    if out[0] == "hang":
        return f"the conversions do not end {where}"
    if out[0] == "died":
        return f"the conversions do not come to an end {where}: {out[1]} {out[2]}"
    _, n, i, r = out
    return f"{DOCS[i]!r} {describe(tuple(r))} {where}; alone in an ordinary process it {describe(tuple(WANT[i]))} ({n} documents differ)"


def space(name, driver, rule):
    def d(c):
        args, env, situation = driver(c)
        return {"args": list(args), "env": dict(env), "situation": situation}
    return Space(name, d, rule + f", {len(DOCS)} documents in each", execute=lambda case: one(case["args"], case["env"], case["situation"]), judge=judge,
                 key=lambda case: f"{case['args']} {case['env']} {case['situation']}", split=4096)


OPTIONS = [[], ["-O"], ["-OO"], ["-X", "dev"], ["-X", "utf8"], ["-X", "utf8=0"], ["-I"], ["-E", "-s"], ["-b"], ["-bb"], ["-W", "error", "-W", "ignore::SyntaxWarning"], ["-W", "always"], ["-W", "ignore"], ["-X", "no_debug_ranges"], ["-X", "frozen_modules=off"],
           ["-X", "int_max_str_digits=640"], ["-X", "tracemalloc"], ["-X", "warn_default_encoding"], ["-u"], ["-q", "-P"], ["-X", "faulthandler"], ["-S"], ["-c"], ["-"], ["-m"], ["-i"], ["-O", "-c"], ["-OO", "-m"], ["-I", "-"], ["-X", "importtime"], ["-v"], ["-X", "int_max_str_digits=0"], ["-X", "showrefcount"]]
ENVS = [{}, {"LC_ALL": "C"}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LANG": "tr_TR.UTF-8", "LC_ALL": "tr_TR.UTF-8"}, {"LC_ALL": "C.UTF-8"}, {"TZ": "Pacific/Kiritimati"}, {"HOME": None, "PATH": None}, {"PYTHONIOENCODING": "ascii:strict"},
        {"PYTHONHASHSEED": "random"}, {"DEBUG": "1", "MATHML_DEBUG": "1", "VERBOSE": "1"}, {"CI": "true", "PYTEST_CURRENT_TEST": "x"}, {"PYTHONOPTIMIZE": "2"}, {"PYTHONDEVMODE": "1"}, {"PYTHONMALLOC": "debug"}, {"PYTHONWARNINGS": "error,ignore::SyntaxWarning"},
        {"COLUMNS": "10", "TERM": "dumb", "NO_COLOR": "1"}, {"http_proxy": "http://127.0.0.1:9", "USER": "ü"}]


def spaces(tier):
    global DOCS, DIR, FILE, WANT
    q = tier == "quick"
    DOCS = documents()
    DIR = tempfile.mkdtemp(prefix="verif-c25-")
    me = os.getpid()
    atexit.register(lambda: os.getpid() == me and shutil.rmtree(DIR, ignore_errors=True))
    os.chmod(DIR, 0o755)
    FILE = os.path.join(DIR, "docs.json")
    with open(FILE, "w", encoding="utf-8") as f:
        json.dump(DOCS, f)
    WANT = fork.run(lambda: [list(impl.outcome_of(lambda: impl.load().convert(d))) for d in DOCS])
    situations = list(envrun.SITUATIONS)
    seeds = range(16 if q else 256)

    def hashing(c):
        return c.pick(OPTIONS[:3]), {"PYTHONHASHSEED": str(c.pick(seeds))}, c.pick(["plain", "with one instance"])

    def modes(c):
        return c.pick(OPTIONS), c.pick(ENVS), "plain"

    def callers(c):
        return c.pick(OPTIONS[:3] if q else OPTIONS), c.pick(ENVS[:1] if q else ENVS), c.pick(situations)

    words = sorted(n for n in {*literals.words(), *literals.identifiers()} if n.isidentifier() and n.isascii() and not n.upper().startswith(("PYTHON", "LC_", "LD_", "MALLOC")) and n.upper() not in ("PATH", "LANG", "HOME", "TZ"))
    loud = [n for n in words if n.isupper() and len(n) > 2]
    sets = [words, *([n] for n in loud)]

    def source(c):
        names, v = c.pick(sets), c.pick(["1", "0", "", "true", "x"])
        return [], {n: v for n in names}, "plain"

    return [space("source", source, f"the {len(words)} words of the source as names of environment variables, all at once and {len(loud)} of them in capital letters alone, with five values"),
            space("hashing", hashing, f"{len(seeds)} hash seeds, 3 levels of optimisation, 2 ways to call"),
            space("modes", modes, f"{len(OPTIONS)} command lines, {len(ENVS)} environments"),
            space("callers", callers, f"{len(situations)} situations of the caller, {len(OPTIONS[:3] if q else OPTIONS)} command lines, {len(ENVS[:1] if q else ENVS)} environments")]
