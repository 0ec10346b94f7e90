"""C23: conversion has no side effects."""
import atexit
import builtins
import codecs
import contextvars
import decimal
import faulthandler
import gc
import io
import locale
import logging
import os
import random
import resource
import shutil
import signal
import socket
import sys
import sysconfig
import tempfile
import threading
import time
import tracemalloc
import warnings

import fork  # noqa: F401  loads the parser's modules beforehand
import impl
import literals
import present
import stdlib
import xmldoc
from gen import E, FRAMES, OPERANDS, Space, T, X, Y, Z, KIND_FRAMES, doc, mi, mn, mo, mrow, mtext, table, ONE, TWO
from term import esca, xml

RULE = ("every path of each space is one document, converted under monitoring: the interpreter's audit events (files, sockets, processes, ...), what is written to the "
        "standard streams, interpreter-wide settings and the standard library's own attributes, classes and containers before and after, and the text of a canary file the document may refer to")
ASSUMPTIONS = ["effects that bypass the interpreter's audit events are seen only through the file descriptors, the standard streams, the settings and the canary; loading Python modules is not an effect"]

CANARY = "canaryqvzx"
DIR = os.path.join(tempfile.gettempdir(), "verif-c23")
PARENT = os.getpid()


def prepare():
    os.makedirs(DIR, exist_ok=True)
    for n, s in (("text", CANARY), ("dtd", f'<!ENTITY ext "{CANARY}">'), ("xml", f"<mi>{CANARY}</mi>"), ("math.xml", f"<math><mi>{CANARY}</mi></math>")):
        with open(os.path.join(DIR, n), "w") as f:
            f.write(s)
    atexit.register(lambda: os.getpid() == PARENT and shutil.rmtree(DIR, ignore_errors=True))


# --- monitoring ------------------------------------------------------------------------------
WATCHED = ("open", "socket.", "subprocess.", "os.", "shutil.", "urllib.", "http.", "ftplib.", "smtplib.", "poplib.", "imaplib.", "nntplib.", "telnetlib.", "tempfile.", "glob.", "pty.",
           "builtins.input", "builtins.breakpoint", "code.__new__x", "ctypes.dlopen", "fcntl.", "sqlite3.", "signal.", "syslog.", "webbrowser.", "mmap.", "msvcrt.", "resource.",
           "sys.settrace", "sys.setprofile", "sys.addaudithook", "sys.excepthook", "sys.unraisablehook", "sys.set_asyncgen", "threading.", "_thread.start", "gc.", "time.sleep", "pathlib.")
IGNORED = ("os.listdir", "os.scandir", "open", "os.stat")
LIBS = tuple(os.path.realpath(p) + os.sep for p in {sysconfig.get_paths()["stdlib"], sysconfig.get_paths()["platstdlib"], impl.SRC})
on = False
events = []
installed = False
fds = None


class Blocked(PermissionError):
    pass


def loading_module(event, args):
    if event not in IGNORED or not args:
        return False
    p = args[0]
    if not isinstance(p, str):
        return False
    if event in ("os.listdir", "os.scandir"):
        return any((os.path.realpath(p) + os.sep).startswith(b) or os.path.realpath(p) in map(os.path.realpath, sys.path) for b in LIBS)
    return p.endswith((".py", ".pyc", ".so")) and (len(args) < 2 or args[1] in ("r", "rb", None))


def hook(event, args):
    global on
    if on and event.startswith(WATCHED):
        on = False
        try:
            if not loading_module(event, args):
                events.append(f"{event}{tuple(map(str, args))[:3]}")
                raise Blocked(f"blocked by the check: {event}")
        finally:
            on = True


library = None


def warm():
    """What the standard library sets up once, when it is first used."""
    from xml.dom import minidom
    impl.load()
    for d in ['<a/>', '<?xml version="1.0"?><!DOCTYPE a [<!ENTITY e "x"><!ATTLIST a b CDATA "c"><!NOTATION n SYSTEM "s">]><a xmlns:p="q" p:r="&e;"><![CDATA[x]]><?p q?><!-- c -->&e;</a>', "<a", "<a b>", "&", "<a>&x;</a>"]:
        try:
            minidom.parseString(d).toxml()
        except Exception:
            pass


def install():
    global installed, fds, library
    if installed:
        return
    installed = True
    warm()
    library = stdlib.State()
    mem = os.memfd_create("out")
    os.dup2(mem, 1)
    os.dup2(mem, 2)
    fds = mem
    sys.stdout = open(1, "w", buffering=1, closefd=False)
    sys.stderr = open(2, "w", buffering=1, closefd=False)
    sys.addaudithook(hook)


def settings():
    return {
        "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(), "trace function": sys.gettrace(), "profile function": sys.getprofile(),
        "excepthook": sys.excepthook, "displayhook": sys.displayhook, "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)), "path": tuple(sys.path), "argv": tuple(sys.argv),
        "integer digits": sys.get_int_max_str_digits(), "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count()), "environment": dict(os.environ),
        "directory": os.getcwd(), "time zone": time.tzname, "locale": locale.setlocale(locale.LC_ALL, None), "decimal": str(decimal.getcontext()), "warning filters": tuple(map(str, warnings.filters)),
        "showwarning": warnings.showwarning, "signals": tuple(signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGVTALRM, signal.SIGPIPE)),
        "socket timeout": socket.getdefaulttimeout(), "logging": (logging.root.level, len(logging.root.handlers), logging.raiseExceptions, logging.root.manager.disable),
        "random state": hash(random.getstate()), "builtins": tuple((k, id(v)) for k, v in vars(builtins).items() if k != "_"), "threads": threading.active_count(), "import hooks": (len(sys.meta_path), len(sys.path_hooks)),
        "umask": _umask(), "descriptors": tuple(_descriptors()), "timers": signal.getitimer(signal.ITIMER_REAL), "context": sys.get_coroutine_origin_tracking_depth(), "exit handlers": atexit._ncallbacks(),
        "stack size": threading.stack_size(), "signal mask": tuple(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, []))), "all signals": tuple(signal.getsignal(s) for s in ALL_SIGNALS),
        "error handlers": tuple(codecs.lookup_error(n) for n in ("strict", "ignore", "replace", "xmlcharrefreplace", "backslashreplace", "namereplace", "surrogateescape", "surrogatepass")),
        "codecs": tuple(codecs.lookup(n).encode for n in ("utf-8", "ascii", "latin-1", "utf-16")), "collector's callbacks": tuple(map(id, gc.callbacks)), "tracing of memory": tracemalloc.is_tracing(), "faulthandler": faulthandler.is_enabled(),
        "generator hooks": tuple(sys.get_asyncgen_hooks()), "priority": os.getpriority(os.PRIO_PROCESS, 0), "processors": tuple(sorted(os.sched_getaffinity(0))), "limits": tuple(resource.getrlimit(k) for k in LIMITS),
        "users": (os.geteuid(), os.getegid(), os.getsid(0), os.getpgid(0)), "thread hook": (threading.excepthook, sys.unraisablehook, sys.breakpointhook), "current thread": threading.current_thread().name,
        "context variables": len(contextvars.copy_context()), "children": _children(),
        "os functions": tuple(id(f) for f in (os.open, os.remove, io.open, builtins.open, builtins.print, time.time)), "dont_write_bytecode": sys.dont_write_bytecode,
    }


ALL_SIGNALS = [s for s in signal.valid_signals() if s not in (signal.SIGKILL, signal.SIGSTOP)]
LIMITS = [getattr(resource, n) for n in dir(resource) if n.startswith("RLIMIT_") and n != "RLIMIT_CPU"]


def _children():
    try:
        with open("/proc/thread-self/children") as f:
            return f.read()
    except OSError:
        return None


def _umask():
    u = os.umask(0o77)
    os.umask(u)
    return u


def _descriptors():
    r = []
    for fd in range(64):
        try:
            s = os.fstat(fd)
        except OSError:
            continue
        r.append((fd, s.st_dev, s.st_ino))
    return r


def execute(case):
    global on
    install()
    os.ftruncate(fds, 0)
    before = settings()
    events.clear()
    on = True
    try:
        out = impl.convert(case["doc"])
    finally:
        on = False
    sys.stdout.flush()
    sys.stderr.flush()
    after = settings()
    return {"out": out, "events": list(events), "printed": os.fstat(fds).st_size, "changed": [k for k in before if before[k] != after[k]], "library": library.changed()}


def judge(case, r):
    out = r["out"]
    if r["events"]:
        return "it did " + ", ".join(r["events"][:4])
    if r["printed"]:
        return "it wrote to the standard streams: " + os.pread(fds, 200, 0).decode("utf-8", "replace")
    if r["changed"]:
        return "it changed the interpreter's " + ", ".join(r["changed"])
    if r["library"]:
        return "it changed the standard library's " + ", ".join(r["library"][:6])
    if out[0] == "ok" and CANARY in out[1]:
        return f"the text of a file appears in the result {out[1]!r}"
    if out[0] == "hang":
        return "it did not terminate (CPU limit)"
    if out[0] == "err" and CANARY in out[2]:
        return "the text of a file appears in the error"
    return None


def space(name, driver, rule, bound=10**9):
    return Space(name, lambda c: {"doc": driver(c)}, rule, execute=execute, judge=judge, bound=bound)


# --- documents ---------------------------------------------------------------------------------
def urls():
    return [f"file://{DIR}/text", f"{DIR}/text", f"file://{DIR}/dtd", f"{DIR}/dtd", f"{DIR}/xml", f"file://{DIR}/math.xml", f"{DIR}/missing", "text", "../etc/passwd", "http://127.0.0.1:9/x",
            "https://localhost/x.dtd", "ftp://127.0.0.1/x", "http://www.w3.org/Math/DTD/mathml3/mathml3.dtd", "file:///etc/hostname", "/dev/stdin", "data:text/plain;base64,Y2FuYXJ5cXZ6eA==", "expect://id", "jar:file:x!/y", "", "-"]


BODIES = ["<math><mi>&ext;</mi></math>", "<math><mi>x</mi></math>", "<math>&ext;</math>", "<p>&ext;<math><mi>y</mi></math></p>", "<math><mtext>a &ext; b</mtext></math>", "<math><mi>x</math>",
          "<math><mi disabled>&ext;</mi></math>", "<math><mi>&undefined;</mi></math>", '<math><mi alt="&ext;">x</mi></math>', "<math><msup><mi>&ext;</mi></msup></math>", ""]


def entities():
    us = urls()

    def driver(c):
        u = c.pick(us)
        w = c.choose(13)
        b = c.pick(BODIES)
        pub = c.pick(["SYSTEM", 'PUBLIC "-//W3C//DTD MathML 2.0//EN"'])
        head = c.pick(["", '<?xml version="1.0"?>', '<?xml version="1.0" standalone="no"?>', '<?xml version="1.0" standalone="yes"?>'])
        dt = [f'<!DOCTYPE math [<!ENTITY ext {pub} "{u}">]>', f'<!DOCTYPE math {pub} "{u}">', f'<!DOCTYPE math {pub} "{u}" [<!ENTITY ext "z">]>',
              f'<!DOCTYPE math [<!ENTITY % p {pub} "{u}"> %p;]>', f'<!DOCTYPE math [<!ENTITY % p {pub} "{u}"> %p; <!ENTITY ext "z">]>', f'<!DOCTYPE math [<!ENTITY ext {pub} "{u}" NDATA gif>]>',
              f'<!DOCTYPE math [<!NOTATION gif {pub} "{u}"> <!ENTITY e2 {pub} "{u}" NDATA gif> <!ENTITY ext "z">]>', f'<!DOCTYPE math [<!ENTITY in {pub} "{u}"><!ENTITY ext "&in;">]>',
              f'<?xml-stylesheet href="{u}" type="text/xsl"?>', f'<!DOCTYPE math [<!ENTITY % a {pub} "{u}"> <!ENTITY % b "<!ENTITY ext {pub} \'{u}\'>"> %a; %b;]>',
              f'<!DOCTYPE math [<!ATTLIST mi href CDATA "{u}"> <!ELEMENT math ANY>]>', f'<!DOCTYPE p {pub} "{u}" [<!ENTITY ext {pub} "{u}">]>', f'<!DOCTYPE math [<!ENTITY ext {pub} "{u}">'][w]
        return head + dt + b
    return space("entities", driver, f"{len(us)} addresses in 13 kinds of declarations before {len(BODIES)} bodies with 4 declarations of the version")


def references():
    us = urls()
    names = ["href", "xlink:href", "src", "altimg", "definitionURL", "xml:base", "xsi:schemaLocation", "encoding", "cd", "xref", "filename", "include", "onload", "style", "xmlns", "xmlns:xi", "xmlns:mml"]
    els = ["math", "mi", "mglyph", "xi:include", "annotation", "semantics", "script", "maction", "mtext", "mfenced", "include", "img", "msup"]

    def driver(c):
        u, n, e = c.pick(us), c.pick(names), c.pick(els)
        w = c.choose(3)
        v = u if n != "xmlns:xi" else "http://www.w3.org/2001/XInclude"
        x = ' xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:xsi="s" xmlns:xi="http://www.w3.org/2001/XInclude"'
        x = x if ":" in n or ":" in e else ""
        if n.startswith("xmlns:"):
            x = ' xmlns:xi="http://www.w3.org/2001/XInclude"' if "mml" in n else ""
        at = f'{n}="{v}"'
        if w == 1:
            at += ' parse="text"' + f' a={u}'
        body = f"<{e} {at}>{u if w == 2 else 'x'}</{e}>"
        return f"<p{x}>{body}</p>" if e == "math" else f"<math{x}>{body}<mi>y</mi></math>"
    return space("references", driver, f"{len(us)} addresses in {len(names)} attributes of {len(els)} elements")


def formulas():
    def driver(c):
        o = c.pick(OPERANDS)
        f = c.choose(len(FRAMES) + 1)
        return doc(FRAMES[f - 1](o) if f else o)
    return space("formulas", driver, f"every operand in {len(FRAMES)} slots")


def faults():
    import checks.c18 as c18
    docs = c18.DOCS[:6] if len(sys.argv) < 3 or sys.argv[2] == "quick" else c18.DOCS

    def driver(c):
        d = c.pick(docs)
        i = c.choose(len(d) + 1)
        w = c.choose(3)
        if w == 0:
            return d[:i]
        s = c.pick(c18.SNIPPETS if w == 1 else c18.ALPHABET)
        return d[:i] + s + d[i if w == 1 else i + 1:]
    return space("faults", driver, f"every truncation, insertion of markup and replaced character of {len(docs)} documents")


def tokens():
    """Every token kind with texts of many scripts, control characters and lengths."""
    import ref
    texts = sorted({t for k in ref.SYMBOLS.values() for t in k})
    more = ["", " ", "__import__('os')", "%s%n", "{0.__class__}", "\\input{x}", "\\write18{id}", "$(id)", "`id`", "; rm x", "../x", "\x7f", "\u202e", "\ufeff", "\U0010ffff", "x" * 5000, "1" * 5000, "1e999999999"]

    def driver(c):
        el = c.pick(["mi", "mo", "mn", "mtext", "ms"])
        s = c.pick(texts + more)
        v = c.pick([None, "bold", "unknown-variant"]) if el in ("mi", "mtext") else None
        return doc(T(el, s, **({"mathvariant": v} if v else {})))
    return space("tokens", driver, f"{len(texts)} dictionary symbols and {len(more)} other texts in every token")


def settings_values():
    """Attributes with values that look like commands, numbers, names."""
    vals = ["", "0", "-1", "1e9", "true", "false", "None", "toggle", "../../x", "/etc/passwd", "$HOME", "%d", "{}", "a b", "é", "x" * 3000, "9" * 5000]
    names = ["mathvariant", "open", "close", "separators", "notation", "actiontype", "bevelled", "display", "selection", "columnalign", "id", "class"]

    def driver(c):
        n, v = c.pick(names), c.pick(vals)
        k = c.choose(len(KIND_FRAMES))
        t = KIND_FRAMES[k](X)
        return doc((t[0], tuple([(n, v)] + [a for a in t[1] if a[0] != n]), t[2], t[3]), mi("x", **{n: v}), mtext("a", **{n: v}))
    return space("attributes", driver, f"{len(names)} attributes with {len(vals)} values on every kind of element")


def presentation(kinds):
    """Presentation attributes with real values, and attributes, values, texts and names the source mentions, on every kind of element."""
    def driver(c):
        f = c.pick(kinds)
        t = f(X)
        n, at, x, kids = t
        w = c.choose(4)
        a = [lambda: c.pick(present.PAIRS), lambda: (c.pick(literals.words()), c.pick(["x", "true", ""])), lambda: (c.pick(["id", "class", "mathvariant", "encoding", "lang"]), c.pick(literals.texts())),
             lambda: None][w]()
        if a is None:
            k = c.pick(["mi", "mo", "mn", "mtext"])
            return doc(f(T(k, c.pick(literals.texts()))))
        u = (n, tuple(b for b in at if b[0] != a[0]) + (a,), x, kids)
        y = ("mtext", (a,), "q", ())
        d = doc(u, y)
        return d if not c.flag() else d.replace("<math>", "<math %s=\"%s\">" % (a[0], esca(a[1])), 1)
    return space("presentation", driver, f"each of {len(present.PAIRS)} presentation attributes, and attributes, values and texts the source mentions, on {len(kinds)} kinds of elements")


def names():
    """Elements of every name the source mentions, and of other vocabularies, with text, children, attributes."""
    other = ["script", "style", "svg", "img", "iframe", "object", "embed", "link", "base", "meta", "form", "input", "xi:include", "include", "annotation", "annotation-xml", "mglyph", "maction", "ms",
             "apply", "csymbol", "declare", "share", "semantics", "cerror", "cbytes", "import", "exec", "eval", "macros", "math", "Math", "html", "body"]

    def driver(c):
        n = c.pick(literals.words() + other)
        d = [f"<{n}>x</{n}>", f"<{n}/>", f"<{n}><mi>x</mi><mi>y</mi></{n}>", f'<{n} src="{DIR}/text" href="{DIR}/text" encoding="application/x-tex">{DIR}/text</{n}>'][c.choose(4)]
        x = ' xmlns:xi="http://www.w3.org/2001/XInclude"' if ":" in n else ""
        return [f"<math{x}>{d}</math>", f"<p{x}>{d}<math>{d}</math></p>", f"<math{x}><mi>x</mi>{d}"][c.choose(3)]
    return space("names", driver, "elements of every name the source mentions and of other vocabularies, alone, around and broken off")


def sizes():
    """Texts, rows and documents of many sizes."""
    ns = sorted({1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 3000, 4096, 5000, 8193, 10000,
                 20000, 40000, 65536, 65537, 70000} | {k for k in literals.sizes() if k})

    def driver(c):
        n = c.pick(ns)
        w = c.choose(8)
        if w in (3, 4, 5, 7) and n > 3000:
            n = 3000
        return ["<math><mi>" + "x" * n + "</mi></math>", "<math><mtext>" + "a α" * n + "</mtext></math>", f'<math><mi id="{"y" * n}">x</mi></math>', "<math>" + "<mi>x</mi>" * n + "</math>",
                "<p>" + "<math><mi>x</mi></math>" * n + "</p>", "<math>" + "<mi a>x</mi>" * min(n, 300) + "</math>", "<math><mi>" + "x" * n, "<math>" + "<mfrac><mi>x</mi></mfrac>" * n + "</math>"][w]
    return space("sizes", driver, f"texts, attributes, rows, formulas and damage of {len(ns)} sizes up to {ns[-1]}")


def deep():
    def driver(c):
        f = c.pick(KIND_FRAMES)
        n = c.pick([50, 200, 600, 1500])
        x = xml(f(X))
        inner = xml(X)
        i = x.index(inner)
        return "<math>" + x[:i] * n + inner + x[i + len(inner):] * n + "</math>"
    return space("deep", driver, "every kind of element nested 50 to 1500 levels deep (beyond what can be converted)")


def spaces(tier):
    prepare()
    return [entities(), references(), formulas(), faults(), tokens(), settings_values(), deep(), presentation(KIND_FRAMES), names(), sizes()]
