"""envrun.py SRC DOCS SITUATION: converts every document of a file (JSON list) in the situation and writes the outcomes (JSON) to the
descriptor the standard output had at the start.  Started by C25 in many environments; uses nothing but the standard library."""
import os
import sys

OUT = os.dup(1)


def loader(src):
    sys.path.insert(0, src)

    def load():
        from mathml_to_latex.converter import MathMLToLaTeX
        return MathMLToLaTeX
    return load


def outcome(f, d):
    try:
        r = f(d)
    except Exception as e:
        return ["err", type(e).__name__, "" if isinstance(e, RecursionError) else str(e)]
    return ["ok", str(r)] if isinstance(r, str) else ["bad", type(r).__name__]


class Text(str):
    """A string like any other."""


def plain(load, docs):
    f = load().convert
    return [outcome(f, d) for d in docs]


def in_thread(size=0):
    def run(load, docs):
        import threading
        res = []
        threading.stack_size(size)
        t = threading.Thread(target=lambda: res.extend(plain(load, docs)), name="\u03b1", daemon=True)
        t.start()
        t.join()
        return res
    return run


def main_imports_thread_converts(load, docs):
    load()
    return in_thread()(load, docs)


def pool(load, docs):
    from concurrent.futures import ThreadPoolExecutor
    f = load().convert
    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(lambda d: outcome(f, d), docs))


def in_coroutine(load, docs):
    import asyncio

    async def one(f, d):
        await asyncio.sleep(0)
        return outcome(f, d)

    async def every():
        f = load().convert
        return [await one(f, d) for d in docs]
    return asyncio.run(every(), debug=True)


def tasks(load, docs):
    import asyncio

    async def every():
        f = load().convert

        async def one(d):
            await asyncio.sleep(0)
            return outcome(f, d)
        return list(await asyncio.gather(*map(one, docs)))
    return asyncio.run(every())


def in_generator(load, docs):
    f = load().convert
    return list(outcome(f, d) for d in iter(docs))


def in_handler(load, docs):
    f, res = load().convert, []
    for d in docs:
        try:
            try:
                raise KeyError("outer")
            except KeyError:
                raise ValueError("inner")
        except ValueError:
            res.append(outcome(f, d))
    return res


def in_finally(load, docs):
    f, res = load().convert, []
    for d in docs:
        try:
            try:
                1 / 0
            finally:
                res.append(outcome(f, d))
        except ZeroDivisionError:
            pass
    return res


def in_signal(load, docs):
    import signal
    f, res, todo = load().convert, [], list(docs)
    signal.signal(signal.SIGUSR1, lambda *a: res.append(outcome(f, todo[len(res)])))
    for _ in docs:
        n = len(res)
        os.kill(os.getpid(), signal.SIGUSR1)
        while len(res) == n:
            pass
    return res


def in_fork(load, docs):
    f = load().convert
    outcome(f, docs[0])
    return forked(lambda: plain(load, docs))


def forked(f):
    import json
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            data = json.dumps(f()).encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    with open(r, "rb") as g:
        res = json.loads(g.read())
    os.waitpid(pid, 0)
    return res


def in_del(load, docs):
    f, res = load().convert, []

    class Last:
        def __init__(self, d):
            self.d = d

        def __del__(self):
            res.append(outcome(f, self.d))
    for d in docs:
        Last(d)
    return res


def in_property(load, docs):
    f = load().convert

    class Page:
        def __init__(self, d):
            self.d = d

        @property
        def latex(self):
            return outcome(f, self.d)

        def __str__(self):
            return self.latex[-1]
    return [Page(d).latex for d in docs]


def in_map_filter(load, docs):
    import functools
    f = load()
    return list(map(functools.partial(outcome, f.convert), docs))


def in_sort_key(load, docs):
    f, res = load().convert, []
    sorted(docs, key=lambda d: res.append(outcome(f, d)) or 0)
    return res


def at_depth(n):
    def run(load, docs):
        f = load().convert

        def down(k, d):
            return down(k - 1, d) if k else outcome(f, d)
        sys.setrecursionlimit(2 * n + 3000)
        return [down(n, d) for d in docs]
    return run


def recursion(n):
    def run(load, docs):
        sys.setrecursionlimit(n)
        return plain(load, docs)
    return run


def instances(load, docs):
    C = load()
    return [outcome(C().convert, d) for d in docs]


def one_instance(load, docs):
    c = load()()
    return [outcome(c.convert, d) for d in docs]


def subclass(load, docs):
    class Mine(load()):
        pass
    return [outcome(Mine().convert if i % 2 else Mine.convert, d) for i, d in enumerate(docs)]


def keyword(load, docs):
    import inspect
    f = load().convert
    name = next(iter(inspect.signature(f).parameters))
    return [outcome(lambda d: f(**{name: d}), d) for d in docs]


def str_subclass(load, docs):
    f = load().convert
    return [outcome(f, Text(d)) for d in docs]


def fresh_strings(load, docs):
    f = load().convert
    return [outcome(f, "".join([d[:len(d) // 2], d[len(d) // 2:]])) for d in docs]


def interned(load, docs):
    f = load().convert
    return [outcome(f, sys.intern(d)) for d in docs]


def backwards(load, docs):
    f = load().convert
    return [outcome(f, d) for d in docs[::-1]][::-1]


def no_gc(load, docs):
    import gc
    gc.disable()
    return plain(load, docs)


def much_gc(load, docs):
    import gc
    load()
    gc.freeze()
    gc.set_threshold(1, 1, 1)
    return plain(load, docs)


def traced(load, docs):
    def trace(frame, event, arg):
        return trace
    f = load().convert
    sys.settrace(trace)
    try:
        return [outcome(f, d) for d in docs]
    finally:
        sys.settrace(None)


def profiled(load, docs):
    f = load().convert
    sys.setprofile(lambda *a: None)
    try:
        return [outcome(f, d) for d in docs]
    finally:
        sys.setprofile(None)


def traced_memory(load, docs):
    import tracemalloc
    tracemalloc.start(3)
    return plain(load, docs)


def audited(load, docs):
    sys.addaudithook(lambda e, a: None)
    return plain(load, docs)


def no_streams(load, docs):
    sys.stdout = sys.stderr = sys.stdin = None
    return plain(load, docs)


def closed_streams(load, docs):
    for s in (sys.stdout, sys.stderr, sys.stdin):
        s.close()
    for fd in (0, 1, 2):
        try:
            os.close(fd)
        except OSError:
            pass
    return plain(load, docs)


def captured(load, docs):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return plain(load, docs)


def ascii_streams(load, docs):
    import io
    sys.stdout = io.TextIOWrapper(io.BytesIO(), encoding="ascii", errors="strict")
    sys.stderr = io.TextIOWrapper(io.BytesIO(), encoding="ascii", errors="strict")
    return plain(load, docs)


def warnings_errors(load, docs):
    import warnings
    load()
    warnings.simplefilter("error")
    return plain(load, docs)


def warnings_recorded(load, docs):
    import warnings
    with warnings.catch_warnings(record=True):
        warnings.simplefilter("always")
        return plain(load, docs)


def logging_on(load, docs):
    import io
    import logging
    logging.basicConfig(stream=io.StringIO(), level=1)
    logging.raiseExceptions = True
    return plain(load, docs)


def locales(name):
    def run(load, docs):
        import locale
        try:
            locale.setlocale(locale.LC_ALL, name)
        except locale.Error:
            pass
        return plain(load, docs)
    return run


def decimals(load, docs):
    import decimal
    c = decimal.getcontext()
    c.prec = 1
    c.traps[decimal.Inexact] = True
    return plain(load, docs)


def digits(load, docs):
    sys.set_int_max_str_digits(640)
    return plain(load, docs)


def seeded(load, docs):
    import random
    random.seed(7)
    return plain(load, docs)


def clock(load, docs):
    import time
    load()
    time.time = time.monotonic = time.perf_counter = lambda: 0.0
    return plain(load, docs)


def years(load, docs):
    import time
    load()
    time.time = lambda: 4e9
    return plain(load, docs)


def regex_cache(load, docs):
    import re
    f, res = load().convert, []
    for d in docs:
        re.purge()
        res.append(outcome(f, d))
    return res


def elsewhere(load, docs):
    os.chdir("/")
    return plain(load, docs)


def switching(load, docs):
    import threading
    sys.setswitchinterval(1e-6)
    stop = []

    def spin():
        while not stop:
            pass
    t = threading.Thread(target=spin, daemon=True)
    t.start()
    try:
        return plain(load, docs)
    finally:
        stop.append(1)
        t.join()


def other_modules(load, docs):
    import xml.sax
    import xml.etree.ElementTree as ET
    import html.parser
    import json
    import unicodedata  # noqa: F401
    import xml.dom.pulldom  # noqa: F401
    ET.fromstring("<a/>")
    ET.register_namespace("mml", "http://www.w3.org/1998/Math/MathML")
    xml.sax.make_parser()
    html.parser.HTMLParser()
    json.loads("[]")
    return plain(load, docs)


def imported_otherwise(load, docs):
    import importlib
    import mathml_to_latex
    C = getattr(mathml_to_latex, "MathMLToLaTeX", None) or importlib.import_module("mathml_to_latex.converter").MathMLToLaTeX
    return [outcome(C.convert, d) for d in docs]


def imported_twice(load, docs):
    load()
    for n in [n for n in sys.modules if n.startswith("mathml_to_latex")]:
        del sys.modules[n]
    return plain(load, docs)


def name_not_main(load, docs):
    sys.modules["__main__"].__dict__.pop("__file__", None)
    sys.argv[:] = []
    return plain(load, docs)


def no_environment(load, docs):
    os.environ.clear()
    return plain(load, docs)


def umask_nice(load, docs):
    os.umask(0)
    os.nice(5)
    return plain(load, docs)


def with_exceptions_kept(load, docs):
    """Errors, with their tracebacks and frames, of earlier conversions kept alive."""
    f, res, kept = load().convert, [], []
    for d in docs:
        try:
            f(d)
        except Exception as e:
            kept.append(e)
        res.append(outcome(f, d))
    return res


def in_exec(load, docs):
    f, res = load().convert, []
    space = {"f": f, "outcome": outcome, "res": res, "docs": docs}
    exec("for d in docs: res.append(outcome(f, d))", space)
    return res


def in_context(load, docs):
    import contextvars
    f = load().convert
    return [contextvars.copy_context().run(outcome, f, d) for d in docs]


def in_exit(load, docs):
    import atexit
    f = load().convert
    res = []

    def last():
        res.extend(outcome(f, d) for d in docs)
        finish(res)
    atexit.register(last)
    return None


def called(*argv, orig=True):
    """As a program of another name."""
    def run(load, docs):
        sys.argv[:] = argv
        if orig:
            sys.orig_argv = ["python", *argv]
        return plain(load, docs)
    return run


def set_in(module, name, value, first=True):
    """With another value of something programs look at to find out where they are."""
    def run(load, docs):
        import importlib
        if first:
            load().convert("<math><mi>x</mi></math>")
        setattr(importlib.import_module(module), name, value)
        return plain(load, docs)
    return run


def loaded(*names):
    """With (empty) modules of these names loaded."""
    def run(load, docs):
        import types
        for n in names:
            sys.modules.setdefault(n, types.ModuleType(n))
        return plain(load, docs)
    return run


def translated(load, docs):
    import gettext
    gettext.install("x")
    return plain(load, docs)


def main_named(load, docs):
    m = sys.modules["__main__"]
    m.__spec__, m.__package__, m.__file__ = None, "pytest", "/usr/bin/pytest"
    return plain(load, docs)


def in_class_body(load, docs):
    f = load().convert

    class Body:
        res = []
        for d in docs:
            res.append(outcome(f, d))
    return Body.res


def via_getattr(load, docs):
    C = load()
    return [outcome(getattr(C, "convert"), d) for d in docs]


def nested_calls(load, docs):
    """From functions whose names programs look for on the stack."""
    f = load().convert
    space = {"f": f, "outcome": outcome}
    res = []
    names = ["test_x", "setUp", "main", "render", "convert", "convert_element", "__init__", "__str__", "__repr__", "debug", "lambda_handler"]
    exec("".join(f"def {n}(d):\n    return outcome(f, d)\n" for n in names), space)
    for i, d in enumerate(docs):
        res.append(space[names[i % len(names)]](d))
    return res


def objects_alive(load, docs):
    kept = [[] for _ in range(300000)]
    return plain(load, docs) if kept else []


def little_memory(load, docs):
    import resource
    load()
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    return plain(load, docs)


def few_files(load, docs):
    import resource
    load()
    f = load().convert
    outcome(f, docs[0])
    resource.setrlimit(resource.RLIMIT_NOFILE, (3, resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
    return [outcome(f, d) for d in docs]


SITUATIONS = {
    "plain": plain, "in a thread": in_thread(), "in a thread with a large stack": in_thread(64 << 20), "in a thread after the import": main_imports_thread_converts, "in a pool of threads": pool, "in a coroutine": in_coroutine,
    "in tasks": tasks, "in a generator": in_generator, "in an exception handler": in_handler, "in a finally clause": in_finally, "in a signal handler": in_signal, "in a forked child": in_fork, "in a finaliser": in_del,
    "in a property": in_property, "in a map": in_map_filter, "in a sort key": in_sort_key, "500 frames deep": at_depth(500), "5000 frames deep": at_depth(5000), "with a recursion limit of 1500": recursion(1500),
    "with a recursion limit of 100000": recursion(100000), "with fresh instances": instances, "with one instance": one_instance, "with a subclass": subclass,
    "with a keyword argument": keyword, "with instances of a subclass of str": str_subclass, "with fresh strings": fresh_strings, "with interned strings": interned, "in reverse order": backwards, "without garbage collection": no_gc,
    "with constant garbage collection": much_gc, "under a trace function": traced, "under a profile function": profiled, "with memory tracing": traced_memory, "under an audit hook": audited, "without streams": no_streams,
    "with closed streams": closed_streams, "with captured streams": captured, "with ASCII streams": ascii_streams, "with warnings as errors": warnings_errors, "with recorded warnings": warnings_recorded, "with logging": logging_on,
    "in the locale C.UTF-8": locales("C.UTF-8"), "in the locale C": locales("C"), "in the user's locale": locales(""), "with decimals of one digit": decimals, "with short integers": digits, "with seeded random numbers": seeded,
    "with a stopped clock": clock, "in a far year": years, "without the cache of regular expressions": regex_cache, "in another directory": elsewhere, "with constant thread switches": switching, "with other XML modules loaded": other_modules,
    "imported through the package": imported_otherwise, "imported twice": imported_twice, "without a main file": name_not_main, "with an emptied environment": no_environment, "with another umask": umask_nice,
    "with earlier errors kept": with_exceptions_kept, "in executed code": in_exec, "in a copied context": in_context, "at exit": in_exit,
    "as a program called pytest": called("/usr/bin/pytest", "-q"), "as a program called python": called("python"), "as a program given to -c": called("-c"), "as a module": called("-m"), "as a program without a name": called(""), "as setup.py": called("setup.py", "install"),
    "as a program with options": called("x.py", "--debug", "--verbose", "--inline", "-v", "--strict"), "as a program called ipython": called("ipython", orig=False), "at a prompt": set_in("sys", "ps1", ">>> "), "frozen": set_in("sys", "frozen", True),
    "on Windows": set_in("sys", "platform", "win32"), "on a Mac": set_in("sys", "platform", "darwin"), "on the web": set_in("sys", "platform", "emscripten"), "on nt": set_in("os", "name", "nt"), "on an old Python": set_in("sys", "version_info", (3, 8, 0, "final", 0)),
    "on a new Python": set_in("sys", "version_info", (4, 0, 0, "final", 0)), "on a big-endian machine": set_in("sys", "byteorder", "big"), "on another implementation": set_in("sys", "version", "3.10 [PyPy 7.3]"), "with other line ends": set_in("os", "linesep", "\r\n"),
    "with IPython": set_in("builtins", "__IPYTHON__", True, False), "without __debug__ of modules": set_in("sys", "dont_write_bytecode", False), "with other modules": loaded("pytest", "_pytest", "IPython", "numpy", "pandas", "sympy", "lxml", "lxml.etree", "bs4", "html5lib", "regex", "matplotlib", "sphinx", "docutils", "django", "flask", "pydevd", "coverage"),
    "with translations": translated, "with another main module": main_named, "in a class body": in_class_body, "by getattr": via_getattr, "from functions of many names": nested_calls, "with many objects": objects_alive, "with little memory": little_memory, "with no more files": few_files,
}


def finish(res):
    import json
    data = json.dumps(res).encode()
    while data:
        data = data[os.write(OUT, data):]
    os.close(OUT)


def main():
    src, docs, situation = sys.argv[1:4]
    with open(docs, encoding="utf-8") as f:
        import json
        docs = json.load(f)
    import xml.dom.expatbuilder  # noqa: F401  the parser's modules, which it loads at its first use
    res = SITUATIONS[situation](loader(src), docs)
    if res is not None:
        finish(res)


if __name__ == "__main__":
    main()
