"""Running something in a fresh copy of this process (fork), with its result sent back."""
import os
import pickle
import select
import signal
import time

import xml.dom.expatbuilder  # noqa: F401  what the library's parser loads at its first use
import xml.dom.minidom  # noqa: F401
import xml.parsers.expat  # noqa: F401

import impl

WALL = 120.0


class Died(Exception):
    pass


def run(f):
    """f() in a forked child; its result, or raises what it raised."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = (True, f())
            except BaseException as e:  # noqa: B902
                res = (False, e)
            data = pickle.dumps(res)
            while data:
                data = data[os.write(w, data):]
            os.close(w)
        finally:
            os._exit(0)
    os.close(w)
    buf, end = [], time.monotonic() + WALL
    while True:
        left = end - time.monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            os.close(r)
            os.waitpid(pid, 0)
            return ("hang",)
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf.append(b)
    os.close(r)
    status = os.waitpid(pid, 0)[1]
    if not buf:
        raise Died(f"the process died without a result (status {status})")
    ok, res = pickle.loads(b"".join(buf))
    if not ok:
        raise res
    return res


def preload(docs):
    """Compiles here the regular expressions that conversions of docs compile (found out in
    a child): only the standard library's cache is warmed, the library under test stays as loaded."""
    import re

    def child():
        seen = []
        orig = re._compile

        def spy(p, f):
            if type(p) is str:
                seen.append((p, int(f)))
            return orig(p, f)
        re._compile = spy
        for d in docs:
            impl.outcome_of(lambda: impl.load().convert(d))
        return seen
    if hasattr(re, "_compile"):
        for p, f in run(child):
            re.compile(p, f)


def plain(out):
    """Outcomes compared across call depths: the text of a RecursionError depends on where it hit."""
    return ("err", "RecursionError") if out[:2] == ("err", "RecursionError") else out


_alone = {}


def alone(doc):
    """The outcome of one conversion in a fresh process (memoised)."""
    if doc not in _alone:
        _alone[doc] = plain(run(lambda: impl.convert(doc)))
    return _alone[doc]
