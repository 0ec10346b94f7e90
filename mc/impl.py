"""The implementation under test, loaded from /repo's working tree, behind its public entry point."""
import os
import signal
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CPU_LIMIT = 20.0  # seconds of CPU for one conversion; the largest here take well under one

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"  # never read a stale .pyc either


class Hang(BaseException):
    pass


_cls = None


def load():
    global _cls
    if _cls is None:
        if SRC not in sys.path:
            sys.path.insert(0, SRC)
        from mathml_to_latex.converter import MathMLToLaTeX
        import mathml_to_latex
        if not os.path.realpath(mathml_to_latex.__file__).startswith(os.path.realpath(SRC) + os.sep):
            raise SystemExit(f"mathml_to_latex comes from {mathml_to_latex.__file__}, not {SRC}")
        _cls = MathMLToLaTeX
    return _cls


def _on_timer(signum, frame):
    raise Hang()


def guard():
    """Once per worker process: CPU limit per conversion, memory limit."""
    import resource
    signal.signal(signal.SIGVTALRM, _on_timer)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def outcome_of(call):
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        r = call()
        out = ("ok", r) if type(r) is str else ("bad", repr(type(r)))
    except Hang:
        out = ("hang",)
    except Exception as e:
        out = ("err", type(e).__name__, str(e))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return out


def convert(doc):
    return outcome_of(lambda: _cls.convert(doc))
