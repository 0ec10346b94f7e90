"""A space: a driver, an oracle, and how a case is executed on the implementation."""
import impl


def describe(out):
    if out[0] == "ok":
        return f"returned {out[1]!r}"
    if out[0] == "err":
        return f"raised {out[1]}: {out[2]}"
    if out[0] == "hang":
        return "did not terminate (CPU limit)"
    return f"returned {out[1]}"


def agree(expected, out):
    """None if the outcome is the expected one, else what is wrong."""
    kind = expected[0]
    if kind == "ok":
        if out != expected:
            return f"{describe(out)}, expected {expected[1]!r}"
        return None
    if kind == "arity":
        _, name, need, got = expected
        if out[0] != "err" or out[1] != "InvalidNumberOfChildrenError":
            return f"{describe(out)}, expected InvalidNumberOfChildrenError"
        return None
    if kind == "xmlerror":
        if out[0] != "err" or out[1] != "ExpatError":
            return f"{describe(out)}, expected the XML parser's error (ExpatError)"
        return None
    raise AssertionError(kind)


class Space:
    """case = {"doc": str, "expect": outcome, ...}; subclasses or keyword functions change
    execute(case) -> outcome and judge(case, outcome) -> None | message."""

    def __init__(self, name, driver, rule, bound=10**9, execute=None, judge=None, nontrivial=None,
                 key=None, serial=False, split=512):
        self.name, self.driver, self.rule, self.bound = name, driver, rule, bound
        self.serial, self.split = serial, split
        self.execute = execute or (lambda case: impl.convert(case["doc"]))
        self.judge = judge or (lambda case, out: agree(case["expect"], out))
        self.key = key or (lambda case: case["doc"])
        self.nontrivial = nontrivial or (lambda case: True)


def case(doc, expect, **more):
    more.update(doc=doc, expect=expect)
    return more
