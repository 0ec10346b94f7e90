"""Stateless exhaustive exploration of choice trees.

A driver is a function of a Chooser.  Every c.pick(...) is a choice point; the
explorer runs the driver once for every path of the resulting tree, depth first,
always choosing the first option first.  A pick may have a deviation cost: taking
any option but the first adds it to the path's cost, and paths dearer than the
space's bound are not taken.
"""


class Divergence(Exception):
    """A replayed prefix met other choice points than before: the driver is not deterministic."""


class Probe(Exception):
    def __init__(self, n):
        self.n = n


class Skip(Exception):
    """Raised by a driver for a path outside its space (a duplicate spelling of another path)."""


class Chooser:
    __slots__ = ("prefix", "bound", "trace", "spent", "probe", "expect")

    def __init__(self, prefix=(), bound=10**9, probe=False, expect=None):
        self.prefix, self.bound, self.probe = prefix, bound, probe
        self.trace = []  # (index taken, number of options allowed)
        self.spent = 0
        self.expect = expect  # options seen on the prefix by the previous run

    def choose(self, n, cost=0):
        """Index in range(n); the options past the first cost `cost` each time."""
        if n <= 0:
            raise Skip()
        i = len(self.trace)
        allowed = n if not cost or self.spent + cost <= self.bound else 1
        if i < len(self.prefix):
            k = self.prefix[i]
            if k >= allowed or (self.expect is not None and self.expect[i] != allowed):
                raise Divergence(f"choice {i}: option {k} of {allowed}, expected of "
                                 f"{self.expect[i] if self.expect else '?'}")
        elif self.probe:
            raise Probe(allowed)
        else:
            k = 0
        self.trace.append((k, allowed))
        if k and cost:
            self.spent += cost
        return k

    def pick(self, options, cost=0):
        return options[self.choose(len(options), cost)]

    def flag(self, cost=0):
        return self.choose(2, cost) == 1


def split(driver, bound, target):
    """Choice prefixes that partition the tree, at least `target` of them if it has as many paths."""
    done, open_, nodes = [], [()], 0
    while open_ and len(done) + len(open_) < target:
        nxt = []
        for p in open_:
            try:
                driver(Chooser(p, bound, probe=True))
            except Probe as e:
                nodes += 1
                nxt += [p + (k,) for k in range(e.n)]
            except Skip:
                done.append(p)
            else:
                done.append(p)
        open_ = nxt
    return done + open_, nodes


def explore(driver, prefix, bound, visit, stats):
    """Runs driver on every path below prefix; visit(case, path) for each completed one."""
    path, expect, common = list(prefix), None, len(prefix)
    while True:
        c = Chooser(path, bound, expect=expect)
        try:
            case = driver(c)
        except Skip:
            case = None
            stats["skipped"] += 1
        t = c.trace
        if len(t) < len(path):
            raise Divergence(f"path {path} ended after {len(t)} choices")
        stats["states"] += len(t) - common + 1
        stats["transitions"] += len(t) - common + (1 if common > len(prefix) else 0)
        if case is not None:
            stats["executions"] += 1
            if visit(case, [k for k, _ in t]) is False:
                return False
        i = len(t) - 1
        while i >= len(prefix) and t[i][0] + 1 >= t[i][1]:
            i -= 1
        if i < len(prefix):
            return True
        path = [k for k, _ in t[:i]] + [t[i][0] + 1]
        expect = [n for _, n in t[:i + 1]]
        common = i + 1
