#!/usr/bin/env python3
"""mutate.py OUT.jsonl [-s N/M] [file...]: changes the library systematically in one place each (an operator, a constant, a condition, a
statement, a character of a regular expression), keeps the changes with which the tests pass, runs the checks on each until one
reports a violation, and writes what became of it to OUT (appended; what is there already is not done again).

The changes that no check reports are either without effect on behaviour or gaps in the checks."""
import ast
import concurrent.futures
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/mathml_to_latex/"
FILES = ["converter.py", "xml_to_mathml/adapter.py", "xml_to_mathml/services/error_handler.py", "xml_to_mathml/services/xml_elements_to_mathml_element.py", "el_to_tex/adapter.py", "el_to_tex/usecases.py",
         "el_to_tex/services/wrapper.py", "el_to_tex/services/normalizer.py"]
STRIP = {"strip", "lower", "upper", "lstrip", "rstrip"}


class Mutator(ast.NodeTransformer):
    """Applies mutation number n (counting those there are)."""

    def __init__(self, n):
        self.n, self.k, self.what, self.line = n, -1, None, 0

    def hit(self, node, what):
        self.k += 1
        if self.k == self.n:
            self.what, self.line = what, getattr(node, "lineno", 0)
            return True
        return False

    def visit_Compare(self, node):
        self.generic_visit(node)
        other = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
        for o in other.get(type(node.ops[0]), []):
            if self.hit(node, f"{type(node.ops[0]).__name__}->{o.__name__}"):
                node = copy.deepcopy(node)
                node.ops[0] = o()
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if self.hit(node, "and<->or"):
            node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        for i in range(len(node.values)):
            if self.hit(node, f"drop operand {i}"):
                rest = node.values[:i] + node.values[i + 1:]
                return rest[0] if len(rest) == 1 else ast.BoolOp(node.op, rest)
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        if self.hit(node, "if True"):
            node.test = ast.Constant(True)
        if self.hit(node, "if False"):
            node.test = ast.Constant(False)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        if self.hit(node, "?True"):
            return node.body
        if self.hit(node, "?False"):
            return node.orelse
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not) and self.hit(node, "drop not"):
            return node.operand
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        o = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mod: ast.FloorDiv}.get(type(node.op))
        if o and self.hit(node, "arith"):
            node.op = o()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr in STRIP and not node.args and self.hit(node, "drop ." + node.func.attr):
            return node.func.value
        if isinstance(node.func, ast.Attribute) and node.func.attr == "strip" and not node.args:
            for a in ("lstrip", "rstrip"):
                if self.hit(node, "strip->" + a):
                    node.func.attr = a
        if len(node.args) == 2 and not any(isinstance(a, ast.Starred) for a in node.args) and self.hit(node, "swap arguments"):
            node.args.reverse()
        if node.args and isinstance(node.func, ast.Name) and node.func.id in ("list", "reversed", "any", "bool") and self.hit(node, "drop " + node.func.id):
            return node.args[0]
        for i, k in enumerate(node.keywords):
            if self.hit(node, "drop keyword"):
                del node.keywords[i]
                break
        return node

    def visit_Constant(self, node):
        v = node.value
        if isinstance(v, bool):
            if self.hit(node, "not bool"):
                return ast.Constant(not v)
        elif isinstance(v, int):
            for d in (1, -1):
                if self.hit(node, f"{v}->{v + d}"):
                    return ast.Constant(v + d)
        elif isinstance(v, str) and v and not (len(v) > 60 and "\n" in v):
            if self.hit(node, f"{v!r}->''"):
                return ast.Constant("")
            if self.hit(node, f"{v!r}+z"):
                return ast.Constant(v + "z")
            if any(c in v for c in "[(\\*+?") and len(v) > 3:
                for i in range(len(v)):
                    if self.hit(node, f"{v!r} without {i} {v[i]!r}"):
                        return ast.Constant(v[:i] + v[i + 1:])
            elif len(v) > 1:
                if self.hit(node, f"{v!r}[1:]"):
                    return ast.Constant(v[1:])
                if self.hit(node, f"{v!r}[:-1]"):
                    return ast.Constant(v[:-1])
        return node

    def visit_JoinedStr(self, node):
        for p in node.values:
            if isinstance(p, ast.FormattedValue):
                p.value = self.visit(p.value)
        for i, p in enumerate(node.values):
            if isinstance(p, ast.Constant):
                for j in range(len(p.value)):
                    if self.hit(node, f"f-string without {p.value[j]!r}"):
                        node.values[i] = ast.Constant(p.value[:j] + p.value[j + 1:])
                        return node
        return node

    def stmts(self, body):
        out = []
        for s in body:
            first = isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
            if not first and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Return)) and self.hit(s, f"drop {type(s).__name__}"):
                out.append(ast.Pass())
                continue
            out.append(self.visit(s))
        return out

    def generic_visit(self, node):
        for f in ("body", "orelse", "finalbody"):
            if isinstance(getattr(node, f, None), list) and not isinstance(node, ast.Lambda):
                setattr(node, f, self.stmts(getattr(node, f)))
        for f, old in ast.iter_fields(node):
            if f in ("body", "orelse", "finalbody") and isinstance(old, list):
                continue
            if f in ("annotation", "returns", "decorator_list"):
                continue
            if isinstance(old, list):
                old[:] = [self.visit(v) if isinstance(v, ast.AST) else v for v in old]
            elif isinstance(old, ast.AST):
                setattr(node, f, self.visit(old))
        return node


def mutants(path):
    src = open(path, encoding="utf-8").read()
    n = 0
    while True:
        m = Mutator(n)
        t = m.visit(ast.parse(src))
        if m.what is None:
            return
        yield n, m.line, m.what, ast.unparse(ast.fix_missing_locations(t))
        n += 1


ORDER = {"usecases": "C02 C12 C03 C04 C05 C06 C07 C11 C13 C09 C08 C16 C14 C01 C26 C17 C10 C24", "wrapper": "C02 C05 C06 C08 C26", "normalizer": "C15 C12 C11 C09 C16 C26", "error_handler": "C17 C18 C16 C26 C22 C23", "adapter": "C15 C16 C17 C18 C21 C08 C26 C13 C22 C23",
         "xml_elements_to_mathml_element": "C15 C16 C08 C12 C21 C01 C26", "converter": "C21 C15 C16 C26"}


CLASSES = {"Math": "C08 C21", "MI": "C11 C09 C12", "Character": "C09 C11", "MO": "C09 C15", "Operator": "C09", "MN": "C09 C15", "MSup": "C02 C13", "MSub": "C02 C13", "MSubsup": "C02 C13", "MSqrt": "C04", "Separators": "C05 C06", "Vector": "C05", "Matrix": "C06",
           "MFenced": "C05 C06", "MTable": "C06", "MTr": "C06", "MFrac": "C04 C13", "MRoot": "C04 C13", "MAction": "C07", "MEnclose": "C07", "MError": "C08", "TextCommand": "C12", "Char": "C12", "MText": "C12", "UnderOverSetter": "C03", "GenericUnderOver": "C03 C13",
           "MUnderover": "C03 C02 C13", "MMultiscripts": "C02 C13", "Void": "C07 C08"}


def owner(f, line):
    for n in ast.parse(open(f"/repo/{SRC}{f}", encoding="utf-8").read()).body:
        if n.lineno <= line <= n.end_lineno:
            return CLASSES.get(getattr(n, "name", ""), "")
    return ""


def one(job):
    f, n, line, what, code = job
    tmp = tempfile.mkdtemp(prefix="mutate-")
    res = {"file": f, "n": n, "line": line, "what": what}
    try:
        shutil.copytree("/repo", tmp + "/repo", symlinks=True)
        with open(f"{tmp}/repo/{SRC}{f}", "w", encoding="utf-8") as h:
            h.write(code)
        env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": tmp + "/repo/src"}
        try:
            p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=tmp + "/repo", capture_output=True, text=True, timeout=60, env=env)
        except subprocess.TimeoutExpired:
            return {**res, "by": "tests"}
        if p.returncode:
            return {**res, "by": "tests"}
        shutil.copytree(ROOT, tmp + "/verif", ignore=shutil.ignore_patterns("seeded", ".git", "replays", "evidence"))
        order = ORDER[os.path.basename(f)[:-3]].split() if "el_to_tex/adapter" not in f else "C08 C02 C03 C04 C06 C07 C13 C12 C26".split()
        order = list(dict.fromkeys(owner(f, line).split() + order)) if "usecases" in f else order
        for c in order:
            try:
                p = subprocess.run(["nice", "-n", "15", "./check.sh", c, "quick"], cwd=tmp + "/verif", capture_output=True, text=True, timeout=1200, env={**os.environ, "VERIF_REPO": tmp + "/repo", "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            except subprocess.TimeoutExpired:
                return {**res, "by": c, "note": "timeout"}
            if p.returncode:
                return {**res, "by": c, "note": "" if p.returncode == 1 and "VIOLATION" in p.stdout else (p.stdout + p.stderr)[-300:]}
        return {**res, "by": None}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    out, args = sys.argv[1], sys.argv[2:]
    part = (0, 1)
    if args[:1] == ["-s"]:
        part = tuple(map(int, args[1].split("/")))
        args = args[2:]
    done = set()
    if os.path.exists(out):
        done = {(r["file"], r["n"]) for r in map(json.loads, open(out))}
    jobs = [(f, *m) for f in (args or FILES) for m in mutants(f"/repo/{SRC}{f}")]
    jobs = [j for j in jobs[part[0]::part[1]] if j[:2] not in done]
    print(len(jobs), "changes", flush=True)
    with concurrent.futures.ThreadPoolExecutor(4) as ex, open(out, "a") as h:
        for x in concurrent.futures.as_completed([ex.submit(one, j) for j in jobs]):
            r = x.result()
            h.write(json.dumps(r) + "\n")
            h.flush()
            if r["by"] != "tests":
                print(r["file"], r["line"], r["what"], "->", r["by"], r.get("note", ""), flush=True)


main()
