#!/usr/bin/env python3
"""Wrote /verif/known_findings.json."""
import json
import sys
sys.path[:0] = ["/verif/mc"]
import impl
from gen import E, X, doc, table, T

impl.load()
F = []


def finding(prop, space, d, what):
    F.append({"property": prop, "space": space, "input": d, "outcome": list(impl.convert(d)), "what": what})


W = " (required by the library's own test %s, so not repaired)"
finding("C14", "pinned", doc(E("mfenced", table([X]), open="|", close="")),
        "a fence around a table with no closing delimiter ends in \\right without a delimiter" + W % "mfenced_as_partial_function")
finding("C14", "pinned", doc(E("mfenced", table([X]), open="", close="|")),
        "a fence around a table with no opening delimiter starts with \\left without a delimiter (same code as the previous finding)")
finding("C14", "pinned", doc(E("menclose", X, notation="left")), "menclose left gives \\left| without \\right" + W % "menclose_notation_left")
finding("C14", "pinned", doc(E("menclose", X, notation="right")), "menclose right gives \\right| without \\left" + W % "menclose_notation_right")
finding("C14", "pinned", doc(E("menclose", X, notation="madruwb")), "menclose madruwb gives \\right| without \\left" + W % "menclose_notation_madruwb")
finding("C14", "pinned", doc(E("mfenced", X, open="{", close="}")), "a brace as fence delimiter is not escaped" + W % "mfenced_with_open")
for k in ("mi", "mo"):
    finding("C10", "pinned", doc(T(k, "𝞆")), f"𝞆 (small chi) as {k} is shown as a capital X" + W % "mi list (𝞆)")
FIXED = [
    ("C15", "1c272c7", "line breaks were deleted instead of counting as white space: attributes and words split by one ran together"),
    ("C16", "8a8fda6", "a comment or CDATA section in a token lost or replaced its text"),
    ("C21", "cfddbb9", "a math element nested in another was converted twice"),
    ("C21", "e2f87ee", "formulas of one document were glued together (\\alpha and x became \\alphax)"),
    ("C14", "5263cab", "what stood beside a table in a fence was glued to the table's last command"),
    ("C04", "c64220f", "bevelled=\"false\" bevelled the fraction"),
    ("C07", "6795458", "an empty maction raised IndexError"),
    ("C01", "7466290", "mmultiscripts dropped every script pair but the first"),
    ("C16", "90c38a0", "mml: was deleted from text as well as from tags"),
    ("C10", "3fe8623", "ȇ became \\hat{i} and a dozen bold Greek capitals became other letters"),
    ("C14", "3a689ef", "_ { } ^ ~ as identifier or in text came out raw"),
    ("C17", "61af5b0", "repairing an attribute without value deleted equal text elsewhere in the document"),
    ("C12", "f2ad2d4", "a no-break space or tab in a text was lost"),
    ("C14", "ba4b436", "in a text a letter was glued to the command before it (α followed by b gave \\alphab)"),
    ("C14", None, "∼ ∓ ⧷ ⩡ ⊕ came out as letters, a control character or +- instead of their commands"),
    ("C14", None, "{ and } as operators came out as \\left{ and \\right}"),
    ("C14", "79323be", "a blank fence delimiter left \\left without one, so that it took the first character of the content"),
    ("C16", "47f63c6", "mml: was deleted from attribute values and from CDATA text that looks like a tag"),
    ("C08", "fde8a27", "an attribute innerTable of the document put a table in no other table in a matrix environment"),
]
import subprocess
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
late = {"∼": next(x.split()[0] for x in log if "LaTeX commands, not as letters" in x), "{": next(x.split()[0] for x in log if "escape the braces" in x)}
fixed = [f"fixed: property={p} {c or late[w[0]]} {w}" for p, c, w in FIXED]
json.dump({"findings": F, "fixed": fixed}, open("/verif/known_findings.json", "w"), indent=1, ensure_ascii=True)
