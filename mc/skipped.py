"""What is not markup although it looks like it: comments, CDATA sections, instructions and quoted values that hold any pieces of markup."""
from gen import Space, X, mi, mtext
from explore import Skip
from term import esc
import ref
from space import case

KINDS = ["comment", "cdata", "instruction", "double", "single", "both"]


def hold(kind, s):
    """The string s inside the construct, or Skip if it cannot be."""
    if kind == "comment":
        if "--" in s or s.endswith("-"):
            raise Skip()
        return f"<!--{s}-->"
    if kind == "cdata":
        if "]]>" in s + "]]>"[:0] or s.endswith("]"):
            raise Skip()
        return f"<![CDATA[{s}]]>"
    if kind == "instruction":
        if "?>" in s or s.endswith("?") or s[:3].lower() == "xml":
            raise Skip()
        return f"<?p {s}?>"
    if kind == "double":
        if '"' in s or "<" in s:
            raise Skip()
        return f' title="{esc(s).replace("&gt;", ">")}"'
    if kind == "single":
        if "'" in s or "<" in s:
            raise Skip()
        return f" title='{esc(s).replace('&gt;', '>')}'"
    if "<" in s:
        raise Skip()
    return " title='" + esc(s).replace("&gt;", ">").replace("'", "&#39;") + "' alt=\"" + esc(s).replace("&gt;", ">").replace('"', "&#34;") + '"'


def space(pieces, n, damages, prefixes, name="skipped"):
    """damages: attributes to put on the elements around; prefixes: to put on the elements' names."""
    def driver(c):
        kind = c.pick(KINDS)
        s = "".join(c.pick(pieces) for _ in range(c.choose(n + 1)))
        h = hold(kind, s)
        d, p = c.pick(damages), c.pick(prefixes)
        w = c.choose(4)
        a, b = (d if w in (0, 2) else ""), (d if w in (1, 2) else "")
        if kind in ("comment", "instruction"):
            if w == 3:
                body, want = f"<{p}mi>x{h}y</{p}mi><{p}mtext>{h}z{h}</{p}mtext>", [mi("xy"), mtext("z")]
            else:
                body, want = f"<{p}mi{a}>x</{p}mi>{h}<{p}mi{b}>y</{p}mi>", [X, mi("y")]
        elif kind == "cdata":
            if w == 3:
                body, want = f"<{p}mtext>q{h}{h}</{p}mtext>", [mtext("q" + s + s)]
            else:
                body, want = f"<{p}mi{a}>x</{p}mi><{p}mtext>{h}</{p}mtext><{p}mi{b}>y</{p}mi>", [X, mtext(s), mi("y")]
        else:
            if w == 3:
                body, want = f'<{p}mi{d}{h} mathvariant="bold">x</{p}mi><{p}mi{h}{d}>y</{p}mi>', [mi("x", mathvariant="bold"), mi("y")]
            else:
                body, want = f"<{p}mi{a}>x</{p}mi><{p}mtext{h}>z</{p}mtext><{p}mi{b}{h}>y</{p}mi>", [X, mtext("z"), mi("y")]
        return case(f"<{p}math>{body}</{p}math>", ref.outcome(*want))
    return Space(name, driver, f"comments, CDATA sections, instructions and values that hold up to {n} of {len(pieces)} pieces of markup, in four arrangements, with {len(damages)} damages and {len(prefixes)} prefixes")
