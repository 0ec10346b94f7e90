"""Independent reading of documents: parsing to terms, and what leaving out unquoted attributes gives."""
import re
import xml.parsers.expat as expat

import ref


def parse(doc):
    """The root as a term (with all text of childless elements); raises expat.ExpatError."""
    p = expat.ParserCreate(namespace_separator=" ")
    p.namespace_prefixes = True
    p.ordered_attributes = True
    p.buffer_text = True
    root, stack = [], []

    def name(n):
        parts = n.split(" ")
        return (parts[2] + ":" + parts[1]) if len(parts) == 3 else parts[-1]

    def start(n, at):
        ats = [(name(at[i]), at[i + 1]) for i in range(0, len(at), 2)]
        stack.append([name(n), ats, [], []])

    def end(n):
        n, at, text, kids = stack.pop()
        t = (n, tuple(at), "" if kids else "".join(text).strip(), tuple(kids))
        (stack[-1][3] if stack else root).append(t)

    p.StartElementHandler, p.EndElementHandler = start, end
    p.CharacterDataHandler = lambda s: stack and stack[-1][2].append(s)
    p.Parse(doc, True)
    return root[0]


def formulas(t):
    if t[0] == "math":
        return [t]
    return [m for k in t[3] for m in formulas(k)]


def plain(doc):
    """What the library may always do to a document first."""
    return re.sub(r"\r\n|\r|\n", " ", doc).strip()


def outcome(doc):
    """The outcome of a well-formed document; raises expat.ExpatError for others."""
    t = parse(plain(doc))
    try:
        return ("ok", " ".join(x for x in (ref.norm(ref.raw(m)) for m in formulas(t)) if x))
    except ref.Arity as e:
        return ("arity", e.name, e.need, e.got)


NAME = re.compile(r"[^\s<>/\"'=]+")


def clean(doc):
    """The document without the attributes that have no quoted value (a scanner, character by character)."""
    out, i, n = [], 0, len(doc)
    while i < n:
        if doc[i] != "<":
            out.append(doc[i])
            i += 1
            continue
        for a, z in (("<!--", "-->"), ("<![CDATA[", "]]>"), ("<?", "?>")):
            if doc.startswith(a, i):
                j = doc.find(z, i + len(a))
                j = n if j < 0 else j + len(z)
                out.append(doc[i:j])
                i = j
                break
        else:
            m = re.compile(r"<[^\W\d][^\s<>/\"'=]*").match(doc, i)
            if not m:
                out.append(doc[i])
                i += 1
                continue
            out.append(m.group())
            i = m.end()
            while i < n and doc[i] not in "<>":  # attributes
                s = re.compile(r"\s*").match(doc, i).end()
                k = NAME.match(doc, s) if s > i else None
                if not k:
                    if doc[s:s + 1] in ('"', "'"):  # a stray quoted string stays as it is
                        e = doc.find(doc[s], s + 1)
                        e = n if e < 0 else e + 1
                    else:
                        e = s + 1
                    out.append(doc[i:e])
                    i = e
                    continue
                q = re.compile(r"\s*=\s*(\"[^\"<]*\"|'[^'<]*')").match(doc, k.end())
                if q:
                    out.append(doc[i:q.end()])
                    i = q.end()
                    continue
                u = re.compile(r"\s*=(?:[^\s<>/\"']|/(?!>))*").match(doc, k.end())
                i = u.end() if u else k.end()
    return "".join(out)


def verdict(doc):
    """("is", outcome): well formed; ("may", outcome): well formed once cleaned; ("broken",)."""
    try:
        return ("is", outcome(doc))
    except expat.ExpatError:
        pass
    try:
        return ("may", outcome(clean(plain(doc))))
    except expat.ExpatError:
        return ("broken",)
