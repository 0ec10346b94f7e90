"""Spelling a term as XML with a choice at every place where layout or spelling is free.

Each place offers options, the first being the plain one; taking another costs one
deviation, so a space with bound k holds every document with up to k deviations."""
from term import esc, esca

SPACES = ["", " ", "\n", "\r\n", "\r", "\t", "  \n\t "]
GAPS = [" ", "  ", "\n", "\r\n", "\t", "\r"]


class Plain:
    """Every hook returns the plain spelling; subclasses choose."""

    def __init__(self, c=None):
        self.c = c

    def pick(self, options):
        return self.c.pick(options, 1)

    def between(self):  # between elements, and around the content of containers
        return ""

    def text(self, s):  # the text of a token
        return esc(s)

    def gap(self):  # before an attribute
        return " "

    def attrs(self, attrs, name=""):
        return attrs

    def attr(self, k, v):
        return f'{k}="{esca(v)}"'

    def tag_end(self, name):  # before > of a start tag, with what is damaged
        return ""

    def end_tag(self, name):
        return f"</{name}>"

    def empty(self, name):  # end of a start tag without content
        return "/>"

    def name(self, n):
        return n

    def prolog(self):
        return ""

    def epilog(self):
        return ""

    def element(self, t):
        name, attrs, text, kids = t
        n = self.name(name)
        head = f"<{n}"
        for k, v in self.attrs(attrs, name):
            head += self.gap() + self.attr(k, v)
        head += self.tag_end(name)
        if kids:
            body = self.between()
            for k in kids:
                body += self.element(k) + self.between()
            return head + ">" + body + self.end_tag(n)
        if text:
            return head + ">" + self.text(text) + self.end_tag(n)
        e = self.empty(n)
        return head + e

    def document(self, t):
        return self.prolog() + self.element(t) + self.epilog()
