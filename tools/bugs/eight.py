import os
import runpy

globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seven.py")).items() if not k.startswith("__")})
BUGS = []


def bug(id, property, needs, breaks, demo, *edits):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, demo=demo, edits=list(edits)))


bug("c02-astral-base", "C02", "a script base of several children whose LaTeX is one character outside the basic plane", "Lengths are counted in UTF-16 units, so that one such character counts as two and is put in parentheses.",
    r'''check("<math><msup><maction actiontype='tooltip'><mi>&#x1F600;</mi><mi>y</mi></maction><mn>2</mn></msup></math>", "\U0001F600^{2}")''',
    (WR, '''        if len(val) <= 1:
''', '''        if len(val.encode("utf-16-le")) <= 2:
'''))
bug("c03-wrapped-accent", "C03", "an accent that is the only shown thing of a group", "Only an accent that is an element without children is recognised.",
    r'''check("<math><mover><mi>x</mi><mrow><mrow><mo>^</mo></mrow></mrow></mover></math>", "\\hat{x}")''',
    (UC, '''        return self._apply_command(content, accent)
''', '''        if children[1].children and children[1].children[0].children:
            accent = f"{accent} "
        return self._apply_command(content, accent).replace(" }{", "}{")
'''))
bug("c05-combining", "C05", "a separators attribute with a combining mark", "A combining mark and the character before it are taken as one separator.",
    r'''check("<math><mfenced separators=';&#x301;,'><mi>x</mi><mi>y</mi><mi>z</mi><mi>w</mi></mfenced></math>", "\\left(x;y\u0301z,w\\right)")''',
    (UC, '''        self._separators = list(self._math_element.attributes.get("separators", ""))
''', r'''        self._separators = re.findall(
            "[^\u0300-\u036f][\u0300-\u036f]*|[\u0300-\u036f]+",
            self._math_element.attributes.get("separators", ""),
        )
'''))
bug("c05-mirror", "C05", "a fence with an angle bracket as opening delimiter and no closing one", "A missing closing delimiter mirrors the opening one.",
    r'''check("<math><mfenced open='&#x27E8;'><mi>x</mi></mfenced></math>", "\\left⟨x\\right)")''',
    (UC, '''        self._close = close if close != "" else ")"
''', '''        self._close = close if close != "" else {"⟨": "⟩"}.get(op, ")")
'''))
bug("c06-far-table", "C06", "a fence with a table more than twelve levels below it", "The search for a table in a fence stops twelve levels down.",
    r'''t = "<mrow>" * 14 + "<mtable><mtr><mtd><mi>x</mi></mtd></mtr></mtable>" + "</mrow>" * 14
check("<math><mfenced open='[' close=']'>" + t + "</mfenced></math>", "\\begin{bmatrix} x \\end{bmatrix}")''',
    (UC, '''    def _is_there_relative_of_name(self, mathml_elements, element_name):
''', '''    def _is_there_relative_of_name(self, mathml_elements, element_name, levels=12):
'''), (UC, '''                or self._is_there_relative_of_name(child.children, element_name)
''', '''                or levels > 0
                and self._is_there_relative_of_name(
                    child.children, element_name, levels - 1
                )
'''))
bug("c07-phantom-in-toggle", "C07", "a toggle with a phantom among its branches", "Branches that show nothing are dropped from a toggle, with their arrow.",
    r'''check("<math><maction><mi>x</mi><mphantom><mi>z</mi></mphantom><mi>y</mi></maction></math>", "x \\Longrightarrow \\Longrightarrow y")''',
    (UC, '''                    self._adapter.to_latex_converter(child).convert()
                    for child in children
                ]
            )

        if not children:''', '''                    self._adapter.to_latex_converter(child).convert()
                    for child in children
                    if child.name != "mphantom"
                ]
            )

        if not children:'''))
bug("c08-glyph", "C08", "an maligngroup, malignmark or mglyph element with content", "Elements that are empty in MathML are taken as such even when something is in them.",
    r'''check("<math><mrow><maligngroup><mi>x</mi></maligngroup><mi>y</mi></mrow></math>", "x y")''',
    (AD, '''            "mphantom": Void,
''', '''            "mphantom": Void,
            "maligngroup": Void,
'''))
bug("c11-trimmed-variant", "C11", "a mathvariant with a space around it", "The value of mathvariant is trimmed, so that an unknown one becomes a known one.",
    r'''check("<math><mi mathvariant=' bold'>x</mi></math>", "x")''',
    (UC, '''        return attributes["mathvariant"]
''', '''        return attributes["mathvariant"].strip()
'''))
bug("c18-duplicate", "C18", "a tag with the same attribute twice, both with the same value", "A repeated attribute with the value it has already is dropped instead of rejected.",
    r'''check("<math><mi class='a' class='a'>x</mi></math>", "ExpatError")''',
    (EH, '''        return self._fix_missing_attribute(xml)
''', '''        if "duplicate" in str(error):
            xml = re.sub(r"""(\\s[\\w-]+=("[^"<]*"|'[^'<]*'))\\1""", r"\\1", xml)
        return self._fix_missing_attribute(xml)
'''))
bug("c18-two-roots", "C18", "a second math element right after the first", "What is after the root is put in a common root when it is a formula as well.",
    r'''check("<math><mi>x</mi></math><math><mi>y</mi></math>", "ExpatError")''',
    (EH, '''        return self._fix_missing_attribute(xml)
''', '''        if "junk" in str(error) and "</math><math>" in xml:
            xml = f"<div>{xml}</div>"
        return self._fix_missing_attribute(xml)
'''))
bug("c18-less-than", "C18", "a less-than sign between spaces in a token", "A less-than sign followed by a space is read as the character.",
    r'''check("<math><mo> < </mo></math>", "ExpatError")''',
    (EH, '''        return self._fix_missing_attribute(xml)
''', '''        xml = xml.replace(" < ", " &lt; ")
        return self._fix_missing_attribute(xml)
'''))
bug("c19-thousandth", "C19", "more than a thousand conversions, then an identifier with a variant", "A counter meant to bound a cache also drops the variant of the conversion that overflows it.",
    r'''d = "<math><mi mathvariant='bold'>x</mi></math>"
for _ in range(2500):
    check(d, "\\mathbf{x}")''',
    (UC, '''class MI(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement):
''', '''class MI(ToLaTeXConverter):
    _converted = 0

    def __init__(self, math_element: MathMLElement):
        MI._converted = (MI._converted + 1) % 1024
'''), (UC, '''        if not attributes or "mathvariant" not in attributes:
''', '''        if not attributes or "mathvariant" not in attributes or not MI._converted:
'''))
bug("c20-ident", "C20", "two threads that convert documents with texts of several pieces at the same time", "The pieces of a text are gathered in a list kept by the name of the current thread, which threads may share.",
    THREADS + r'''threads = threading.Thread


def named(*a, **k):
    return threads(*a, name="worker", **k)


threading.Thread = named
race("<math><mtext>a+b-c&#945;d</mtext></math>", "<math><mtext>x=y</mtext></math>", "<math><mtext>(((((((p)))))))))</mtext></math>")''',
    (UC, '''        merged_chars = []
        for char in chars:
''', '''        merged_chars = self._pieces.setdefault(threading.current_thread().name, [])
        merged_chars.clear()
        for char in chars:
'''), (UC, '''class MText(ToLaTeXConverter):
''', '''class MText(ToLaTeXConverter):
    _pieces = {}

'''), (UC, '''import re
from enum import Enum
''', '''import re
import threading
from enum import Enum
'''))
bug("c22-error-retry", "C22", "fractions nested deeply around one with a wrong number of children", "A fraction whose numerator fails tries it again, so that the work doubles with each level.",
    r'''import time
d = "<math>" + "<mfrac>" * 16 + "<mi>x</mi>" + "</mfrac>" + "<mi>y</mi></mfrac>" * 15 + "</math>"
t = time.process_time()
result(d)
if time.process_time() - t > 0.3:
    sys.exit("too slow")''',
    (UC, '''        num = self._adapter.to_latex_converter(children[0]).convert()
''', '''        try:
            num = self._adapter.to_latex_converter(children[0]).convert()
        except InvalidNumberOfChildrenError:
            num = self._adapter.to_latex_converter(children[0]).convert()
'''))
bug("c22-separator-scan", "C22", "a fence with very many children", "For each child the whole row so far is scanned for each child before it.",
    r'''import time
d = "<math><mfenced>" + "<mi>x</mi>" * 1500 + "</mfenced></math>"
t = time.process_time()
result(d)
if time.process_time() - t > 2:
    sys.exit("too slow")''',
    (WR, '''            separator = '' if index == len(arr) - 1 else self._get(index)
''', '''            before = [len(''.join(arr[:i])) for i in range(index)]
            separator = '' if index == len(arr) - 1 else self._get(len(before))
'''))
bug("c23-atexit", "C23", "a document that cannot be repaired", "Each failed document registers a function to be called when the program ends.",
    r'''import atexit
n = atexit._ncallbacks()
result("<math><mi>x</math>")
if atexit._ncallbacks() != n:
    sys.exit("a handler was left behind")''',
    (XA, '''        if exception:
            raise exception
''', '''        if exception:
            import atexit

            atexit.register(self._error_handler.error_locator.clear)
            raise exception
'''))
bug("c23-html-entities", "C23", "a document with an entity that is not defined", "The failing entity is added to a table of the standard library.",
    r'''import html.entities
n = len(html.entities.html5)
result("<math><mi>&foo;</mi></math>")
if len(html.entities.html5) != n:
    sys.exit("html.entities was changed")''',
    (EH, '''        return self._fix_missing_attribute(xml)
''', '''        if "undefined entity" in str(error):
            from html.entities import html5

            html5.update((name, "") for name in re.findall(r"&(\\w+;)", xml))
        return self._fix_missing_attribute(xml)
'''))
bug("c23-thread", "C23", "a text of more than thirty characters", "A long text leaves a daemon thread running.",
    r'''import threading
n = threading.active_count()
result("<math><mtext>" + "a, " * 40 + "</mtext></math>")
if threading.active_count() != n:
    sys.exit("a thread was left running")''',
    (UC, '''        merged_chars = []
        for char in chars:
''', '''        if len(chars) > 30:
            import threading

            timer = threading.Timer(60, chars.clear)
            timer.daemon = True
            timer.start()
        merged_chars = []
        for char in chars[:]:
'''))
bug("c24-differential", "C24", "an identifier d right after an integral sign's integrand", "A d that follows another identifier in a row with an integral gets a thin space.",
    r'''check("<math><mrow><mo>&#8747;</mo><mi>x</mi><mi>d</mi><mi>x</mi></mrow></math>", "\\int x d x")''',
    (UC, '''    def convert(self) -> str:
        return " ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )


class MSqrt''', '''    def convert(self) -> str:
        latex = " ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )
        return latex.replace(" d x", " \\\\, d x") if latex[:4] == "\\\\int" else latex


class MSqrt'''))
bug("c24-script-fraction", "C24", "a fraction in a script of a script", "Fractions two scripts down are written on one line.",
    r'''f = "<mfrac><mi>x</mi><mi>y</mi></mfrac>"
check("<math><msup><mi>a</mi><msup><mi>b</mi>" + f + "</msup></msup></math>", "a^{b^{\\frac{x}{y}}}")''',
    (UC, '''        exponent_str = self._adapter.to_latex_converter(exponent).convert()
''', '''        exponent_str = self._adapter.to_latex_converter(exponent).convert()
        if exponent.name == "msup" and exponent.children[1].name == "mfrac":
            exponent_str = re.sub(r"\\\\frac{(\\w)}{(\\w)}", r"\\1/\\2", exponent_str)
'''))
bug("c25-argv", "C25", "a program run with no name, as by python -c or in an interactive session", "The program's name decides whether an unknown notation is long division.",
    RUN + r'''d = "<math><menclose notation='oval'><mi>x</mi></menclose></math>"
same([], f"print(convert({d!r}))", result(d))''',
    (UC, '''        return f"\\\\overline{{\\\\left.\\\\right){latex_joined_children}}}"
''', '''        import sys

        if sys.argv[0] == "-c" and self._notation != "longdiv":
            return latex_joined_children
        return f"\\\\overline{{\\\\left.\\\\right){latex_joined_children}}}"
'''))
bug("c25-int-limit", "C25", "a long number, with PYTHONINTMAXSTRDIGITS set", "Numbers go through int, whose length limit is a setting of the interpreter.",
    RUN + r'''code = "print(len(convert('<math><mn>' + '1' * 2000 + '</mn></math>')))"
same([], code, "2000", PYTHONINTMAXSTRDIGITS="640")''',
    (UC, '''        return converted_value or normalized_value
''', '''        if len(normalized_value) > 1 and re.fullmatch("[1-9][0-9]{0,4000}", normalized_value):
            return str(int(normalized_value))
        return converted_value or normalized_value
'''))
bug("c26-percent", "C26", "a percent sign in an error element", "The LaTeX of an error is put together with the % operator.",
    r'''check("<math><merror><mi>%</mi></merror></math>", "\\color{red}{\\%}")''',
    (UC, '''        return f"\\\\color{{red}}{{{latex_joined_children}}}"
''', '''        return ("\\\\color{%s}{" + latex_joined_children + "}") % "red"
'''))
bug("c26-span", "C26", "a cell whose columnspan is not a number", "The span of a cell is read as a number.",
    r'''check("<math><mtable><mtr><mtd columnspan='all'><mi>x</mi></mtd></mtr></mtable></math>", "x")''',
    (UC, '''        return " & ".join(
''', '''        spans = [int(c.attributes.get("columnspan") or 1) for c in self._math_element.children]
        return " & ".join(
'''), (UC, '''                for child in self._math_element.children
            ]
        )


class MSub(''', '''                for child in self._math_element.children[: len(spans)]
            ]
        )


class MSub('''))
bug("c26-ord", "C26", "a fence with a delimiter of several characters", "The delimiter is looked up by its code point, as if it were one character.",
    r'''check("<math><mfenced open='||' close='||'><mi>x</mi></mfenced></math>", "\\left||x\\right||")''',
    (UC, '''        self._open = op if op != "" else "("
''', '''        self._open = op if op != "" and ord(op) else "("
'''))
