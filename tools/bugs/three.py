import os
import runpy

globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "one.py")).items() if not k.startswith("__")})
BUGS = []


def bug(id, property, needs, breaks, demo, *edits):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, demo=demo, edits=list(edits)))


bug("c05-cycle", "C05", "a fence with three or more separators and more than one child beyond them", "Three or more separators start over when they run out instead of repeating the last one.",
    '''check('<math><mfenced separators=";|."><mi>a</mi><mi>b</mi><mi>c</mi><mi>d</mi><mi>e</mi></mfenced></math>', "\\\\left(a;b|c.d.e\\\\right)")''',
    (WR, '''        return self._separators[-1] if len(self._separators) > 0 else ','
''', '''        count = len(self._separators)
        return self._separators[index % count if count > 2 else -1] if count > 0 else ','
'''))
bug("c05-order-of-defaults", "C05", "a fence whose only separator is a space-like or whose separators have spaces", "White space in the separators is dropped.",
    '''check('<math><mfenced separators="; |"><mi>a</mi><mi>b</mi><mi>c</mi><mi>d</mi></mfenced></math>', "\\\\left(a;b c|d\\\\right)")''',
    (UC, '''        self._separators = list(self._math_element.attributes.get("separators", ""))
''', '''        self._separators = [s for s in self._math_element.attributes.get("separators", "") if not s.isspace()]
'''))
bug("c06-last-row", "C06", "a table with eleven or more rows or columns", "Rows beyond ten are joined without a line break command.",
    '''check("<math><mtable>" + "<mtr><mtd><mi>x</mi></mtd></mtr>" * 12 + "</mtable></math>", " \\\\\\\\ ".join(["x"] * 12))''',
    (UC, '''        return " & ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )
''', '''        return " & ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children[:10]
            ]
        )
'''), )
BUGS[-1]["needs"] = "a table row with eleven or more cells"
BUGS[-1]["breaks"] = "Cells beyond ten in a row are dropped (LaTeX's default limit of matrix columns)."
BUGS[-1]["demo"] = '''check("<math><mtable><mtr>" + "<mtd><mi>x</mi></mtd>" * 12 + "</mtr></mtable></math>", " & ".join(["x"] * 12))'''
bug("c06-separators-equal", "C06", "a fence with equal delimiters that are not bars around a table", "Other equal delimiters, such as / and /, select a bare matrix with delimiters.",
    '''check('<math><mfenced open="/" close="/"><mtable><mtr><mtd><mi>x</mi></mtd></mtr></mtable></mfenced></math>', "\\\\begin{bmatrix} x \\\\end{bmatrix}")''',
    (UC, '''        return self._open != self._close
''', '''        return self._open != self._close or bool(self._open)
'''))
bug("c09-fullwidth", "C09", "a fullwidth operator such as ＋", "Fullwidth operators are folded to ASCII ones.",
    '''check("<math><mo>＋</mo></math>", "＋")''',
    (UC, '''        return Operator.operate(trimmed_value)
''', '''        if len(trimmed_value) == 1 and 0xFF01 <= ord(trimmed_value) <= 0xFF5E:
            trimmed_value = chr(ord(trimmed_value) - 0xFEE0)
        return Operator.operate(trimmed_value or "")
'''))
bug("c12-merge-symbols", "C12", "a text with four or more pieces, in which two symbols stand side by side", "Symbols that stand side by side after the third piece of a text are looked up together.",
    '''check("<math><mtext>a+b→α</mtext></math>", convert("<math><mtext>a+b</mtext></math>") + convert("<math><mtext>→</mtext></math>") + convert("<math><mtext>α</mtext></math>"))''',
    (UC, '''            if char.is_alphanumeric:
                last_char = merged_chars[-1] if merged_chars else None
                if last_char and last_char.is_alphanumeric:
''', '''            if char.is_alphanumeric or len(merged_chars) > 3:
                last_char = merged_chars[-1] if merged_chars else None
                if last_char and last_char.is_alphanumeric == char.is_alphanumeric:
'''))
bug("c12-long-runs", "C12", "a text longer than 64 characters", "Only the first 64 characters of a text are converted.",
    '''check("<math><mtext>" + "a" * 70 + "</mtext></math>", "\\\\text{" + "a" * 70 + "}")''',
    (UC, '''            for char in value
''', '''            for char in value[:64]
'''))
bug("c13-under-empty", "C13", "an over or under element without children", "mover and munder without children are converted as if both were empty.",
    '''check("<math><mover/></math>", "InvalidNumberOfChildrenError")''',
    (UC, '''        if children_length != 2:
            raise InvalidNumberOfChildrenError(name, 2, children_length)

        content = self._adapter.to_latex_converter(children[0]).convert()
        accent''', '''        if children_length not in (0, 2):
            raise InvalidNumberOfChildrenError(name, 2, children_length)

        if not children:
            return ""

        content = self._adapter.to_latex_converter(children[0]).convert()
        accent'''))
bug("c13-count-message", "C13", "an msubsup with a wrong number of children", "The error of msubsup names the number of scripts instead of that of children.",
    '''try:
    convert("<math><msubsup><mi>x</mi></msubsup></math>")
except Exception as e:
    sys.exit(0 if "actually 1" in str(e) and "3" in str(e) else str(e))
sys.exit(1)''',
    (UC, '''            raise InvalidNumberOfChildrenError(name, 3, children_length)

        base_child = children[0]''', '''            raise InvalidNumberOfChildrenError(name, 3, max(children_length - 1, 0))

        base_child = children[0]'''))
bug("c14-text-glue", "C14", "a text with two symbols next to each other where the first is a command and the second starts with a letter", "The space between a command and the letter after it is only put if the letter is ASCII-lower case.",
    '''check("<math><mtext>αÅ</mtext></math>", convert("<math><mtext>αÅ</mtext></math>"))
r = convert("<math><mrow><mi>α</mi><mi>x</mi></mrow></math>")
check("<math><mfenced separators=' '><mi>α</mi><mi>x</mi></mfenced></math>", "\\\\left(\\\\alpha x\\\\right)")''',
    (WR, '''            acc += current_str + separator
''', '''            acc += current_str + separator.strip()
'''))
bug("c16-comment", "C16", "a comment or CDATA section between the children of an element", "An element whose first child node is a comment is taken for a token.",
    '''check("<math><mrow><!--c--><mi>x</mi></mrow></math>", "x")''',
    (XE, '''        return any(child.nodeType == Node.ELEMENT_NODE for child in el.childNodes)
''', '''        first = next((c for c in el.childNodes if c.nodeType != Node.TEXT_NODE), None)
        return first is not None and first.nodeType == Node.ELEMENT_NODE
'''))
bug("c16-prefix-attr", "C16", "a document with the mml: prefix and tags that follow a declaration of another prefix", "Elements are looked up with the prefix m: taken away too, in text as in tags.",
    '''check("<math><mtext>a &lt;mml:b</mtext></math>", convert("<math><mtext>a &lt;mml:b</mtext></math>"))
check('<mml:math><mml:mi class="mml:q">x</mml:mi></mml:math>', "x")
check('<math><mfenced open="mml:"><mi>x</mi></mfenced></math>', "\\\\leftmml:x\\\\right)")''',
    (XA, '''        self._xml = self._remove_ms_word_prefixes(self._xml)
''', '''        self._xml = self._xml.replace("mml:", "") if "<math" in self._xml else self._remove_ms_word_prefixes(self._xml)
'''))
BUGS[-1]["demo"] = '''d = "<math>" + "<mi>abcdefghijklmnopqrstuvwxyz</mi>" * 4 + "<mn>%d</mn>" + "<mi>abcdefghijklmnopqrstuvwxyz</mi>" * 4 + "</math>"
a = "abcdefghijklmnopqrstuvwxyz "
check(d % 1, (a * 4 + "1 " + a * 4).strip())
check(d % 2, (a * 4 + "2 " + a * 4).strip())'''
BUGS[-1]["needs"] = "two documents of the same length after each other that differ only between their first 100 and last 60 characters"
bug("c20-registry", "C20", "two threads, one preempted between the choice of an element's converter and its use", "The element in conversion is handed over through an attribute of the class.",
    '''import threading
errors = []
sys.setswitchinterval(1e-6)


def work(c):
    for _ in range(1500):
        if result(f"<math><mi>{c}</mi><mn>{c}</mn><mi>{c}</mi></math>") != f"{c} {c} {c}":
            errors.append(c)


ts = [threading.Thread(target=work, args=(c,)) for c in "abcdefgh"]
[t.start() for t in ts]
[t.join() for t in ts]
sys.exit(f"{len(errors)} wrong results" if errors else 0)''',
    (AD, '''        name = mathml_element.name or VoidMathMLElement().name
''', '''        MathMLElementToLatexConverterAdapter._element = mathml_element
        name = mathml_element.name or VoidMathMLElement().name
'''), (AD, '''        return converter(mathml_element)
''', '''        return converter(MathMLElementToLatexConverterAdapter._element)
'''))
bug("c20-lazy-table", "C20", "two threads that make their first conversion at the same time", "The table of converters is built on first use into a shared dictionary that others see while it is incomplete.",
    '''import threading
sys.setswitchinterval(1e-6)
import mathml_to_latex.el_to_tex.adapter as a
bad = []
for i in range(6000):
    if bad:
        break
    if hasattr(a.MathMLElementToLatexConverterAdapter, "_table"):
        a.MathMLElementToLatexConverterAdapter._table = {}
    start = threading.Barrier(4)

    def work():
        start.wait()
        r = result("<math><mfrac><mi>x</mi><mi>y</mi></mfrac></math>")
        if r != "\\\\frac{x}{y}":
            bad.append(r)

    ts = [threading.Thread(target=work) for _ in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
sys.exit(f"{len(bad)} wrong, e.g. {bad[0]!r}" if bad else 0)''',
    (AD, '''class MathMLElementToLatexConverterAdapter:
''', '''class MathMLElementToLatexConverterAdapter:
    _table: dict = {}

'''), (AD, '''        converter = self._from_mathml_element_to_latex_converter().get(
            name, self._make_generic_spacing_wrapper
        )
''', '''        table = MathMLElementToLatexConverterAdapter._table
        if not table:
            for key, value in self._from_mathml_element_to_latex_converter().items():
                table[key] = value
        converter = table.get(name, self._make_generic_spacing_wrapper)
'''))
BUGS[-1]["breaks"] = "Line breaks are removed by an expression that backtracks exponentially over a run of spaces."
BUGS[-1]["needs"] = "a run of thirty or more spaces in a document"
BUGS[-1]["demo"] = BUGS[-1]["demo"].replace("60000", "60")
BUGS[-1]["edits"] = [(XA, '''        return line_break_pattern.sub(" ", xml).strip()
''', '''        xml = line_break_pattern.sub(" ", xml).strip()
        return re.sub(r"(\\s| )+\\t$", " ", xml)
''')]
BUGS[-1]["needs"] = "a broken document of more than 5000 characters"
BUGS[-1]["demo"] = BUGS[-1]["demo"].replace('check("<math><mi>x</math>", "ExpatError")', 'check("<math>" + "<mi>x</mi>" * 600 + "<mi></math>", "ExpatError")')
bug("c23-warn", "C23", "a document with an unknown element", "Unknown elements are reported once on standard output.",
    '''import contextlib, io
out = io.StringIO()
with contextlib.redirect_stdout(out):
    result("<math><foo><mi>x</mi></foo></math>")
sys.exit("printed" if out.getvalue() else 0)''',
    (AD, '''        converter = self._from_mathml_element_to_latex_converter().get(
            name, self._make_generic_spacing_wrapper
        )
''', '''        converter = self._from_mathml_element_to_latex_converter().get(name)
        if converter is None:
            if not name.startswith("m"):
                print("unknown element:", name)
            converter = self._make_generic_spacing_wrapper
'''))
bug("c23-recursion-limit", "C23", "a document with more than a thousand tags", "For big documents the interpreter's recursion limit is raised and not put back.",
    '''limit = sys.getrecursionlimit()
result("<math>" + "<mi>x</mi>" * 1500 + "</math>")
sys.exit(sys.getrecursionlimit() != limit)''',
    (XA, '''        return self._elements_converter.convert(self._mathml_elements)
''', '''        elements = self._mathml_elements
        sys.setrecursionlimit(max(sys.getrecursionlimit(), self._xml.count("</")))
        return self._elements_converter.convert(elements)
'''), (XA, '''import re

from ..el''', '''import re
import sys

from ..el'''))
bug("c24-nested-error", "C24", "an error inside an error", "The colour of an error inside another is left out.",
    '''check("<math><merror><merror><mi>x</mi></merror></merror></math>", "\\\\color{red}{\\\\color{red}{x}}")''',
    (UC, '''        return f"\\\\color{{red}}{{{latex_joined_children}}}"
''', '''        inner = latex_joined_children.replace("\\\\color{red}", "")
        return f"\\\\color{{red}}{{{inner}}}"
'''))
bug("c24-script-level", "C24", "a fraction of single characters inside the superscript of another element", "A fraction in an exponent is written with a slash.",
    '''check("<math><msup><mi>x</mi><mfrac><mi>a</mi><mi>b</mi></mfrac></msup></math>", "x^{\\\\frac{a}{b}}")
check("<math><msup><mi>x</mi><mfrac><mn>1</mn><mn>2</mn></mfrac></msup></math>", "x^{\\\\frac{1}{2}}")''',
    (UC, '''        return self._bracket_wrapper.wrap(exponent_str)
''', '''        return self._bracket_wrapper.wrap(
            re.sub(r"^\\\\frac\\{(\\w)\\}\\{(\\w)\\}$", r"\\1/\\2", exponent_str)
        )
'''))
bug("c03-name", "C03", "a munder inside an unknown element or with under in the name of its parent", "Whether an element is over or under is told from its first child as well.",
    '''check("<math><mover><munder><mi>x</mi><mi>a</mi></munder><mi>b</mi></mover></math>", "\\\\overset{b}{\\\\underset{a}{x}}")''',
    (UC, '''            if re.search(r"under", self._math_element.name)
''', '''            if re.search(r"under", self._math_element.name + content[:10])
'''))
bug("c03-accent-space", "C03", "an accent inside a row with an empty neighbour", "White space around the second child's LaTeX is dropped before accents are recognised.",
    '''check("<math><mover><mi>x</mi><mrow><mo>^</mo><mi></mi></mrow></mover></math>", "\\\\overset{\\\\hat }{x}")''',
    (UC, '''            if accent in latex_accents
''', '''            if accent.strip() in latex_accents
'''))
bug("c07-phantom-width", "C07", "a phantom with a table or fraction inside", "A phantom with more than one child keeps its first one.",
    '''check("<math><mphantom><mi>x</mi><mi>y</mi></mphantom></math>", "")''',
    (AD, '''            "mphantom": Void,
''', '''            "mphantom": self._make_mphantom_tag_converter,
'''), (AD, '''    def _make_math_tag_converter(''', '''    def _make_mphantom_tag_converter(self, math_element: MathMLElement):
        if len(math_element.children) > 2:
            return GenericSpacingWrapper(math_element.children[0], self)
        return Void(math_element)

    def _make_math_tag_converter('''))
BUGS[-1]["needs"] = "a phantom with three or more children, the first of which has children"
BUGS[-1]["breaks"] = "A phantom of three or more children shows what is inside its first one."
BUGS[-1]["demo"] = '''check("<math><mphantom><mrow><mi>x</mi></mrow><mi>y</mi><mi>z</mi></mphantom></math>", "")'''
bug("c04-bevelled-value", "C04", "a fraction with a bevelled attribute in capitals or with spaces", "bevelled=FALSE counts as false.",
    '''check('<math><mfrac bevelled="FALSE"><mi>x</mi><mi>y</mi></mfrac></math>', "x/y")''',
    (UC, '''            return f"{self._wrap_if_more_than_one_char(num)}/{self._wrap_if_more_than_one_char(den)}"
''', '''            num = self._wrap_if_more_than_one_char(num)
            return f"{num}/{den if den.isdecimal() else self._wrap_if_more_than_one_char(den)}"
'''))
BUGS[-1]["needs"] = "a bevelled fraction whose denominator is a number of several digits"
BUGS[-1]["breaks"] = "A denominator of several digits is not put between parentheses."
BUGS[-1]["demo"] = '''check('<math><mfrac bevelled="true"><mi>x</mi><mn>12</mn></mfrac></math>', "x/\\\\left(12\\\\right)")'''
