import os
import runpy

globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "one.py")).items() if not k.startswith("__")})
BUGS = []


def bug(id, property, needs, breaks, demo, *edits):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, demo=demo, edits=list(edits)))


bug("c02-swap-when-prime", "C02", "an msubsup whose subscript is an operator and superscript is not",
    "msubsup exchanges its scripts when the subscript is an operator.",
    '''check("<math><msubsup><mi>x</mi><mo>+</mo><mn>2</mn></msubsup></math>", "x_{+}^{2}")''',
    (UC, '''        subscript_child = children[1]
        superscript_child = children[2]
''', '''        subscript_child, superscript_child = sorted(
            children[1:], key=lambda child: child.name == "mo"
        )
'''))
bug("c02-fenced-base", "C02", "an msub whose base is a fence with two or more children",
    "msub does not group a base that already is a fence: the base's grouping differs from the documented rule.",
    '''check("<math><msub><mfenced><mi>x</mi><mi>y</mi></mfenced><mn>2</mn></msub></math>", "\\\\left(\\\\left(x,y\\\\right)\\\\right)_{2}")''',
    (UC, '''        return self._parenthesis_wrapper.wrap_if_more_than_one_char(base_str)

    def _handle_subscript_child(self, subscript: MathMLElement) -> str:
        subscript_str = self._adapter.to_latex_converter(subscript).convert()

        return self._bracket_wrapper.wrap(subscript_str)


class MFrac''', '''        return (
            base_str
            if base_str.startswith("\\\\left(") and base_str.endswith("\\\\right)")
            else self._parenthesis_wrapper.wrap_if_more_than_one_char(base_str)
        )

    def _handle_subscript_child(self, subscript: MathMLElement) -> str:
        subscript_str = self._adapter.to_latex_converter(subscript).convert()

        return self._bracket_wrapper.wrap(subscript_str)


class MFrac'''))
bug("c02-bare-digit", "C02", "an exponent of one character in an msup inside another script",
    "A script of one character is not braced.",
    '''check("<math><msup><mi>x</mi><mi>y</mi></msup></math>", "x^{y}")
check("<math><msup><mi>x</mi><mo>′</mo></msup></math>", "x^{'}")''',
    (UC, '''        exponent_str = self._adapter.to_latex_converter(exponent).convert()

        return self._bracket_wrapper.wrap(exponent_str)
''', '''        exponent_str = self._adapter.to_latex_converter(exponent).convert()

        return exponent_str if exponent_str == "'" else self._bracket_wrapper.wrap(exponent_str)
'''))
bug("c02-strip-space", "C02", "an mmultiscripts base whose LaTeX has white space only inside a text",
    "The base of mmultiscripts is grouped by whether it has a space outside braces, so a text with a space is not.",
    '''check("<math><mmultiscripts><mtext>a b</mtext><mi>x</mi><mi>y</mi></mmultiscripts></math>", "\\\\left(\\\\text{a b}\\\\right)_{x}^{y}")''',
    (UC, '''        if not re.search(r"\\s+", val):
            return val
''', '''        if not re.search(r"\\s+", re.sub(r"\\{[^{}]*\\}", "", val)):
            return val
'''))
bug("c04-square-root", "C04", "a root whose index converts to 2", "A root with index 2 is written as a square root: the index is lost.",
    '''check("<math><mroot><mi>x</mi><mn>2</mn></mroot></math>", "\\\\sqrt[2]{x}")''',
    (UC, '''        return f"\\\\sqrt[{root_index}]{{{content}}}"''', '''        degree = f"[{root_index}]" if root_index != "2" else ""
        return f"\\\\sqrt{degree}{{{content}}}"'''))
bug("c04-nested-bevelled", "C04", "a bevelled fraction whose numerator begins and ends with two different groups in parentheses", "A bevelled fraction leaves a numerator that begins with \\\\left( and ends with \\\\right) without its own group.",
    '''check('<math><mfrac bevelled="true"><mrow><mfenced><mi>a</mi></mfenced><mo>+</mo><mfenced><mi>b</mi></mfenced></mrow><mi>c</mi></mfrac></math>', "\\\\left(\\\\left(a\\\\right) + \\\\left(b\\\\right)\\\\right)/c")''',
    (UC, '''        return self._parenthesis_wrapper.wrap_if_more_than_one_char(val)

    def _is_bevelled''', '''        is_group = val.startswith("\\\\left(") and val.endswith("\\\\right)")
        return val if is_group else self._parenthesis_wrapper.wrap_if_more_than_one_char(val)

    def _is_bevelled'''))
bug("c04-sqrt-brackets", "C04", "a square root with three or more children", "A square root's empty children do not separate the others.",
    '''check("<math><msqrt><mi>x</mi><mphantom><mi>y</mi></mphantom><mi>z</mi></msqrt></math>", convert("<math><msqrt><mi>x</mi><mrow/><mi>z</mi></msqrt></math>"))
check("<math><msqrt><mi>x</mi><mo>+</mo><mi>z</mi><mn>1</mn></msqrt></math>", "\\\\sqrt{x + z 1}")''',
    (UC, '''class MSqrt(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        self._adapter = adapter

    def convert(self) -> str:
        latex_joined_children = " ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )
''', '''class MSqrt(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        self._adapter = adapter

    def convert(self) -> str:
        latex_joined_children = " ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ][:3]
        )
'''))
bug("c05-cycle", "C05", "a fence with two or more separators and more than one child beyond them", "Separators start over when they run out instead of repeating the last one, unless only one is missing.",
    '''check('<math><mfenced separators=";|"><mi>a</mi><mi>b</mi><mi>c</mi><mi>d</mi><mi>e</mi></mfenced></math>', "\\\\left(a;b|c|d|e\\\\right)")''',
    (WR, '''        return self._separators[-1] if len(self._separators) > 0 else ','
''', '''        return self._separators[min(index, 2 * len(self._separators) - 1) - index] if len(self._separators) > 0 else ','
'''))
bug("c05-dot-delimiter", "C05", "a fence with a full stop (the invisible delimiter) as closing delimiter", "An invisible delimiter counts as absent.",
    '''check('<math><mfenced open="[" close="."><mi>a</mi></mfenced></math>', "\\\\left[a\\\\right.")''',
    (UC, '''        self._close = close if close != "" else ")"
''', '''        self._close = close if close.strip(".") != "" else ")"
'''))
bug("c06-mixed", "C06", "a fence around a table with the delimiters ) and (, or ( and nothing", "A pair is told by one of its delimiters, so ( with another closing delimiter selects pmatrix.",
    '''check('<math><mfenced open="(" close="]"><mtable><mtr><mtd><mi>x</mi></mtd></mtr></mtable></mfenced></math>', "\\\\left(\\\\begin{matrix} x \\\\end{matrix}\\\\right]")
check('<math><mfenced open="[" close=")"><mtable><mtr><mtd><mi>x</mi></mtd></mtr></mtable></mfenced></math>', "\\\\left[\\\\begin{matrix} x \\\\end{matrix}\\\\right)")''',
    (UC, '''        return self._compare("[", "]")
''', '''        return self._open == "["
'''))
bug("c07-toggle-one", "C07", "a toggle action with a child that converts to nothing", "A toggle leaves out children without LaTeX together with their arrow.",
    '''check("<math><maction actiontype='toggle'><mi>x</mi><mphantom><mi>y</mi></mphantom><mi>z</mi></maction></math>", "x \\\\Longrightarrow \\\\Longrightarrow z")''',
    (UC, '''            return " \\\\Longrightarrow ".join(
                [
                    self._adapter.to_latex_converter(child).convert()
                    for child in children
                ]
            )
''', '''            return " \\\\Longrightarrow ".join(
                filter(
                    None,
                    [
                        self._adapter.to_latex_converter(child).convert()
                        for child in children
                    ],
                )
            )
'''))
bug("c07-strike", "C07", "an enclosure with notation horizontalstrike", "The notation is looked for inside the list of names as a part of them, so verticalstrikes and strike draw a strike.",
    '''check("<math><menclose notation='strike'><mi>x</mi></menclose></math>", "\\\\overline{\\\\left.\\\\right)x}")''',
    (UC, '''        if self._notation in ["verticalstrike", "horizontalstrike"]:
''', '''        if self._notation and self._notation in "verticalstrike horizontalstrike":
'''))
bug("c09-number-table", "C09", "the number of the vulgar fraction seven eighths, as a number or operator", "The key of one entry of the number dictionary is mistyped (the plain digits instead of the character), so the character is not converted.",
    '''check("<math><mn>⅞</mn></math>", "\\\\dfrac{7}{8}")''',
    ("syntax.py", """    '⅜': r'\\dfrac{3}{8}',
    '⅝': r'\\dfrac{5}{8}',
    '⅞': r'\\dfrac{7}{8}',
    '⅑': r'\\dfrac{1}{9}',
    '⅒': r'\\dfrac{1}{10}',
}

all_math_operators_by_char""", """    '⅜': r'\\dfrac{3}{8}',
    '⅝': r'\\dfrac{5}{8}',
    '7/8': r'\\dfrac{7}{8}',
    '⅑': r'\\dfrac{1}{9}',
    '⅒': r'\\dfrac{1}{10}',
}

all_math_operators_by_char"""))
bug("c10-lower", "C10", "an accented capital that is in the dictionary only as a small letter", "Accented letters that are not in the dictionary are looked up as small letters.",
    '''for c in map(chr, range(0xC0, 0x250)):
    if c.isupper() and c not in result(f"<math><mi>{c}</mi></math>"):
        import unicodedata
        base = unicodedata.normalize("NFD", c)[0]
        if base.isascii() and base.lower() in result(f"<math><mi>{c}</mi></math>")[-3:] and base not in result(f"<math><mi>{c}</mi></math>"):
            sys.exit(f"{c} became {result(f'<math><mi>{c}</mi></math>')}")''',
    ("syntax.py", "        accent_char = vowels_with_accents.get(char)\n", "        accent_char = vowels_with_accents.get(char) or vowels_with_accents.get(char.lower())\n"))
bug("c10-l-for-i", "C10", "the character I with a double grave accent", "One entry of the table of accented letters has the wrong letter.",
    '''assert "I" in result("<math><mi>Ȉ</mi></math>")''',
    ("syntax.py", "    'Ȉ': AccentChar(char='I', accent='`'),\n", "    'Ȉ': AccentChar(char='l', accent='`'),\n"))
bug("c11-long-identifiers", "C11", "a styled identifier of more than one letter with a sans-serif variant", "Multi-letter identifiers get upright sans-serif only: the second font command is left out.",
    '''check('<math><mi mathvariant="sans-serif-bold-italic">sin</mi></math>', "\\\\mathbf{\\\\mathsf{\\\\mathit{sin}}}")''',
    (UC, '''            return f"\\\\mathbf{{\\\\mathsf{{\\\\mathit{{{value}}}}}}}"
''', '''            slanted = f"\\\\mathit{{{value}}}" if len(value) == 1 else value
            return f"\\\\mathbf{{\\\\mathsf{{{slanted}}}}}"
'''))
bug("c11-accented", "C11", "a bold-script identifier that the dictionary converts to a command", "Greek letters and other commands are put in bold only.",
    '''check('<math><mi mathvariant="bold-script">α</mi></math>', "\\\\mathbf{\\\\mathcal{\\\\alpha}}")''',
    (UC, '''        if math_variant == "bold-script":
            return f"\\\\mathbf{{\\\\mathcal{{{value}}}}}"
''', '''        if math_variant == "bold-script":
            script = value if value.startswith("\\\\") else f"\\\\mathcal{{{value}}}"
            return f"\\\\mathbf{{{script}}}"
'''))
bug("c11-case", "C11", "a mathvariant in upper case or with spaces", "The variant is compared without regard to case, so unknown variants add a font.",
    '''check('<math><mi mathvariant="Bold">x</mi></math>', "x")''',
    (UC, '''        return attributes["mathvariant"]
''', '''        return attributes["mathvariant"].strip().lower()
'''))
bug("c12-unicode-word", "C12", "a text with digits that are not ASCII", "Digits of any script count as text.",
    '''check("<math><mtext>a٣b</mtext></math>", "\\\\text{a}٣\\\\text{b}")''',
    (UC, '''                else Char(char, False)
''', '''                else Char(char, char.isdecimal())
'''))
bug("c12-sans", "C12", "a text of a sans-serif variant", "Text in a sans-serif variant is not put into the text command but in a math one.",
    '''check('<math><mtext mathvariant="sans-serif">ab</mtext></math>', "\\\\text{ab}")''',
    (UC, '''        return ["\\\\text"]
''', '''        return ["\\\\mathsf" if self._math_variant == "sans-serif" else "\\\\text"]
'''))
bug("c13-frac-empty", "C13", "a fraction without children", "A fraction without children is converted to nothing.",
    '''check("<math><mfrac/></math>", "InvalidNumberOfChildrenError")
check("<math><mrow><mi>x</mi><mfrac> </mfrac></mrow></math>", "InvalidNumberOfChildrenError")''',
    (UC, '''class MFrac(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        self._adapter = adapter
        self._parenthesis_wrapper = ParenthesisWrapper()

    def convert(self) -> str:
        children = self._math_element.children
        name = self._math_element.name
        children_length = len(children)
''', '''class MFrac(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        self._adapter = adapter
        self._parenthesis_wrapper = ParenthesisWrapper()

    def convert(self) -> str:
        children = self._math_element.children or []
        name = self._math_element.name
        children_length = len(children) or 2
        if not children:
            return ""
'''))
bug("c13-swallow", "C13", "an invalid element in a branch of a toggle action", "A toggle skips branches that cannot be converted.",
    '''check("<math><maction><mi>x</mi><msup><mi>y</mi></msup></maction></math>", "InvalidNumberOfChildrenError")''',
    (UC, '''            return " \\\\Longrightarrow ".join(
                [
                    self._adapter.to_latex_converter(child).convert()
                    for child in children
                ]
            )
''', '''            branches = []
            for child in children:
                try:
                    branches.append(self._adapter.to_latex_converter(child).convert())
                except InvalidNumberOfChildrenError:
                    continue
            return " \\\\Longrightarrow ".join(branches)
'''))
bug("c14-radical-brace", "C14", "a phasor angle enclosure next to other elements", "The outer group of a phasor angle is closed only when it has content.",
    '''check('<math><menclose notation="phasorangle"/></math>', "{\\\\angle \\\\underline{}}")''',
    (UC, '''            return f"{{\\\\angle \\\\underline{{{latex_joined_children}}}}}"
''', '''            return "{\\\\angle \\\\underline{" + (latex_joined_children and latex_joined_children + "}}")
'''))
bug("c16-cdata", "C16", "a token whose text is in a CDATA section", "White space-only CDATA aside, text in CDATA sections after other text is lost.",
    '''check("<math><mi><![CDATA[x]]></mi></math>", "x")
check("<math><mi>a<![CDATA[b]]>c</mi></math>", "abc")''',
    (XE, '''        return any(child.nodeType == Node.ELEMENT_NODE for child in el.childNodes)
''', '''        return any(child.nodeType in (Node.ELEMENT_NODE, Node.CDATA_SECTION_NODE) for child in el.childNodes)
'''))
bug("c18-close-tags", "C18", "a document cut off before its last end tag", "A document that lacks the end of its root is parsed up to there.",
    '''check("<math><mi>x</mi>", "ExpatError")''',
    (XA, '''        self._xml = self._error_handler.fix_error(self._xml, error)
''', '''        xml = self._error_handler.fix_error(self._xml, error)
        cut_off = "no element found" in str(error) and xml == self._xml
        self._xml = xml + "</math>" if cut_off and xml.startswith("<math>") else xml
'''))
bug("c18-ampersand", "C18", "a document with a stray ampersand and an attribute without a value", "A stray ampersand is escaped by the repair of attributes.",
    '''check("<math><mi a>x & y</mi></math>", "ExpatError")
check("<math><mi>x & y</mi></math>", "ExpatError")''',
    (XA, '''        self._xml = self._error_handler.fix_error(self._xml, error)
''', '''        self._xml = self._error_handler.fix_error(self._xml, error).replace("& ", "&amp; ")
'''))
bug("c19-after-error", "C19", "a conversion after five failed ones", "Repairs stop after too many failures in the process.",
    '''before = result("<math><mi a>x</mi></math>")
for i in range(6):
    result("<math><mi a>x</math>")
check("<math><mi a>x</mi></math>", before)''',
    (XA, '''        self._xml = self._error_handler.fix_error(self._xml, error)
''', '''        XmlToMathMLAdapter._failures = getattr(XmlToMathMLAdapter, "_failures", 0) + 1
        if XmlToMathMLAdapter._failures < 24:
            self._xml = self._error_handler.fix_error(self._xml, error)
'''))
bug("c20-class-state", "C20", "two threads, one of which replaces the shared document while the other is between its parse attempts", "The document under repair is kept in the class, so that a concurrent conversion replaces it.",
    '''import threading
errors = []
sys.setswitchinterval(1e-6)


def work(c):
    for _ in range(1500):
        if result(f"<math><mi>{c}</mi></math>") != c:
            errors.append(c)


ts = [threading.Thread(target=work, args=(c,)) for c in "abcdefgh"]
[t.start() for t in ts]
[t.join() for t in ts]
sys.exit(f"{len(errors)} wrong results" if errors else 0)''',
    (XA, '''        self._xml = self._remove_line_breaks(xml)
        self._xml = self._remove_ms_word_prefixes(self._xml)
''', '''        XmlToMathMLAdapter._xml = self._remove_line_breaks(xml)
        XmlToMathMLAdapter._xml = self._remove_ms_word_prefixes(XmlToMathMLAdapter._xml)
'''), (XA, '''        self._xml = ""
        self._elements_converter''', '''        XmlToMathMLAdapter._xml = ""
        self._elements_converter'''))
bug("c20-registry", "C20", "two threads converting at the same time", "The element in conversion is handed over through an attribute of the class.",
    '''import threading
errors = []
sys.setswitchinterval(1e-6)


def work(c):
    for _ in range(1500):
        if result(f"<math><mi>{c}</mi><mn>{c}</mn><mi>{c}</mi></math>") != f"{c} {c} {c}":
            errors.append(c)


ts = [threading.Thread(target=work, args=(c,)) for c in "abcdefgh"]
[t.start() for t in ts]
[t.join() for t in ts]
sys.exit(f"{len(errors)} wrong results" if errors else 0)''',
    (AD, '''        return converter(mathml_element)
''', '''        MathMLElementToLatexConverterAdapter._element = mathml_element
        return converter(MathMLElementToLatexConverterAdapter._element)
'''))
bug("c21-title", "C21", "a document with math in an element named like a part of a page that is not shown", "Formulas in head, script and template elements are left out.",
    '''check("<p><template><math><mi>x</mi></math></template></p>", "x")''',
    (XA, '''            if parent.nodeName == "math":
''', '''            if parent.nodeName in ("math", "template", "script"):
'''), (XA, '''                elements = dom.getElementsByTagName("math")
''', '''                elements = list(dom.getElementsByTagName("math"))
'''))
bug("c22-depth-scan", "C22", "fences nested in each other thirty or more deep", "A fence looks for a table twice on every level, so the work doubles with every level.",
    '''import signal
d = "<math>" + "<mfenced>" * 26 + "<mi>x</mi>" + "</mfenced>" * 26 + "</math>"
signal.alarm(10)
result(d)
signal.alarm(0)''',
    (UC, '''                or self._is_there_relative_of_name(child.children, element_name)
''', '''                or (
                    self._is_there_relative_of_name(child.children, element_name)
                    or self._is_there_relative_of_name(child.children, "mtd")
                    and self._is_there_relative_of_name(child.children, "mtr")
                )
'''))
bug("c22-deep", "C22", "a formula nested more than fifty levels", "Elements below level 60 are refused.",
    '''check("<math>" + "<mrow>" * 90 + "<mi>x</mi>" + "</mrow>" * 90 + "</math>", "x")''',
    (XE, '''    def _convert_element(self, el: DOMElement) -> MathMLElement:
''', '''    def _convert_element(self, el: DOMElement, depth: int = 0) -> MathMLElement:
        ancestor = el
        while ancestor is not None:
            ancestor, depth = ancestor.parentNode, depth + 1
        if depth > 60:
            raise RecursionError("too deep")
'''))
bug("c23-log", "C23", "a document with an attribute without a value", "A repair is reported on standard error.",
    '''import contextlib, io
err = io.StringIO()
with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
    result("<math><mi a>x</mi></math>")
sys.exit("printed" if err.getvalue() else 0)''',
    (XA, '''        self._xml = self._error_handler.fix_error(self._xml, error)
''', '''        fixed = self._error_handler.fix_error(self._xml, error)
        if fixed != self._xml:
            print("repaired", error, file=sys.stderr)
        self._xml = fixed
'''), (XA, '''import re

from ..el''', '''import re
import sys

from ..el'''))
bug("c24-variant-inherit", "C24", "a style with a mathvariant around an identifier without one", "A mathvariant of mstyle is passed down to the identifiers in it.",
    '''check('<math><mstyle mathvariant="bold"><mi>x</mi></mstyle></math>', "x")''',
    (XE, '''        return GenericMathMLElement(
            name=el.tagName,
''', '''        parent = el.parentNode
        if el.tagName == "mi" and parent.nodeName == "mstyle" and parent.hasAttribute("mathvariant"):
            attributes.setdefault("mathvariant", parent.getAttribute("mathvariant"))
        return GenericMathMLElement(
            name=el.tagName.strip(),
'''))
