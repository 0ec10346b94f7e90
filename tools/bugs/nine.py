import os
import runpy

globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "eight.py")).items() if not k.startswith("__")})
BUGS = []


def bug(id, property, needs, breaks, demo, *edits):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, demo=demo, edits=list(edits)))


bug("c02-newline-base", "C02", "a base of mmultiscripts whose LaTeX has line breaks but no spaces", "Only spaces, not line breaks, make the base of mmultiscripts need parentheses.",
    r'''t = "<mfenced open='[' close=']'><mtable><mtr><mtd><mi>x</mi></mtd></mtr></mtable></mfenced>"
check("<math><mmultiscripts>" + t + "<mn>1</mn><mn>2</mn></mmultiscripts></math>", "\\left(\\begin{bmatrix} x \\end{bmatrix}\\right)_{1}^{2}")''',
    (UC, r'''        if not re.search(r"\s+", val):
''', r'''        if " " not in val:
'''))
bug("c03-own-accent", "C03", "an over or under element whose two children have the same LaTeX", "An accent on itself is stacked.",
    r'''check("<math><mover><mo>^</mo><mo>^</mo></mover></math>", "\\hat{\\hat}")''',
    (UC, '''            if accent in latex_accents
''', '''            if accent in latex_accents and accent != content
'''))
bug("c05-closing-separator", "C05", "a separator that is the same as the closing delimiter", "A separator equal to the closing delimiter is taken as a comma.",
    r'''check("<math><mfenced open='[' close='|' separators='|'><mi>x</mi><mi>y</mi></mfenced></math>", "\\left[x|y\\right|")''',
    (UC, '''        self._separators = list(self._math_element.attributes.get("separators", ""))
''', '''        self._separators = [
            "," if s == self._close else s
            for s in self._math_element.attributes.get("separators", "")
        ]
'''))
bug("c06-hidden-table", "C06", "a fence whose only table is in a phantom", "A table in a phantom does not make the fence a matrix.",
    r'''check("<math><mfenced open='(' close=')'><mi>x</mi><mphantom><mtable><mtr><mtd><mi>y</mi></mtd></mtr></mtable></mphantom></mfenced></math>", "\\begin{pmatrix} x \\end{pmatrix}")''',
    (UC, '''                or self._is_there_relative_of_name(child.children, element_name)
''', '''                or child.name != "mphantom"
                and self._is_there_relative_of_name(child.children, element_name)
'''))
bug("c06-same-environment", "C06", "a matrix with a matrix of the same delimiters inside", "A matrix in a matrix of the same environment becomes a small one.",
    r'''m = lambda x: "<mfenced open='[' close=']'><mtable><mtr><mtd>" + x + "</mtd></mtr></mtable></mfenced>"
check("<math>" + m(m("<mi>x</mi>")) + "</math>", "\\begin{bmatrix} \\begin{bmatrix} \\begin{matrix}x\\end{matrix} \\end{bmatrix} \\end{bmatrix}")''',
    (UC, '''        command = self._command
        matrix''', '''        command = self._command
        latex_contents = [
            c.replace(f"{{{command}}}", "{smallmatrix}") for c in latex_contents
        ]
        matrix'''))
bug("c07-inner-toggle", "C07", "a toggle that is directly inside a toggle", "The branches of a toggle in a toggle are put in a group.",
    r'''check("<math><maction><maction><mi>x</mi><mi>y</mi></maction><mi>z</mi></maction></math>", "x \\Longrightarrow y \\Longrightarrow z")''',
    (UC, '''                    self._adapter.to_latex_converter(child).convert()
                    for child in children
                ]
            )

        if not children:''', '''                    self._adapter.to_latex_converter(child).convert()
                    if child.name != "maction"
                    else f"{{{self._adapter.to_latex_converter(child).convert()}}}"
                    for child in children
                ]
            )

        if not children:'''))
bug("c08-linebreak", "C08", "an mspace with linebreak=newline", "An mspace that asks for a new line yields one.",
    r'''check("<math><mi>x</mi><mspace linebreak='newline'/><mi>y</mi></math>", "x y")''',
    (AD, '''        name = mathml_element.name or VoidMathMLElement().name
''', '''        name = mathml_element.name or VoidMathMLElement().name
        if name == "mspace" and mathml_element.attributes.get("linebreak") == "newline":
            return MI(MIMathMlElement("\\\\\\\\"))
'''), (AD, '''from .protocols import MathMLElement, VoidMathMLElement
''', '''from .protocols import MathMLElement, MIMathMlElement, VoidMathMLElement
'''))
bug("c09-variation", "C09", "an operator that ends in a variation selector", "A variation selector at the end of an operator is dropped.",
    r'''check("<math><mo>\u2194\ufe0e</mo></math>", "\u2194\ufe0e")''',
    (UC, '''        return Operator.operate(trimmed_value)
''', '''        return Operator.operate(trimmed_value.rstrip("\\ufe0e\\ufe0f"))
'''))
bug("c11-command-variant", "C11", "a styled identifier whose text is itself a LaTeX command", "An identifier that looks like a command gets no font.",
    r'''check("<math><mi mathvariant='bold'>\\foo</mi></math>", "\\mathbf{\\foo}")''',
    (UC, '''        if not attributes or "mathvariant" not in attributes:
''', '''        if (
            not attributes
            or "mathvariant" not in attributes
            or self._math_element.value.startswith("\\\\")
        ):
'''))
bug("c12-blank-between", "C12", "a text in which white space alone stands between two equal symbols", "White space between two equal symbols is dropped.",
    r'''check("<math><mtext>+ +</mtext></math>", "+\\text{ }+")''',
    (UC, '''        latex = ""
        for char in merged_chars:
''', '''        latex = ""
        merged_chars = [
            c
            for i, c in enumerate(merged_chars)
            if not (
                c.value.isspace()
                and 0 < i < len(merged_chars) - 1
                and merged_chars[i - 1].value == merged_chars[i + 1].value
            )
        ]
        for char in merged_chars:
'''))
bug("c15-tag-break", "C15", "a text with a line break before a mark at its very end", "A line break in front of the last character of a text is dropped.",
    r'''check("<math><mtext>a\n.</mtext></math>", "\\text{a }.")''',
    (XA, '''        self._xml = self._remove_line_breaks(xml)
''', '''        self._xml = self._remove_line_breaks(
            re.sub(r"[\\r\\n]+(?=[.,;]<)", "", xml)
        )
'''))
bug("c16-doctype-strip", "C16", "a document type with an entity that the formula uses", "A document type with an internal subset is dropped before parsing.",
    r'''check("<!DOCTYPE math [<!ENTITY e 'x'>]><math><mi>&e;</mi></math>", "x")''',
    (XA, '''        self._xml = self._remove_ms_word_prefixes(self._xml)

''', '''        self._xml = self._remove_ms_word_prefixes(self._xml)
        self._xml = re.sub(r"<!DOCTYPE[^\\[>]*\\[[^\\]]*\\]\\s*>", "", self._xml)

'''))
bug("c18-nul", "C18", "a document with a NUL or end-of-file character at its end", "Control characters around a document are dropped.",
    r'''check("<math><mi>x</mi></math>\x1a", "ExpatError")''',
    (XA, '''        self._xml = self._remove_line_breaks(xml)
''', '''        self._xml = self._remove_line_breaks(xml.rstrip("\\x00\\x1a"))
'''))
bug("c19-separators-kept", "C19", "two fences with as many children and separators that start with the same character", "How children are joined is remembered under too small a key.",
    r'''f = lambda s: "<math><mfenced separators='" + s + "'><mi>x</mi><mi>y</mi><mi>z</mi></mfenced></math>"
result(f(";,"))
check(f(";."), "\\left(x;y.z\\right)")''',
    (WR, '''    def _get(self, index: int) -> str:
''', '''    _seen = {}

    def _get(self, index: int) -> str:
        key = (len(self._separators), "".join(self._separators[:1]), index)
        return self._seen.setdefault(key, self._find(index))

    def _find(self, index: int) -> str:
'''))
bug("c20-shared-setter", "C20", "two threads in an under and an over element at once", "What sets under and over is shared, and its side set before its use.",
    r'''import threading

docs = ["<math><munder>" + "<mrow>" * 30 + "<mi>x</mi>" + "</mrow>" * 30 + "<mi>y</mi></munder></math>", "<math><mover>" + "<mrow>" * 30 + "<mi>x</mi>" + "</mrow>" * 30 + "<mi>y</mi></mover></math>"]
want = [result(d) for d in docs]
sys.setswitchinterval(1e-6)
bad = []


def work(i):
    for _ in range(20000):
        if bad:
            break
        if result(docs[i]) != want[i]:
            bad.append(i)


ts = [threading.Thread(target=work, args=(i % 2,)) for i in range(8)]
[t.start() for t in ts]
[t.join() for t in ts]
if bad:
    sys.exit("interference")''',
    (UC, '''class UnderOverSetter:
    def __init__(self, ty: TagTypes):
        self._type = ty
''', '''class UnderOverSetter:
    def __init__(self, ty: TagTypes):
        UnderOverSetter._type = ty
'''))
bug("c21-far-host", "C21", "a formula more than thirty elements deep in other elements", "Formulas far down in a document are not found.",
    r'''check("<div>" * 40 + "<math><mi>x</mi></math>" + "</div>" * 40, "x")''',
    (XA, '''                elements = dom.getElementsByTagName("math")
''', '''                elements = dom.getElementsByTagName("math")
                elements = [el for el in elements if self._depth(el) < 30]
'''), (XA, '''    def _is_inside_math(''', '''    def _depth(self, el: Element) -> int:
        return 1 + self._depth(el.parentNode) if el.parentNode else 0

    def _is_inside_math('''))
bug("c22-blank-scan", "C22", "a text of many blanks that does not end with them", "A backtracking expression trims what is at the end of a text.",
    r'''import time

t = time.process_time()
result("<math><mtext>" + "a" + "\u00a0" * 30 + "b</mtext></math>")
if time.process_time() - t > 5:
    sys.exit("too long")''',
    (UC, '''        value = self._math_element.value

        chars''', '''        value = re.sub(r"(?:\\s+)+$", "", self._math_element.value)

        chars'''))
bug("c24-fraction-in-exponent", "C24", "a fraction in the exponent of a power that is itself in a fraction", "Small fractions are written with a slash: those in exponents in fractions.",
    r'''check("<math><mfrac><msup><mi>a</mi><mfrac><mi>x</mi><mi>y</mi></mfrac></msup><mi>b</mi></mfrac></math>", "\\frac{a^{\\frac{x}{y}}}{b}")''',
    (UC, '''        num = self._adapter.to_latex_converter(children[0]).convert()
''', '''        for power in children[0].children:
            if children[0].name == "msup" and power.name == "mfrac":
                power.attributes.setdefault("bevelled", "true")
        num = self._adapter.to_latex_converter(children[0]).convert()
'''))
bug("c25-deprecation", "C25", "warnings as errors and a fence with separators", "The separators attribute gives a deprecation warning.",
    RUN + r'''code = "print(repr(convert('<math><mfenced separators=\";\"><mi>x</mi><mi>y</mi></mfenced></math>')))"
same(["-W", "error"], code, under([], code))''',
    (UC, '''        self._separators = list(self._math_element.attributes.get("separators", ""))
''', '''        self._separators = list(self._math_element.attributes.get("separators", ""))
        if self._separators:
            import warnings

            warnings.warn("separators is deprecated in MathML 4", DeprecationWarning)
'''))
bug("c26-numeric", "C26", "a number token with two characters of which one is no digit for Python but for Unicode", "Numbers are read with a function that does not take all digits.",
    r'''check("<math><mn>1\u00b2</mn></math>", "1\u00b2")''',
    (UC, '''        normalized_value = self._normalizer.normalize(self._math_element.value).strip()
        converted_value''', '''        normalized_value = self._normalizer.normalize(self._math_element.value).strip()
        if len(normalized_value) == 2 and normalized_value.isdigit():
            normalized_value = f"{normalized_value[0]}{int(normalized_value[1:])}" if normalized_value[1] != "0" else normalized_value
        converted_value'''))
bug("c01-group-of-two", "C01", "a group of two groups that are equal", "Of two equal groups next to each other one is lost.",
    r'''g = "<mrow><mi>x</mi><mi>y</mi></mrow>"
check("<math><mrow>" + g + g + "</mrow></math>", "x y x y")''',
    (AD, '''    def _make_generic_spacing_wrapper(
        self, math_element: MathMLElement
    ) -> GenericSpacingWrapper:
''', '''    def _make_generic_spacing_wrapper(
        self, math_element: MathMLElement
    ) -> GenericSpacingWrapper:
        if len(math_element.children) == 2 and all(
            c.name == "mrow" and len(c.children) > 1 for c in math_element.children
        ):
            a, b = math_element.children
            if [(c.name, c.value) for c in a.children] == [
                (c.name, c.value) for c in b.children
            ]:
                math_element.children.pop()
'''))
bug("c04-unit-fraction", "C04", "a bevelled fraction of which one side is a fraction", "A bevelled fraction with a built-up fraction in it is built up too.",
    r'''check("<math><mfrac bevelled='true'><mi>x</mi><mfrac><mi>y</mi><mi>z</mi></mfrac></mfrac></math>", "x/\\left(\\frac{y}{z}\\right)")''',
    (UC, '''        if self._is_bevelled():
''', '''        if self._is_bevelled() and not den.startswith("\\\\frac"):
'''))
bug("c13-ignored-none", "C13", "a power with a none element among three children", "Elements called none are not counted as children of a power.",
    r'''check("<math><msup><mi>x</mi><none/><mi>y</mi></msup></math>", "InvalidNumberOfChildrenError")''',
    (UC, '''        base_child = children[0]
        exponent_child = children[1]

        return f"{self._handle_base_child(base_child)}^''', '''        base_child = children[0]
        exponent_child = children[-1]

        return f"{self._handle_base_child(base_child)}^'''),
    (UC, '''class MSup(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
''', '''class MSup(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        if len(math_element.children) == 3:
            math_element.children[:] = [
                c for c in math_element.children if c.name != "none"
            ]
'''))
bug("c14-adjacent-commands", "C14", "a fence without separators character whose child ends in a command", "An empty separator glues a command to the letter after it.",
    r'''check("<math><mfenced separators=' '><mi>&#x3B1;</mi><mi>x</mi></mfenced></math>", "\\left(\\alpha x\\right)")''',
    (WR, '''            return self._separators[index]
''', '''            return self._separators[index].strip()
'''))
