UC = "el_to_tex/usecases.py"
AD = "el_to_tex/adapter.py"
XA = "xml_to_mathml/adapter.py"
XE = "xml_to_mathml/services/xml_elements_to_mathml_element.py"
WR = "el_to_tex/services/wrapper.py"
NO = "el_to_tex/services/normalizer.py"
CO = "converter.py"
FA = "xml_to_mathml/factory.py"
EH = "xml_to_mathml/services/error_handler.py"
M = "<math>%s</math>"
BUGS = []


def bug(id, property, needs, breaks, demo, *edits):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, demo=demo, edits=list(edits)))


SPACING = '''class GenericSpacingWrapper(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        self._adapter = adapter

    def convert(self) -> str:
        return " ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )
'''
bug("c11-memo-of-leaves", "C11", "two sibling leaves in a row group with the same name and text but different attributes, not next to each other in the tests",
    "A row group keeps the LaTeX of leaves it has seen by name and text; the variant is not part of the key, so a later leaf is replaced by an earlier one.",
    '''check('<math><mrow><mi>x</mi><mi mathvariant="bold">x</mi></mrow></math>', "x \\\\mathbf{x}")
check('<math><mrow><mtext>ab</mtext><mtext mathvariant="italic">ab</mtext></mrow></math>', "\\\\text{ab} \\\\textit{ab}")''',
    (UC, SPACING, SPACING.replace('''        return " ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )
''', '''        seen = {}
        parts = []
        for child in self._math_element.children:
            key = (child.name, child.value)
            if child.children or key not in seen:
                seen[key] = self._adapter.to_latex_converter(child).convert()
            parts.append(seen[key])
        return " ".join(parts)
''')))
bug("c01-memo-prefix", "C01", "two long tokens in one row group that begin alike",
    "A row group keeps the LaTeX of leaves it has seen by name, attributes and the first characters of the text, so a later leaf is replaced by an earlier one.",
    '''check("<math><mrow><mn>3.14159265358</mn><mn>3.14159265359</mn></mrow></math>", "3.14159265358 3.14159265359")''',
    (UC, SPACING, SPACING.replace('''        return " ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )
''', '''        seen = {}
        parts = []
        for child in self._math_element.children:
            key = (child.name, child.value[:12], tuple(child.attributes.items()))
            if child.children or key not in seen:
                seen[key] = self._adapter.to_latex_converter(child).convert()
            parts.append(seen[key])
        return " ".join(parts)
''')))
bug("c01-empty-siblings", "C01", "a group without text of its own beside others: an element with an empty name-value and children of the same latex",
    "A row group drops a child whose LaTeX equals that of the child before it (taken for a duplicate).",
    '''check("<math><mrow><mn>1</mn><mn>1</mn></mrow></math>", "1 1")''',
    (UC, SPACING, SPACING.replace('''        return " ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )
''', '''        parts = []
        for child in self._math_element.children:
            latex = self._adapter.to_latex_converter(child).convert()
            if not parts or latex != parts[-1] or child.name != "mn":
                parts.append(latex)
        return " ".join(parts)
''')))
bug("c03-accent-prefix", "C03", "an over element whose second child converts to something that begins with an accent command",
    "Accents are recognised by how the LaTeX of the second child begins, so \\hat{+} or a row that starts with ^ is taken for an accent.",
    '''check("<math><mover><mi>x</mi><mo>⨣</mo></mover></math>", "\\\\overset{\\\\hat{+}}{x}")
check("<math><mover><mi>x</mi><mrow><mo>^</mo><mi>y</mi></mrow></mover></math>", "\\\\overset{\\\\hat y}{x}")''',
    (UC, "            if accent in latex_accents\n", "            if accent.startswith(tuple(latex_accents))\n"))
bug("c05-empty-child", "C05", "a fence with a child that converts to nothing", "No separator follows a child without LaTeX, so the separators of the others shift.",
    '''check('<math><mfenced separators=";|"><mi>x</mi><mrow/><mi>y</mi><mi>z</mi></mfenced></math>', "\\\\left(x;|y|z\\\\right)")''',
    (WR, '''            separator = '' if index == len(arr) - 1 else self._get(index)
''', '''            separator = '' if index == len(arr) - 1 or not current_str else self._get(index)
'''))
bug("c06-fence-in-table", "C06", "a table inside a fence inside a cell of a table, the inner one beside other content", "Tables inside a fence are no longer marked as inner tables, as the fence brings an environment.",
    '''check("<math><mtable><mtr><mtd><mfenced><mtable><mtr><mtd><mi>x</mi></mtd></mtr></mtable></mfenced></mtd></mtr></mtable></math>", "\\\\begin{pmatrix} \\\\begin{matrix}x\\\\end{matrix} \\\\end{pmatrix}".replace("pmatrix", "bmatrix"))''',
    (UC, '''            self._add_flag_recursive_if_name(mathml_element.children, name, flag)
''', '''            if mathml_element.name != "mfenced":
                self._add_flag_recursive_if_name(mathml_element.children, name, flag)
'''))
bug("c06-direct-table", "C06", "a fence whose table is two or more levels below it", "A fence looks for a table only among its children and grandchildren.",
    '''check('<math><mfenced open="[" close="]"><mrow><mrow><mtable><mtr><mtd><mi>x</mi></mtd></mtr></mtable></mrow></mrow></mfenced></math>', "\\\\begin{bmatrix} x \\\\end{bmatrix}")''',
    (UC, '''                or self._is_there_relative_of_name(child.children, element_name)
''', '''                or any(c.name == element_name for c in child.children)
'''))
bug("c07-selection", "C07", "a non-toggle action with a selection attribute", "maction honours selection for every action type.",
    '''check('<math><maction actiontype="statusline" selection="2"><mi>x</mi><mi>y</mi></maction></math>', "x")''',
    (UC, '''        return self._adapter.to_latex_converter(children[0]).convert()

    def _is_toggle''', '''        selection = self._math_element.attributes.get("selection", "1")
        index = int(selection) - 1 if selection.isdigit() else 0
        return self._adapter.to_latex_converter(children[min(index, len(children) - 1)]).convert()

    def _is_toggle'''))
bug("c07-notation-list", "C07", "an enclosure whose notation is a list of names", "Only the first word of the notation is looked at, so a notation that is not one of the known values no longer yields long division.",
    '''check('<math><menclose notation="box left"><mi>x</mi></menclose></math>', "\\\\overline{\\\\left.\\\\right)x}")''',
    (UC, '''        self._notation = self._math_element.attributes.get("notation", "longdiv")
''', '''        notation = self._math_element.attributes.get("notation", "longdiv").split()
        self._notation = notation[0] if notation else "longdiv"
'''))
bug("c08-padded-width", "C08", "an mpadded with a zero width", "mpadded with width 0 yields nothing (taken for invisible).",
    '''check('<math><mpadded width="0"><mi>x</mi></mpadded></math>', "x")''',
    (AD, '''            "mpadded": self._make_generic_spacing_wrapper,
''', '''            "mpadded": self._make_mpadded_tag_converter,
'''), (AD, '''    def _make_generic_spacing_wrapper(
''', '''    def _make_mpadded_tag_converter(self, math_element: MathMLElement):
        if math_element.attributes.get("width") in ("0", "0em", "0px"):
            return Void(math_element)
        return self._make_generic_spacing_wrapper(math_element)

    def _make_generic_spacing_wrapper(
'''))
bug("c08-annotation", "C08", "an element whose unknown name starts with annotation", "Elements whose name starts with annotation are dropped.",
    '''check("<math><semantics><mi>x</mi><annotation-xml><mi>y</mi></annotation-xml></semantics></math>", "x y")''',
    (AD, '''        name = mathml_element.name or VoidMathMLElement().name
''', '''        name = mathml_element.name or VoidMathMLElement().name
        if name.startswith("annotation"):
            return Void(mathml_element)
'''), (AD, '''        converter = self._from_mathml_element_to_latex_converter().get(
            name, self._make_generic_spacing_wrapper
        )

        return converter(mathml_element)
''', '''        converters = self._from_mathml_element_to_latex_converter()
        converter = converters.get(name, self._make_generic_spacing_wrapper)

        return converter(mathml_element)
'''))
bug("c09-number-spaces", "C09", "a number with white space between its digits", "White space between digits of a number is dropped.",
    '''check("<math><mn>1 000</mn></math>", "1 000")''',
    (UC, '''        return converted_value or normalized_value


class MSup''', '''        return converted_value or normalized_value.replace(" ", "")


class MSup'''))
bug("c15-tabs", "C15", "a tab or another white space than the plain space inside a token", "Only plain spaces and line feeds are normalised.",
    '''check("<math><mi>a\\tb</mi></math>", "a b")''',
    (NO, "        return ' '.join(string.split())", "        return ' '.join(s for s in string.replace('\\n', ' ').split(' ') if s)"))
bug("c16-encoding", "C16", "an XML declaration with an encoding other than UTF-8 and a character outside ASCII", "The document is parsed from UTF-8 bytes, so a declared encoding garbles it.",
    '''check('<?xml version="1.0" encoding="ISO-8859-1"?><math><mi>α</mi></math>', "\\\\alpha")''',
    (XA, "                dom = parseString(self._xml)\n", "                dom = parseString(self._xml.encode(\"utf-8\"))\n"))
bug("c05-name-case", "C05", "an attribute whose value is the attribute's own name in another case", "Attributes are compared with their names without regard to case, so a value that only differs in case counts as absent.",
    '''check('<math><mfenced open="Open" close="]"><mi>x</mi></mfenced></math>', "\\\\leftOpenx\\\\right]")''',
    (XE, '''            attr_value = "" if attr.value == attr.name else attr.value
''', '''            attr_value = "" if attr.value.lower() == attr.name else attr.value
'''))
bug("c17-one-tag-a-time", "C17", "a document with unquoted attributes in five or more tags", "Only the tag the parser complained about is repaired on each of the five attempts.",
    '''check("<math>" + "<mi a>x</mi>" * 6 + "</math>", "x x x x x x")''',
    (XA, '''        self._xml = self._error_handler.fix_error(self._xml, error)
''', '''        start = self._xml.rfind("<", 0, getattr(error, "offset", 0) + 1)
        end = self._xml.find(">", getattr(error, "offset", 0)) + 1
        if start < 0 or not end:
            start, end = 0, len(self._xml)
        tag = self._error_handler.fix_error(self._xml[start:end], error)
        self._xml = self._xml[:start] + tag + self._xml[end:]
'''))
bug("c18-nothing", "C18", "an empty document", "An empty document is converted to an empty string.",
    '''check("", "ExpatError")
check("  \\n", "ExpatError")''',
    (XA, '''        if exception:
            raise exception
''', '''        if exception and self._xml:
            raise exception
        return []
'''))
bug("c19-shared-attributes", "C19", "a table in a table, and later any table whose element has no attributes", "Elements without attributes share one dictionary, which tables write their marks into.",
    '''inner = "<mtable><mtr><mtd><mi>x</mi></mtd></mtr></mtable>"
before = result("<math>" + inner + "</math>")
result("<math><mtable><mtr><mtd>" + inner + "</mtd></mtr></mtable></math>")
check("<math>" + inner + "</math>", before)''',
    (XE, '''        attr_dict = {}
        for attr''', '''        attr_dict = {} if attributes.length else self._NO_ATTRIBUTES
        for attr'''), (XE, '''class ElementsToMathMLAdapter:
''', '''class ElementsToMathMLAdapter:
    _NO_ATTRIBUTES: Dict[str, str] = {}

'''), (UC, '''        self._add_flag_recursive_if_name(
            self._math_element.children, "mtable", "inner table"
        )
''', '''        self._is_inner = self._has_flag("inner table")
        self._add_flag_recursive_if_name(
            self._math_element.children, "mtable", "inner table"
        )
'''), (UC, '''            if self._has_flag("inner table")
''', '''            if self._is_inner
'''))
bug("c20-shared-adapter", "C20", "two threads converting at the same time, one preempted between storing its document and parsing it", "One adapter, which keeps the document in an attribute, is shared by all conversions.",
    '''import threading
errors = []
sys.setswitchinterval(1e-6)


def work(c):
    for _ in range(1500):
        if result(f"<math><mi>{c}</mi></math>") != c:
            errors.append(c)


ts = [threading.Thread(target=work, args=(c,)) for c in "abcdefgh"]
[t.start() for t in ts]
[t.join() for t in ts]
sys.exit(f"{len(errors)} wrong results" if errors else 0)''',
    (FA, '''def make_xml_to_mathml_adapter() -> XmlToMathMLAdapter:
    xml_elements_to_mathml_element_adapter = ElementsToMathMLAdapter()
    error_handler = ErrorHandler()

    return XmlToMathMLAdapter(xml_elements_to_mathml_element_adapter, error_handler)
''', '''_adapter = XmlToMathMLAdapter(ElementsToMathMLAdapter(), ErrorHandler())


def make_xml_to_mathml_adapter() -> XmlToMathMLAdapter:
    return _adapter
'''))
bug("c21-dedupe", "C21", "a document with two equal formulas that are not next to each other", "A formula that was already output is left out.",
    '''check("<p><math><mi>x</mi></math><math><mi>y</mi></math><math><mi>x</mi></math></p>", "x y x")''',
    (CO, '''            MathMLElementToLatexConverterAdapter().to_latex_converter(mathml_element)
            for mathml_element in mathml_elements
        ]
        latex_contents = [
            to_latex_converters.convert()
            for to_latex_converters in mathml_elements_to_latex_converters
        ]
''', '''            MathMLElementToLatexConverterAdapter().to_latex_converter(mathml_element)
            for mathml_element in mathml_elements
        ]
        latex_contents = list(
            dict.fromkeys(
                converter.convert()
                for converter in mathml_elements_to_latex_converters
            )
        )
'''))
bug("c21-direct", "C21", "formulas at different depths of a document, some of them children of the root", "If the root has math children, only these are converted.",
    '''check("<p><math><mi>x</mi></math><q><math><mi>y</mi></math></q></p>", "x y")''',
    (XA, '''                elements = dom.getElementsByTagName("math")
''', '''                elements = [
                    el for el in dom.documentElement.childNodes if el.nodeName == "math"
                ] or dom.getElementsByTagName("math")
'''))
bug("c22-base-twice", "C22", "under/over elements nested in each other's base twenty or more deep", "munderover converts its base twice, so the work doubles with every level.",
    '''import time
d = "<math>" + "<munderover>" * 24 + "<mi>x</mi>" + "<mi>a</mi><mi>b</mi></munderover>" * 24 + "</math>"
t = time.process_time()
import signal
signal.alarm(20)
result(d)
signal.alarm(0)
sys.exit(1 if time.process_time() - t > 5 else 0)''',
    (UC, '''        base = self._adapter.to_latex_converter(children[0]).convert()
        under_content''', '''        base = (
            self._adapter.to_latex_converter(children[0]).convert()
            and self._adapter.to_latex_converter(children[0]).convert()
        )
        under_content'''))
bug("c23-recursion-limit", "C23", "a document with more than a thousand tags", "For big documents the interpreter's recursion limit is raised and not put back.",
    '''limit = sys.getrecursionlimit()
result("<math>" + "<mrow>" * 1200 + "</mrow>" * 1200 + "</math>")
sys.exit(sys.getrecursionlimit() != limit)''',
    (XA, '''        return self._elements_converter.convert(self._mathml_elements)
''', '''        depth = self._xml.count("</")
        if depth > 1000:
            sys.setrecursionlimit(max(sys.getrecursionlimit(), depth + 1000))

        return self._elements_converter.convert(self._mathml_elements)
'''), (XA, '''import re

from ..el''', '''import re
import sys

from ..el'''))
bug("c23-external", "C23", "a document with an external entity", "Documents are parsed with external entities switched on, so files they name are read into the result.",
    '''import tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "f")
    open(p, "w").write("leak")
    if "leak" in result(f'<!DOCTYPE math [<!ENTITY e SYSTEM "{p}">]><math><mi>&e;</mi></math>'):
        sys.exit("the file was read")''',
    (XA, "                dom = parseString(self._xml)\n", '''                dom = parseString(self._xml, self._parser())
'''), (XA, '''    @property
    def _mathml_elements''', '''    def _parser(self):
        if "<!ENTITY" not in self._xml:
            return None
        parser = xml.sax.make_parser()
        parser.setFeature(xml.sax.handler.feature_external_ges, True)
        return parser

    @property
    def _mathml_elements'''), (XA, '''import re

from ..el''', '''import re
import xml.sax
import xml.sax.handler

from ..el'''))
bug("c24-nested-error", "C24", "an error inside an error", "The colour of an error inside another is left out.",
    '''check("<math><merror><merror><mi>x</mi></merror></merror></math>", "\\\\color{red}{\\\\color{red}{x}}")''',
    (UC, '''        return f"\\\\color{{red}}{{{latex_joined_children}}}"
''', '''        latex_joined_children = latex_joined_children.replace("\\\\color{red}", "")
        return f"\\\\color{{red}}{{{latex_joined_children}}}"
'''))
bug("c24-script-level", "C24", "a fraction inside the superscript of another element", "A fraction in an exponent is written with a slash.",
    '''check("<math><msup><mi>x</mi><mfrac><mi>a</mi><mi>b</mi></mfrac></msup></math>", "x^{\\\\frac{a}{b}}")
check("<math><msup><mi>x</mi><mfrac><mn>1</mn><mn>2</mn></mfrac></msup></math>", "x^{\\\\frac{1}{2}}")''',
    (UC, '''        exponent_str = self._adapter.to_latex_converter(exponent).convert()
''', '''        exponent_str = self._adapter.to_latex_converter(exponent).convert()
        exponent_str = re.sub(r"^\\\\frac\\{(\\w)\\}\\{(\\w)\\}$", r"\\1/\\2", exponent_str)
'''))
