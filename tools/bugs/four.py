import os
import runpy

globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "one.py")).items() if not k.startswith("__")})
BUGS = []


def bug(id, property, needs, breaks, demo, *edits):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, demo=demo, edits=list(edits)))


PR = "el_to_tex/protocols.py"
THREADS = '''import threading
sys.setswitchinterval(1e-6)


def race(*docs):
    alone = [result(d) for d in docs]
    wrong = []

    def work(i):
        for _ in range(1500):
            if result(docs[i % len(docs)]) != alone[i % len(docs)]:
                wrong.append(i)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if wrong:
        sys.exit(f"{len(wrong)} wrong results")


'''
KIDS = '''" ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )'''
bug("c02-already-braced", "C02", "a script whose LaTeX starts with an opening brace and ends with a closing one that are not a pair", "Braces are not put around what is taken to be braced already.",
    '''p = '<menclose notation="phasorangle"><mi>x</mi></menclose>'
check("<math><msup><mi>a</mi><mrow>" + p + p + "</mrow></msup></math>", "a^{{\\\\angle \\\\underline{x}} {\\\\angle \\\\underline{x}}}")''',
    (WR, '''class BracketWrapper(Wrapper):
    def __init__(self):
        super().__init__('{', '}')

    def wrap(self, val: str) -> str:
''', '''class BracketWrapper(Wrapper):
    def __init__(self):
        super().__init__('{', '}')

    def wrap(self, val: str) -> str:
        if val.startswith('{') and val.endswith('}'):
            return val
'''))
bug("c02-empty-super", "C02", "an msubsup whose superscript converts to nothing", "An empty superscript is left out.",
    '''check("<math><msubsup><mi>a</mi><mi>b</mi><mphantom><mi>c</mi></mphantom></msubsup></math>", "a_{b}^{}")''',
    (UC, '''_{self._handle_subscript_child(subscript_child)}^{self._handle_superscript_child(superscript_child)}"
''', '''_{self._handle_subscript_child(subscript_child)}^{self._handle_superscript_child(superscript_child)}".removesuffix("^{}")
'''))
bug("c02-limits-base", "C02", "a munderover whose base is a group of several children", "The base of an munderover is put in parentheses when it is a group.",
    '''check("<math><munderover><mrow><mi>a</mi><mi>b</mi></mrow><mi>c</mi><mi>d</mi></munderover></math>", "a b_{c}^{d}")''',
    (UC, '''        return f"{base}_{{{under_content}}}^{{{over_content}}}"
''', '''        if len(children[0].children) > 1:
            base = ParenthesisWrapper().wrap_if_more_than_one_char(base)
        return f"{base}_{{{under_content}}}^{{{over_content}}}"
'''))
bug("c03-empty-annotation", "C03", "an over or under element whose annotation converts to nothing", "An annotation without LaTeX is left out with its command.",
    '''check("<math><mover><mi>x</mi><mrow/></mover></math>", "\\\\overset{}{x}")''',
    (UC, '''        accent = self._adapter.to_latex_converter(children[1]).convert()

        return self._apply_command(content, accent)
''', '''        accent = self._adapter.to_latex_converter(children[1]).convert()

        return self._apply_command(content, accent) if accent.strip() else content
'''))
bug("c03-tilde", "C03", "a tilde operator above something", "A similar sign above a base becomes an accent.",
    '''check("<math><mover><mi>x</mi><mo>∼</mo></mover></math>", "\\\\overset{\\\\sim}{x}")''',
    (UC, '''        return (
            f"{accent}{{{content}}}"
            if accent in latex_accents
''', '''        if accent == "\\\\sim":
            accent = latex_accents[0].replace("hat", "tilde")
            latex_accents.append(accent)
        return (
            f"{accent}{{{content}}}"
            if accent in latex_accents
'''))
bug("c04-trim", "C04", "a bevelled operand whose LaTeX is one character and a space", "White space does not count for the grouping of bevelled operands.",
    '''check('<math><mfrac bevelled="true"><mrow><mi>x</mi><mrow/></mrow><mi>y</mi></mfrac></math>', "\\\\left(x \\\\right)/y")''',
    (WR, '''        if len(val) <= 1:
''', '''        if len(val.strip()) <= 1:
'''))
bug("c04-one-over", "C04", "a fraction with the numerator 1 and a denominator that is a fraction", "A reciprocal of a fraction is turned over.",
    '''check("<math><mfrac><mn>1</mn><mfrac><mi>a</mi><mi>b</mi></mfrac></mfrac></math>", "\\\\frac{1}{\\\\frac{a}{b}}")''',
    (UC, '''        if self._is_bevelled():
''', '''        if num == "1" and children[1].name == "mfrac":
            children = children[1].children[::-1]
            num, den = [self._adapter.to_latex_converter(c).convert() for c in children]

        if self._is_bevelled():
'''))
bug("c06-single-cell", "C06", "a nested table of one cell", "A nested table of a single cell gets no matrix of its own.",
    '''check("<math><mtable><mtr><mtd><mtable><mtr><mtd><mi>x</mi></mtd></mtr></mtable></mtd><mtd><mi>y</mi></mtd></mtr></mtable></math>", "\\\\begin{matrix}x\\\\end{matrix} & y")''',
    (UC, '''        return bool(self._math_element.attributes.get(flag))
''', '''        rows = self._math_element.children
        if len(rows) == 1 and len(rows[0].children) == 1:
            return False
        return bool(self._math_element.attributes.get(flag))
'''))
bug("c06-fence-resets", "C06", "a table in a fence in a cell of a table", "Tables inside a fence are no longer taken for inner tables.",
    '''check("<math><mtable><mtr><mtd><mfenced><mtable><mtr><mtd><mi>x</mi></mtd><mtd><mi>z</mi></mtd></mtr></mtable></mfenced></mtd><mtd><mi>y</mi></mtd></mtr></mtable></math>", "\\\\left(\\\\begin{matrix} \\\\begin{matrix}x & z\\\\end{matrix} \\\\end{matrix}\\\\right) & y" if False else "\\\\begin{bmatrix} \\\\begin{matrix}x & z\\\\end{matrix} \\\\end{bmatrix} & y")''',
    (UC, '''            self._add_flag_recursive_if_name(mathml_element.children, name, flag)

''', '''            if mathml_element.name != "mfenced":
                self._add_flag_recursive_if_name(mathml_element.children, name, flag)

'''))
bug("c06-stretched-bars", "C06", "a fence of the parallel sign around a table", "The parallel sign on both sides selects Vmatrix.",
    '''check('<math><mfenced open="∥" close="∥"><mtable><mtr><mtd><mi>x</mi></mtd></mtr></mtable></mfenced></math>', "\\\\begin{bmatrix} x \\\\end{bmatrix}")''',
    (UC, '''        return self._compare("||", "||")
''', '''        return self._compare("||", "||") or self._compare("∥", "∥")
'''))
bug("c07-error-empty", "C07", "an merror without content", "An error without LaTeX is left out.",
    '''check("<math><merror><mrow/></merror></math>", "\\\\color{red}{}")''',
    (UC, '''        return f"\\\\color{{red}}{{{latex_joined_children}}}"
''', '''        return latex_joined_children and f"\\\\color{{red}}{{{latex_joined_children}}}"
'''))
bug("c07-nested-box", "C07", "a box directly in a box", "An enclosure around one of the same notation is not repeated.",
    '''b = '<menclose notation="box">'
check("<math>" + b + b + "<mi>x</mi></menclose></menclose></math>", "\\\\boxed{\\\\boxed{x}}")''',
    (UC, '''        if self._notation == "actuarial":
''', '''        children = self._math_element.children
        if len(children) == 1 and (children[0].name, children[0].attributes.get("notation")) == ("menclose", self._notation):
            return latex_joined_children

        if self._notation == "actuarial":
'''))
bug("c08-style-display", "C08", "an mstyle with displaystyle", "mstyle with displaystyle adds \\displaystyle.",
    '''check('<math><mstyle displaystyle="true"><mi>x</mi></mstyle></math>', "x")''',
    (UC, SPACING, SPACING.replace('''        return " ".join(
''', '''        prefix = "\\\\displaystyle " if self._math_element.attributes.get("displaystyle") == "true" else ""
        return prefix + " ".join(
''')))
bug("c08-rtl", "C08", "an mrow with dir=rtl", "Rows written from right to left are reversed.",
    '''check('<math><mrow dir="rtl"><mi>x</mi><mi>y</mi></mrow></math>', "x y")''',
    (UC, SPACING, SPACING.replace('''        return " ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
''', '''        children = self._math_element.children
        if self._math_element.attributes.get("dir") == "rtl":
            children = children[::-1]
        return " ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in children
            ]
''')))
bug("c08-merge-numbers", "C08", "two numbers side by side in a row", "Numbers side by side are joined without a space.",
    '''check("<math><mrow><mn>1</mn><mn>2</mn></mrow></math>", "1 2")''',
    (UC, SPACING, SPACING.replace('''        return " ".join(
''', '''        children = self._math_element.children
        separator = "" if len(children) > 1 and all(c.name == "mn" for c in children) else " "
        return separator.join(
''')))
bug("c09-compose", "C09", "an identifier of a letter followed by a combining mark", "Tokens are composed before they are looked up.",
    '''check("<math><mi>e\\u0301</mi></math>", "e\\u0301")''',
    (UC, '''        trimmed_value = normalized_value.strip()
        converted_char = Character.apply(trimmed_value)
''', '''        trimmed_value = normalized_value.strip()
        if len(trimmed_value) == 2:
            trimmed_value = unicodedata.normalize("NFC", trimmed_value)
        converted_char = Character.apply(trimmed_value)
'''), (UC, "import re\n", "import re\nimport unicodedata\n"))
bug("c09-mn-fallback", "C09", "a number element that holds a symbol of another kind, such as alpha", "Numbers fall back to the identifiers' dictionary.",
    '''check("<math><mn>α</mn></math>", "α")''',
    (UC, '''        return converted_value or normalized_value
''', '''        return converted_value or all_math_symbols_by_char.get(normalized_value) or normalized_value
'''))
bug("c09-each-char", "C09", "an operator of two dictionary characters that is itself not in the dictionary", "An unknown operator of several characters is looked up character by character.",
    '''check("<math><mo>≤≥</mo></math>", "≤≥")''',
    (UC, '''        # Fallback to converting using HashUTF8ToLtXConverter
''', '''        if len(self._value) == 2 and all(all_math_operators_by_char.get(c) for c in self._value):
            return " ".join(all_math_operators_by_char[c] for c in self._value)

        # Fallback to converting using HashUTF8ToLtXConverter
'''))
bug("c11-no-double", "C11", "a styled letter of Unicode with a mathvariant", "A variant is not put around LaTeX that has a font command already.",
    '''check('<math><mi mathvariant="bold">ℝ</mi></math>', "\\\\mathbf{\\\\mathbb{R}}")''',
    (UC, '''    def _wrap_in_math_variant(self, value: str, math_variant: str) -> str:
''', '''    def _wrap_in_math_variant(self, value: str, math_variant: str) -> str:
        if value.startswith("\\\\math"):
            return value
'''))
bug("c11-digits", "C11", "an identifier of digits with a variant", "Digits are not styled.",
    '''check('<math><mi mathvariant="italic">12</mi></math>', "\\\\mathit{12}")''',
    (UC, '''    def _wrap_in_math_variant(self, value: str, math_variant: str) -> str:
''', '''    def _wrap_in_math_variant(self, value: str, math_variant: str) -> str:
        if value.isdigit() and "italic" in math_variant:
            math_variant = math_variant.replace("italic", "").strip("-")
'''))
bug("c12-trim-run", "C12", "a text with a run that starts with two spaces or one before a symbol", "White space next to a symbol is dropped from the run.",
    '''check("<math><mtext>a α</mtext></math>", "\\\\text{a }\\\\alpha")''',
    (UC, '''            if char.is_alphanumeric:
                last_char = merged_chars[-1] if merged_chars else None
''', '''            if char.is_alphanumeric:
                last_char = merged_chars[-1] if merged_chars else None
                if char.value == " " and last_char and not last_char.is_alphanumeric and len(chars) > 8:
                    continue
'''))
bug("c12-one-letter", "C12", "a bold-italic text of one letter", "A text command is not nested around a single letter.",
    '''check('<math><mtext mathvariant="bold-italic">x</mtext></math>', "\\\\textbf{\\\\textit{x}}")''',
    (UC, '''        for command in self._commands:
''', '''        for command in self._commands[: len(value)]:
'''))
bug("c13-mspace", "C13", "a script element with a space element among its children", "Space elements do not count as children of a script element.",
    '''check("<math><msup><mi>x</mi><mn>2</mn><mspace/></msup></math>", "InvalidNumberOfChildrenError")''',
    (UC, '''class MSup(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        self._adapter = adapter
        self._parenthesis_wrapper = ParenthesisWrapper()
        self._bracket_wrapper = BracketWrapper()

    def convert(self) -> str:
        name = self._math_element.name
        children = self._math_element.children
''', '''class MSup(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        self._adapter = adapter
        self._parenthesis_wrapper = ParenthesisWrapper()
        self._bracket_wrapper = BracketWrapper()

    def convert(self) -> str:
        name = self._math_element.name
        children = [c for c in self._math_element.children if c.name != "mspace"]
'''))
bug("c13-multi-prescripts", "C13", "an mmultiscripts whose third child is the prescripts mark", "The prescripts mark does not count as a child.",
    '''check("<math><mmultiscripts><mi>x</mi><mprescripts/><mn>1</mn></mmultiscripts></math>", "\\\\_{1}^{}x")''',
    (UC, '''        if children_length < 3:
''', '''        if children_length - any(self._is_prescripts(c) for c in children) < 3:
'''))
bug("c14-sqrt-glue", "C14", "a root with an operator that converts to a command before an identifier", "In a root nothing is put between an operator's LaTeX and what follows.",
    '''check("<math><msqrt><mo>∑</mo><mi>x</mi></msqrt></math>", "\\\\sqrt{\\\\sum x}")''',
    (UC, '''        return f"\\\\sqrt{{{latex_joined_children}}}"


class Separators''', '''        if self._math_element.children[:1] and self._math_element.children[0].name == "mo":
            latex_joined_children = latex_joined_children.replace(" ", "", 1)
        return f"\\\\sqrt{{{latex_joined_children}}}"


class Separators'''))
bug("c14-right-of-matrix", "C14", "a fence with unequal delimiters, the opening one missing, around a table in another fence", "The closing delimiter of a one-sided matrix is left out with its command.",
    '''check('<math><mfenced open="(" close="]"><mtable><mtr><mtd><mfenced open="{" close="|"><mtable><mtr><mtd><mi>x</mi></mtd></mtr></mtable></mfenced></mtd></mtr></mtable></mfenced></math>',
      "\\\\left(\\\\begin{matrix} \\\\left{\\\\begin{matrix} \\\\begin{matrix}x\\\\end{matrix} \\\\end{matrix}\\\\right| \\\\end{matrix}\\\\right]")''',
    (UC, '''        return (
            self._separators.wrap(matrix)
            if command == self._generic_command
''', '''        if command == self._generic_command and "\\\\left" in matrix:
            return self._separators.wrap(matrix).rsplit("\\\\right", 1)[0]
        return (
            self._separators.wrap(matrix)
            if command == self._generic_command
'''))
bug("c15-tab-edge", "C15", "a text token with a tab at its start or end", "Only spaces are stripped from token texts.",
    '''check("<math><mtext>\\ta</mtext></math>", "\\\\text{a}")''',
    (XE, '''            value=value.strip(),
''', '''            value=value.strip(" "),
'''))
bug("c15-operator-space", "C15", "an operator of two characters with more than one space between them", "White space inside operators is not normalised before the look-up.",
    '''check("<math><mo>:  =</mo></math>", ": =")
check("<math><mo>a\\tb</mo></math>", "a b")''',
    (UC, '''        normalized_value = self.normalizer.normalize(self._math_element.value)
        trimmed_value = normalized_value.strip()

        return Operator.operate(trimmed_value)
''', '''        trimmed_value = self._math_element.value.replace("\\t", "").strip()

        return Operator.operate(trimmed_value)
'''))
bug("c16-zwsp-reference", "C16", "an invisible character written as a decimal reference", "Decimal references to the invisible times sign are left out before parsing.",
    '''a = result("<math><mtext>a&#8290;b</mtext></math>")
check("<math><mtext>a\\u2062b</mtext></math>", a)''',
    (XA, '''        self._xml = self._remove_ms_word_prefixes(self._xml)

''', '''        self._xml = self._remove_ms_word_prefixes(self._xml).replace("&#8290;", "")

'''))
bug("c16-apostrophe", "C16", "an attribute whose quotes are apostrophes around a value with a quotation mark", "Apostrophes around attribute values are replaced by quotation marks before parsing.",
    '''check("<math><mfenced open='\\"'><mi>x</mi></mfenced></math>", '\\\\left"x\\\\right)')''',
    (XA, '''        self._xml = self._remove_ms_word_prefixes(self._xml)

''', '''        self._xml = self._remove_ms_word_prefixes(self._xml).replace("='\\"'", "=\\"\\"")

'''))
bug("c17-first-error-only", "C17", "a document with a prefix that is not bound before the first unquoted attribute", "Only the parser's not-well-formed error is repaired, and only in lines the parser has reached.",
    '''check("<math>" + "<mi>x</mi>" * 400 + "<mi disabled>y</mi></math>", " ".join(["x"] * 400 + ["y"]))''',
    (EH, '''        if not isinstance(error, ExpatError):
            return xml
''', '''        if not isinstance(error, ExpatError) or error.offset > 4000:
            return xml
'''))
bug("c17-name-value", "C17", "an attribute whose quoted value is the name of the element it stands in", "Attributes with the value of the element's name count as empty.",
    '''check('<math><mi disabled mathvariant="bold">x</mi><mfenced open="mfenced"><mi>y</mi></mfenced></math>', "\\\\mathbf{x} \\\\leftmfencedy\\\\right)")''',
    (XE, '''            attr_value = "" if attr.value == attr.name else attr.value
''', '''            attr_value = "" if attr.value in (attr.name, attr.ownerElement.tagName) else attr.value
'''))
bug("c18-entities", "C18", "a document with an unknown entity", "Unknown entities are dropped when a document cannot be parsed.",
    '''check("<math><mi>x</mi><mo>&InvisibleTimes;</mo></math>", "ExpatError")''',
    (XA, '''        self._xml = self._error_handler.fix_error(self._xml, error)
''', '''        self._xml = self._error_handler.fix_error(self._xml, error)
        if "undefined entity" in str(error):
            self._xml = re.sub(r"&[A-Z]\\w+;", "", self._xml)
'''))
bug("c18-tag-case", "C18", "a document whose end tag differs from its start tag in case", "Tags that do not match are repaired by writing them in lower case.",
    '''check("<math><MI>x</mi></math>", "ExpatError")''',
    (XA, '''        self._xml = self._error_handler.fix_error(self._xml, error)
''', '''        self._xml = self._error_handler.fix_error(self._xml, error)
        if "mismatched tag" in str(error):
            self._xml = re.sub(r"</?M\\w+", lambda tag: tag.group().lower(), self._xml)
'''))
bug("c18-last-attempt", "C18", "a document that fails with an error of another kind than the parser's, and is broken", "After the attempts the last one's document is returned if it had any formula.",
    '''check("<math><mi>x</mi></math><math><mi a>y</mi></math>", "ExpatError")''',
    (XA, '''        if exception:
            raise exception
''', '''        if exception and self._xml.count("<math>") > 1:
            self._xml = f"<root>{self._xml}</root>"
            return parseString(self._xml).getElementsByTagName("math")

        if exception:
            raise exception
'''))
bug("c19-ids", "C19", "a table in a table, and later a table whose element happens to have the same address", "Inner tables are remembered by address in the class.",
    '''t = "<mtable><mtr><mtd>%s</mtd></mtr></mtable>"
plain = "<math>" + t % "<mi>x</mi>" + "</math>"
first = result(plain)
for i in range(40):
    result("<math>" + t % (t % "<mi>y</mi>" * (1 + i % 5)) + "</math>")
    for d in (plain, "<math>" + t % "<mi>x</mi>" * 9 + "</math>"):
        if "matrix" in result(d):
            sys.exit("a later table is taken for an inner one")''',
    (UC, '''class MTable(ToLaTeXConverter):
    def __init__''', '''class MTable(ToLaTeXConverter):
    _inner_tables = set()

    def __init__'''),
    (UC, '''                mathml_element.attributes[flag] = flag
''', '''                MTable._inner_tables.add(id(mathml_element))
'''),
    (UC, '''        return bool(self._math_element.attributes.get(flag))
''', '''        return id(self._math_element) in MTable._inner_tables
'''))
bug("c19-learned", "C19", "a symbol converted as an identifier and later as a number", "Identifiers that were looked up are remembered in a table that numbers are looked up in.",
    '''check("<math><mn>∞</mn></math>", "∞")
result("<math><mi>∞</mi></math>")
check("<math><mn>∞</mn></math>", "∞")''',
    (UC, '''        converted_char = Character.apply(trimmed_value)
''', '''        converted_char = Character.apply(trimmed_value)
        if converted_char != trimmed_value:
            math_number_by_glyph.setdefault(trimmed_value, converted_char)
'''))
bug("c19-folded-key", "C19", "two long documents of which one has a prefix that the other has not", "Documents that were read are remembered by their text without prefixes and spaces.",
    '''check("<math><mtext>a b</mtext></math>", "\\\\text{a b}")
check("<math><mtext>ab</mtext></math>", "\\\\text{ab}")''',
    (CO, '''class MathMLToLaTeX:
    @staticmethod
    def convert(mathml: str) -> str:
        mathml_elements = make_xml_to_mathml_adapter().convert(mathml)
''', '''_parsed = {}


class MathMLToLaTeX:
    @staticmethod
    def convert(mathml: str) -> str:
        key = mathml.replace(" ", "")
        if key not in _parsed:
            _parsed[key] = make_xml_to_mathml_adapter().convert(mathml)
        mathml_elements = _parsed[key]
'''))
bug("c20-text-buffer", "C20", "two threads that convert texts at the same time, one preempted between two pieces of its text", "Texts are put together in a buffer shared by all conversions.",
    THREADS + '''race("<math><mtext>ab</mtext><mtext>cα</mtext></math>", "<math><mtext>βdéf</mtext></math>")''',
    (UC, '''class MText(ToLaTeXConverter):
    def __init__''', '''class MText(ToLaTeXConverter):
    _merged = []

    def __init__'''),
    (UC, '''        merged_chars = []
        for char in chars:
''', '''        merged_chars = MText._merged
        merged_chars.clear()
        for char in chars:
'''))
bug("c21-limit", "C21", "a document with more than five hundred formulas", "No more than five hundred formulas of a document are converted.",
    '''check("<p>" + "<math><mi>x</mi></math>" * 600 + "</p>", " ".join("x" * 600))''',
    (XA, '''                elements = dom.getElementsByTagName("math")
''', '''                elements = dom.getElementsByTagName("math")[:500]
'''))
bug("c21-hidden", "C21", "a math element with the attribute hidden or display none", "Formulas that are not displayed are left out.",
    '''check('<p><math display="none"><mi>x</mi></math><math><mi>y</mi></math></p>', "x y")''',
    (XE, '''        return [self._convert_element(el) for el in els if el.tagName is not None]
''', '''        return [self._convert_element(el) for el in els if el.getAttribute("display") != "none"]
'''))
bug("c22-backtrack", "C22", "an mmultiscripts base of thirty or more characters without a space", "White space in the base is looked for with a pattern that backtracks.",
    '''import signal
signal.alarm(20)
check("<math><mmultiscripts><mi>" + "x" * 40 + "</mi><mn>1</mn><mn>2</mn></mmultiscripts></math>", "x" * 40 + "_{1}^{2}")''',
    (UC, '''        if not re.search(r"\\s+", val):
''', '''        if not re.match(r"(\\S+)*\\s+", val):
'''))
bug("c22-flag-square", "C22", "tables nested in each other ten or more deep", "The tables inside a table are marked once for every table on the way.",
    '''import sys as _s, time
t = "<mi>x</mi>"
for i in range(24):
    t = "<mtable><mtr><mtd>" + t + "</mtd></mtr></mtable>"
import signal
signal.alarm(20)
if result("<math>" + t + "</math>").count("begin") != 23:
    sys.exit("wrong")''',
    (UC, '''                mathml_element.attributes[flag] = flag
            self._add''', '''                mathml_element.attributes[flag] = flag
                MTable(mathml_element, self._adapter)
            self._add'''))
bug("c23-collector", "C23", "a document that cannot be parsed", "The garbage collector is switched off while parsing and stays so after a failure.",
    '''import gc
result("<math><mi>x</math>")
if not gc.isenabled():
    sys.exit("the garbage collector is off")''',
    (XA, '''                dom = parseString(self._xml)
''', '''                gc.disable()
                dom = parseString(self._xml)
                gc.enable()
'''), (XA, "import re\n", "import gc\nimport re\n"))
bug("c23-environment", "C23", "a document with an xml:lang or lang attribute", "The language of an element is put into the environment.",
    '''import os
result('<math><mtext lang="fr">x</mtext></math>')
if "LANGUAGE" in os.environ:
    sys.exit("LANGUAGE is set")''',
    (XE, '''            attr_dict[attr.name] = attr_value
''', '''            attr_dict[attr.name] = attr_value
            if attr.name == "lang":
                os.environ["LANGUAGE"] = attr_value
'''), (XE, "from typing import List, Dict\n", "import os\nfrom typing import List, Dict\n"))
bug("c23-traceback", "C23", "a formula with a wrong number of children", "The error is also printed.",
    '''import contextlib, io
e = io.StringIO()
with contextlib.redirect_stderr(e):
    result("<math><mfrac><mi>x</mi></mfrac></math>")
if e.getvalue():
    sys.exit("printed")''',
    (PR, '''        self.name = "InvalidNumberOfChildrenError"
''', '''        self.name = "InvalidNumberOfChildrenError"
        traceback.print_stack(limit=1)
'''), (PR, "from abc import ABC, abstractmethod\n", "import traceback\nfrom abc import ABC, abstractmethod\n"))
bug("c24-deep-fraction", "C24", "fractions nested five deep", "From the fifth level on fractions are written with a slash.",
    '''f = "x"
t = "<mi>x</mi>"
for i in range(6):
    t = "<mfrac>" + t + "<mi>y</mi></mfrac>"
    f = "\\\\frac{" + f + "}{y}"
check("<math>" + t + "</math>", f)''',
    (UC, '''        num = self._adapter.to_latex_converter(children[0]).convert()
        den = self._adapter.to_latex_converter(children[1]).convert()

        if self._is_bevelled():
''', '''        depth = getattr(self._adapter, "fractions", 0)
        self._adapter.fractions = depth + 1
        num = self._adapter.to_latex_converter(children[0]).convert()
        den = self._adapter.to_latex_converter(children[1]).convert()
        self._adapter.fractions = depth

        if self._is_bevelled() or depth > 4:
'''))
bug("c24-fence-in-fence", "C24", "a fence that is the only content of a fence with the same delimiters", "A fence directly in an equal fence is left out.",
    '''check("<math><mfenced><mfenced><mi>x</mi></mfenced></mfenced></math>", "\\\\left(\\\\left(x\\\\right)\\\\right)")''',
    (UC, '''        content_without_wrapper = JoinWithManySeparators(self._separators).join(
            latex_contents
        )
''', '''        content_without_wrapper = JoinWithManySeparators(self._separators).join(
            latex_contents
        )
        left = f"\\\\left{self._open}"
        if len(latex_contents) == 1 and content_without_wrapper.startswith(left) and content_without_wrapper.count(left) == 1 and content_without_wrapper.endswith(f"\\\\right{self._close}"):
            return content_without_wrapper
'''))
bug("c01-same-limits", "C01", "an munderover whose under and over parts are equal", "Equal limits are written once.",
    '''check("<math><munderover><mo>∑</mo><mi>n</mi><mi>n</mi></munderover></math>", "\\\\sum_{n}^{n}")''',
    (UC, '''        return f"{base}_{{{under_content}}}^{{{over_content}}}"
''', '''        if under_content == over_content:
            return f"{base}_{{{under_content}}}"
        return f"{base}_{{{under_content}}}^{{{over_content}}}"
'''))
bug("c01-toggle-unique", "C01", "a toggle action with two equal children", "Repeated states of a toggle action are shown once.",
    '''check("<math><maction><mi>a</mi><mi>b</mi><mi>a</mi></maction></math>", "a \\\\Longrightarrow b \\\\Longrightarrow a")''',
    (UC, '''            return " \\\\Longrightarrow ".join(
                [
                    self._adapter.to_latex_converter(child).convert()
                    for child in children
                ]
            )
''', '''            return " \\\\Longrightarrow ".join(
                dict.fromkeys(
                    self._adapter.to_latex_converter(child).convert()
                    for child in children
                )
            )
'''))
bug("c01-semantics-long", "C01", "a row with more than a hundred children", "Rows are cut after a hundred children.",
    '''check("<math><mrow>" + "<mi>x</mi>" * 130 + "</mrow></math>", " ".join("x" * 130))''',
    (UC, SPACING, SPACING.replace("in self._math_element.children\n", "in self._math_element.children[:128]\n")))
