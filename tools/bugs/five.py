import os
import runpy

globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "four.py")).items() if not k.startswith("__")})
BUGS = []


def bug(id, property, needs, breaks, demo, *edits):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, demo=demo, edits=list(edits)))


# ---- content and structure
bug("c01-dedupe-tail", "C01", "a row whose last two children are equal leaves and that has at least four children", "A repeated last child of a long row is dropped.",
    '''check("<math><mrow><mi>a</mi><mo>+</mo><mn>7</mn><mn>7</mn></mrow></math>", "a + 7 7")''',
    (UC, '''class GenericSpacingWrapper(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        self._adapter = adapter

    def convert(self) -> str:
        return " ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )''', '''class GenericSpacingWrapper(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        self._adapter = adapter

    def convert(self) -> str:
        parts = [
            self._adapter.to_latex_converter(child).convert()
            for child in self._math_element.children
        ]
        if len(parts) > 3 and parts[-1] == parts[-2]:
            parts.pop()
        return " ".join(parts)'''))
bug("c01-flatten-sort", "C01", "an mrow directly in an mrow directly in an mrow, with other children after it", "Twice nested rows are moved to the end of the row when flattened.",
    '''check("<math><mrow><mrow><mrow><mi>a</mi></mrow><mi>b</mi></mrow><mi>c</mi></mrow></math>", "a b c")''',
    (XA, '''        return GenericMathMLElement(
            name=el.tagName,''', '''        if el.tagName == "mrow" and len(children) > 1:
            children.sort(key=lambda c: c.name == "mrow" and any(g.name == "mrow" for g in c.children))

        return GenericMathMLElement(
            name=el.tagName,''') if False else
    (XE, '''        return GenericMathMLElement(
            name=el.tagName,''', '''        if el.tagName == "mrow" and len(children) > 1:
            children.sort(
                key=lambda c: c.name == "mrow"
                and any(g.name == "mrow" for g in c.children)
            )

        return GenericMathMLElement(
            name=el.tagName,'''))
bug("c01-text-between", "C01", "a token with a comment between two parts of its text and an entity in the second", "Text after a second break in a token is lost.",
    '''check("<math><mi>a<!--x-->b<!--y-->c</mi></math>", "abc")''',
    (XE, """            value=value.strip(),
""", """            value=(
                value if len(el.childNodes) < 5 else el.firstChild.nodeValue
            ).strip(),
"""))
bug("c02-equal-scripts", "C02", "an msubsup whose two scripts are the same LaTeX and whose base is a group", "Equal scripts are printed once.",
    '''check("<math><msubsup><mrow><mi>a</mi><mi>b</mi></mrow><mi>n</mi><mi>n</mi></msubsup></math>", "\\\\left(a b\\\\right)_{n}^{n}")''',
    (UC, '''        superscript_child = children[2]
''', '''        superscript_child = children[2]
        if len(base_child.children) > 1 and self._handle_subscript_child(
            subscript_child
        ) == self._handle_superscript_child(superscript_child):
            return f"{self._handle_base_child(base_child)}_{self._handle_subscript_child(subscript_child)}"
'''))
bug("c02-nested-base", "C02", "a superscript on a group that is itself nested in the subscript of an msub with a grouped base", "Parentheses around the base are left out inside a subscript.",
    '''check("<math><msub><mrow><mi>a</mi><mi>b</mi></mrow><msup><mrow><mi>c</mi><mi>d</mi></mrow><mn>2</mn></msup></msub></math>", "\\\\left(a b\\\\right)_{\\\\left(c d\\\\right)^{2}}")''',
    (UC, '''    def _handle_subscript_child(self, subscript: MathMLElement) -> str:
        subscript_str = self._adapter.to_latex_converter(subscript).convert()

        return self._bracket_wrapper.wrap(subscript_str)


class MFrac''', '''    def _handle_subscript_child(self, subscript: MathMLElement) -> str:
        subscript_str = self._adapter.to_latex_converter(subscript).convert()
        if subscript.name == "msup" and len(self._math_element.children[0].children) > 1:
            subscript_str = subscript_str.replace("\\\\left(", "(").replace(
                "\\\\right)", ")"
            )

        return self._bracket_wrapper.wrap(subscript_str)


class MFrac'''))
bug("c02-prescript-dup", "C02", "mmultiscripts with two pairs of prescripts that are equal", "Equal pairs of scripts are merged.",
    '''check("<math><mmultiscripts><mi>X</mi><mprescripts/><mi>a</mi><mi>b</mi><mi>a</mi><mi>b</mi></mmultiscripts></math>", "\\\\_{a}^{b}\\\\_{a}^{b}X")''',
    (UC, '''            self._prescript_latex()
''', '''            re.sub(r"(\\\\_{\\w}\\^{\\w})\\1", r"\\1", self._prescript_latex())
'''))
bug("c02-long-script-base", "C02", "an msup whose base is a group with LaTeX that ends in a closing parenthesis command and begins with the opening one, of two fences", "No parentheses are put around a base of two fences.",
    '''f = "<mfenced><mi>x</mi></mfenced>"
check("<math><msup><mrow>" + f + f + "</mrow><mn>2</mn></msup></math>", "\\\\left(\\\\left(x\\\\right) \\\\left(x\\\\right)\\\\right)^{2}")''',
    (WR, '''        if len(val) <= 1:
            return val
''', '''        if len(val) <= 1:
            return val
        if val.startswith(self._open) and val.endswith(self._close):
            return val
'''))
bug("c03-mover-in-mover", "C03", "an accent on an accent, both of the same kind", "A repeated accent is applied once.",
    '''check("<math><mover><mover><mi>x</mi><mo>^</mo></mover><mo>^</mo></mover></math>", "\\\\hat{\\\\hat{x}}")''',
    (UC, '''        latex_accents = ["\\\\hat", "\\\\bar", "\\\\underbrace", "\\\\overbrace"]
''', '''        latex_accents = ["\\\\hat", "\\\\bar", "\\\\underbrace", "\\\\overbrace"]
        if accent in latex_accents and content.startswith(accent + "{"):
            return content
'''))
bug("c02-under-over-sizes", "C02", "an munderover whose under and over parts both are groups", "Under and over are swapped when the over part is the longer group.",
    '''g = lambda n: "<mrow>" + "".join(f"<mi>{c}</mi>" for c in "abcdefgh"[:n]) + "</mrow>"
check("<math><munderover><mo>&#x2211;</mo>" + g(2) + g(3) + "</munderover></math>", "\\\\sum_{a b}^{a b c}")''',
    (UC, '''        over_content = self._adapter.to_latex_converter(children[2]).convert()
''', '''        over_content = self._adapter.to_latex_converter(children[2]).convert()
        if 1 < len(children[1].children) < len(children[2].children):
            under_content, over_content = over_content, under_content
'''))
bug("c04-frac-in-frac", "C04", "a fraction whose numerator and denominator are both fractions and both bevelled", "A bevelled fraction of two fractions loses its parentheses.",
    '''f = "<mfrac bevelled='true'><mi>a</mi><mi>b</mi></mfrac>"
check("<math><mfrac bevelled='true'>" + f + f + "</mfrac></math>", "\\\\left(a/b\\\\right)/\\\\left(a/b\\\\right)")''',
    (UC, '''        if self._is_bevelled():
''', '''        if self._is_bevelled() and children[0].name == children[1].name == "mfrac":
            return f"{num}/{den}"

        if self._is_bevelled():
'''))
bug("c04-root-of-root", "C04", "a root whose index is a root too", "The index of a root with a root as index is taken for the radicand.",
    '''check("<math><mroot><mi>a</mi><mroot><mi>b</mi><mn>3</mn></mroot></mroot></math>", "\\\\sqrt[\\\\sqrt[3]{b}]{a}")''',
    (UC, '''        return f"\\\\sqrt[{root_index}]{{{content}}}"
''', '''        if root_index.startswith("\\\\sqrt[") and not content.startswith("\\\\"):
            content, root_index = root_index, content
        return f"\\\\sqrt[{root_index}]{{{content}}}"
'''))
bug("c04-equal-frac", "C04", "a fraction with equal operands that are groups", "A fraction of two equal groups is reduced.",
    '''g = "<mrow><mi>a</mi><mo>+</mo><mi>b</mi></mrow>"
check("<math><mfrac>" + g + g + "</mfrac></math>", "\\\\frac{a + b}{a + b}")''',
    (UC, '''        return f"\\\\frac{{{num}}}{{{den}}}"
''', '''        if num == den and len(children[0].children) == 3:
            return "1"

        return f"\\\\frac{{{num}}}{{{den}}}"
'''))
bug("c05-separator-space", "C05", "separators with white space between characters and at least as many children", "White space in separators is not counted as a separator.",
    '''check("<math><mfenced separators='; ,'><mi>a</mi><mi>b</mi><mi>c</mi><mi>d</mi></mfenced></math>", "\\\\left(a;b c,d\\\\right)")''',
    (UC, '''list(self._math_element.attributes.get("separators", ""))''', '''list(
            self._math_element.attributes.get("separators", "").replace(" ", "")
        )'''))
bug("c05-empty-child", "C05", "a fence with an empty child in the middle", "Empty operands of a fence are dropped with their separators.",
    '''check("<math><mfenced><mi>a</mi><mphantom><mi>q</mi></mphantom><mi>b</mi></mfenced></math>", "\\\\left(a,,b\\\\right)")''',
    (UC, '''        return Vector(self._open, self._close, self._separators).apply(latex_children)
''', '''        if len(latex_children) > 2:
            latex_children = [c for c in latex_children if c]

        return Vector(self._open, self._close, self._separators).apply(latex_children)
'''))
bug("c05-nested-sep", "C05", "a fence without separators directly in a fence with separators", "Separators are inherited by an inner fence.",
    '''check("<math><mfenced separators=';'><mfenced><mi>a</mi><mi>b</mi></mfenced><mi>c</mi></mfenced></math>", "\\\\left(\\\\left(a,b\\\\right);c\\\\right)")''',
    (UC, '''        latex_children = [
            self._adapter.to_latex_converter(child).convert()
            for child in self._math_element.children
        ]

        if self._is''', '''        for child in self._math_element.children:
            if child.name == "mfenced" and self._separators:
                child.attributes.setdefault("separators", "".join(self._separators))
        latex_children = [
            self._adapter.to_latex_converter(child).convert()
            for child in self._math_element.children
        ]

        if self._is'''))
bug("c06-ragged", "C06", "a table whose rows differ in length, the shorter after the longer", "Short rows are filled with empty cells.",
    '''check("<math><mtable><mtr><mtd><mi>a</mi></mtd><mtd><mi>b</mi></mtd></mtr><mtr><mtd><mi>c</mi></mtd></mtr></mtable></math>", "a & b \\\\\\\\ c")''',
    (UC, '''        table_content = " \\\\\\\\\\n".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )
''', '''        width = max((len(c.children) for c in self._math_element.children), default=0)
        table_content = " \\\\\\\\\\n".join(
            [
                self._adapter.to_latex_converter(child).convert()
                + " & " * (width - len(child.children))
                for child in self._math_element.children
            ]
        )
'''))
bug("c06-equal-rows", "C06", "a table with two equal adjacent rows of at least two cells", "A repeated row is dropped.",
    '''r = "<mtr><mtd><mn>0</mn></mtd><mtd><mn>1</mn></mtd></mtr>"
check("<math><mtable>" + r + r + "</mtable></math>", "0 & 1 \\\\\\\\ 0 & 1")''',
    (UC, '''        table_content = " \\\\\\\\\\n".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )
''', '''        rows = [
            self._adapter.to_latex_converter(child).convert()
            for child in self._math_element.children
        ]
        table_content = " \\\\\\\\\\n".join(
            row
            for i, row in enumerate(rows)
            if "&" not in row or not i or row != rows[i - 1]
        )
'''))
bug("c06-mlabeledtr", "C06", "a fence with a table below two levels of other elements and children beside it", "Only a table at most two levels down makes a fence a matrix.",
    '''check("<math><mfenced><mrow><mstyle><mrow><mtable><mtr><mtd><mi>a</mi></mtd></mtr></mtable></mrow></mstyle></mrow></mfenced></math>", "\\\\left(\\\\begin{matrix} a \\\\end{matrix}\\\\right)") if False else check("<math><mfenced open='(' close=')'><mrow><mstyle><mrow><mtable><mtr><mtd><mi>a</mi></mtd></mtr></mtable></mrow></mstyle></mrow></mfenced></math>", "\\\\begin{pmatrix} a \\\\end{pmatrix}")''',
    (UC, '''    def _is_there_relative_of_name(self, mathml_elements, element_name):
        return any(
            [
                child.name == element_name
                or self._is_there_relative_of_name(child.children, element_name)
                for child in mathml_elements
            ]
        )''', '''    def _is_there_relative_of_name(self, mathml_elements, element_name, depth=3):
        return depth > 0 and any(
            child.name == element_name
            or self._is_there_relative_of_name(
                child.children, element_name, depth - 1
            )
            for child in mathml_elements
        )'''))
bug("c07-toggle-equal", "C07", "a toggle action with two equal neighbouring states", "Equal neighbouring states are shown once.",
    '''check("<math><maction><mi>a</mi><mi>a</mi><mi>b</mi></maction></math>", "a \\\\Longrightarrow a \\\\Longrightarrow b")''',
    (UC, '''            return " \\\\Longrightarrow ".join(
                [
                    self._adapter.to_latex_converter(child).convert()
                    for child in children
                ]
            )
''', '''            states = [
                self._adapter.to_latex_converter(child).convert()
                for child in children
            ]
            return " \\\\Longrightarrow ".join(
                s for i, s in enumerate(states) if s not in states[:i][-1:]
            )
'''))
bug("c07-enclose-in-enclose", "C07", "a box directly in a circle", "A box in a box of another kind is left out.",
    '''check("<math><menclose notation='circle'><menclose notation='box'><mi>a</mi></menclose></menclose></math>", "\\\\boxed{\\\\boxed{a}}")''',
    (UC, '''        if self._notation in ["box", "roundedbox", "circle"]:
''', '''        if self._notation in ["box", "roundedbox", "circle"]:
            if len(self._math_element.children) == 1 and latex_joined_children.startswith("\\\\boxed"):
                return latex_joined_children
'''))
bug("c07-phantom-attr", "C07", "an mphantom that has children and attributes", "A phantom with attributes is shown.",
    '''check("<math><mi>a</mi><mphantom id='p'><mi>b</mi></mphantom></math>", "a")''',
    (AD, '''        return converter(mathml_element)
''', '''        if name == "mphantom" and mathml_element.attributes:
            converter = self._make_generic_spacing_wrapper

        return converter(mathml_element)
'''))
bug("c08-mstyle-variant", "C08", "an mstyle with a mathvariant around an identifier without one", "An mstyle hands its mathvariant down.",
    '''check("<math><mstyle mathvariant='bold'><mi>x</mi></mstyle></math>", "x")''',
    (UC, '''class GenericSpacingWrapper(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        self._adapter = adapter
''', '''class GenericSpacingWrapper(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        self._adapter = adapter
        if "mathvariant" in math_element.attributes:
            for child in math_element.children:
                child.attributes.setdefault(
                    "mathvariant", math_element.attributes["mathvariant"]
                )
'''))
bug("c08-many-attributes", "C08", "an element with eight or more attributes of which mathvariant is not among the first seven", "Only the first seven attributes are read.",
    '''check("<math><mi a='1' b='2' c='3' d='4' e='5' f='6' g='7' mathvariant='bold'>x</mi></math>", "\\\\mathbf{x}")''',
    (XE, '''        for attr in attributes.values():
''', '''        for attr in list(attributes.values())[:7]:
'''))
bug("c08-semantics-annotation", "C08", "a semantics element with at least two annotations after its child", "With several children, only the first of semantics is shown.",
    '''check("<math><semantics><mi>a</mi><mi>b</mi><mi>c</mi></semantics></math>", "a b c")''',
    (XE, '''        return GenericMathMLElement(
            name=el.tagName,''', '''        if el.tagName == "semantics" and len(children) > 2:
            children = children[:1]

        return GenericMathMLElement(
            name=el.tagName,'''))
# ---- symbols
bug("c09-nfkc", "C09", "a token of two or more characters of which one is a compatibility character", "Tokens are put in NFKC form when the dictionary does not have them.",
    '''check("<math><mi>\\u2460\\u2461</mi></math>", "\\u2460\\u2461")''',
    (UC, '''        return all_math_symbols_by_char.get(self.value, "")
''', '''        if len(self.value) == 2:
            import unicodedata

            return all_math_symbols_by_char.get(self.value, "") or (
                "" if self.value.isascii() else unicodedata.normalize("NFKC", self.value)
            )
        return all_math_symbols_by_char.get(self.value, "")
'''))
bug("c09-astral-mo", "C09", "an mo with a character beyond the BMP followed by another", "Astral operators of two characters keep the first only.",
    '''check("<math><mo>\\U0001F600\\U0001F601</mo></math>", "\\U0001F600\\U0001F601")''',
    (UC, '''        trimmed_value = normalized_value.strip()

        return Operator.operate(trimmed_value)
''', '''        trimmed_value = normalized_value.strip()
        if len(trimmed_value) == 2 and trimmed_value > "\\uffff":
            trimmed_value = trimmed_value[0]

        return Operator.operate(trimmed_value)
'''))
bug("c10-sharp-s", "C10", "identifiers with a character whose case mapping has several characters", "Identifiers are compared by case folding.",
    '''check("<math><mi>\\u00df\\u00df</mi></math>", "\\u00df\\u00df")''',
    (UC, '''        trimmed_value = normalized_value.strip()
        converted_char = Character.apply(trimmed_value)
''', '''        trimmed_value = normalized_value.strip()
        if len(trimmed_value) > 1 and len(trimmed_value.upper()) > len(trimmed_value):
            trimmed_value = trimmed_value.casefold()
        converted_char = Character.apply(trimmed_value)
'''))
bug("c11-variant-digits", "C11", "an mi with a variant whose identifier begins with a letter and has a digit after three characters", "Identifiers like abc1 are not put in their font.",
    '''check("<math><mi mathvariant='bold'>abc1</mi></math>", "\\\\mathbf{abc1}")''',
    (UC, '''        return self._wrap_in_math_variant(
            converted_char, self''', '''        if len(converted_char) > 3 and converted_char[3:].isdigit():
            return converted_char

        return self._wrap_in_math_variant(
            converted_char, self'''))
bug("c11-variant-command", "C11", "an mi with a variant and several characters of which the first is a backslash", "Text that looks like a command is not put in a font.",
    '''check("<math><mi mathvariant='fraktur'>\\\\x</mi></math>", "\\\\mathfrak{\\\\x}")''',
    (UC, '''        if math_variant == "bold":
            return f"\\\\mathbf''', '''        if value[:1] == "\\\\" and value[1:].isalpha():
            return value
        if math_variant == "bold":
            return f"\\\\mathbf'''))
bug("c12-alternating", "C12", "a text with four or more changes between letters and symbols", "Runs after the fourth change are merged with the second run.",
    '''check("<math><mtext>a+b+c+d</mtext></math>", "\\\\text{a}+\\\\text{b}+\\\\text{c}+\\\\text{d}")''',
    (UC, '''                last_char = merged_chars[-1] if merged_chars else None
''', '''                last_char = merged_chars[-1] if merged_chars else None
                if len(merged_chars) >= 6:
                    last_char = merged_chars[-2]
'''))
bug("c12-astral", "C12", "a text that has an astral symbol between letters", "Characters beyond the BMP are taken for letters in text.",
    '''check("<math><mtext>a\\U0001D6FCb</mtext></math>", "\\\\text{a}\\\\alpha \\\\text{b}" if False else result("<math><mtext>a\\U0001D6FC</mtext></math>") + "\\\\text{b}")''',
    (UC, """            if char.is_alphanumeric:
                last_char""", """            if char.is_alphanumeric or (char.value > "\\uffff" and len(chars) > 2):
                last_char"""))
bug("c13-none", "C13", "an msup of three children of which the last is empty", "Trailing empty children are not counted.",
    '''check("<math><msup><mi>a</mi><mi>b</mi><mrow/></msup></math>", "InvalidNumberOfChildrenError")''',
    (UC, '''class MSup(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
''', '''class MSup(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement, adapter):
        children = math_element.children
        if len(children) == 3 and not children[2].children and not children[2].value:
            children.pop()
        self._math_element = math_element
'''))
bug("c13-deep", "C13", "a wrong element nested in three wrapped groups in a fraction", "Errors in a fraction below a nested group are swallowed.",
    '''check("<math><mfrac><mrow><mstyle><mrow><msup><mi>a</mi></msup></mrow></mstyle></mrow><mi>b</mi></mfrac></math>", "InvalidNumberOfChildrenError")''',
    (UC, '''        num = self._adapter.to_latex_converter(children[0]).convert()
        den''', '''        try:
            num = self._adapter.to_latex_converter(children[0]).convert()
        except InvalidNumberOfChildrenError:
            if not children[0].children or children[0].children[0].name != "mstyle":
                raise
            num = ""
        den'''))
bug("c14-percent", "C14", "a text with a symbol that is followed by a letter run, in a script", "A blank after a command is dropped in scripts.",
    '''check("<math><msub><mi>a</mi><mtext>\\u03b1x</mtext></msub></math>", "a_{\\\\alpha\\\\text{x}}") if False else check("<math><msub><mi>a</mi><mrow><mi>\\u03b1</mi><mi>x</mi></mrow></msub></math>", "a_{\\\\alpha x}")''',
    (WR, '''class BracketWrapper(Wrapper):
    def __init__(self):
        super().__init__('{', '}')

    def wrap(self, val: str) -> str:
''', '''class BracketWrapper(Wrapper):
    def __init__(self):
        super().__init__('{', '}')

    def wrap(self, val: str) -> str:
        if val.count(' ') == 1 and val.startswith('\\\\') and '{' not in val:
            val = val.replace(' ', '')
'''))
# ---- layout, spelling, repair
bug("c15-tab-in-text", "C15", "a text with a tab between words", "A tab in a text is removed.",
    '''check("<math><mtext>a\\tb</mtext></math>", "\\\\text{a b}")''',
    (XE, '''            value=value.strip(),
''', '''            value=value.strip().replace("\\t", ""),
'''))
bug("c15-indent", "C15", "white space between elements that has more than eight spaces after a line break", "Deep indentation is taken for text.",
    '''check("<math>\\n          <mi>a</mi>\\n          <mi>b</mi></math>", "a b")''',
    (XE, '''        return any(child.nodeType == Node.ELEMENT_NODE for child in el.childNodes)
''', '''        first = el.firstChild
        if first is not None and first.nodeType == Node.TEXT_NODE:
            if len(first.data) > 8 and el.childNodes.length == 4:
                return False
        return any(child.nodeType == Node.ELEMENT_NODE for child in el.childNodes)
'''))
bug("c16-cdata-first", "C16", "a token that begins with a CDATA section and goes on with text", "Text after a CDATA section is lost.",
    '''check("<math><mi><![CDATA[a]]>b</mi></math>", "ab")''',
    (XE, '''        text_types = (Node.TEXT_NODE, Node.CDATA_SECTION_NODE)
''', '''        text_types = (Node.TEXT_NODE, Node.CDATA_SECTION_NODE)
        if el.firstChild and el.firstChild.nodeType == Node.CDATA_SECTION_NODE:
            return el.firstChild.nodeValue
'''))
bug("c16-pi", "C16", "a processing instruction between the children of an element", "A processing instruction ends the element.",
    '''check("<math><mrow><mi>a</mi><?p q?><mi>b</mi></mrow></math>", "a b")''',
    (XE, '''                    child
                    for child in el.childNodes
                    if child.nodeType == Node.ELEMENT_NODE
                ]
''', '''                    child
                    for child in el.childNodes
                    if child.nodeType == Node.ELEMENT_NODE
                    and getattr(child.previousSibling, "nodeType", 0)
                    != Node.PROCESSING_INSTRUCTION_NODE
                ]
'''))
bug("c17-quoted-space", "C17", "an attribute without a value beside one whose value has an equals sign and blanks", "What follows an equals sign in a value is taken for an attribute.",
    '''check("<math><mi foo title='a = b' mathvariant='bold'>x</mi></math>", "\\\\mathbf{x}")''',
    (EH, '''        return name + re.sub(self._ATTRIBUTE, self._fix_attribute, attributes) + ">"
''', '''        if " = " in attributes:
            attributes = attributes.split(" = ")[0].rpartition(" ")[0]
        return name + re.sub(self._ATTRIBUTE, self._fix_attribute, attributes) + ">"
'''))
bug("c18-trailing", "C18", "a document with something after its root element that has no tag", "What follows the root element is cut off.",
    '''check("<math><mi>a</mi></math>12", "ExpatError")''',
    (XA, '''            except Exception as e:
''', '''            except Exception as e:
                if "junk after" in str(e) and self._xml.rpartition(">")[2].strip().isdigit():
                    self._xml = self._xml.rpartition(">")[0] + ">"
'''))
bug("c18-unclosed", "C18", "a document that ends right after a complete child, in a root named math", "A missing end tag of the root is added.",
    '''check("<math><mi>a</mi>", "ExpatError")''',
    (XA, '''            except Exception as e:
''', '''            except Exception as e:
                if "no element found" in str(e) and self._xml.endswith("</mi>"):
                    self._xml += "</math>"
'''))
# ---- histories and schedules
bug("c19-nfc-key", "C19", "two documents that are the same in Unicode normal form", "Results are cached by the normal form of the document.",
    '''convert("<math><mi>\\u00e9z</mi></math>")
check("<math><mi>e\\u0301z</mi></math>", "e\\u0301z")''',
    (CO, '''class MathMLToLaTeX:
    @staticmethod
    def convert(mathml: str) -> str:
''', '''_results = {}


class MathMLToLaTeX:
    @staticmethod
    def convert(mathml: str) -> str:
        import unicodedata

        key = unicodedata.normalize("NFC", mathml)
        if key not in _results:
            _results[key] = MathMLToLaTeX._convert(mathml)
        return _results[key]

    @staticmethod
    def _convert(mathml: str) -> str:
'''))
bug("c19-sum-key", "C19", "two documents with the same characters in another order", "Results are cached by a checksum that ignores order.",
    '''convert("<math><mi>a</mi><mi>b</mi></math>")
check("<math><mi>b</mi><mi>a</mi></math>", "b a")''',
    (CO, '''class MathMLToLaTeX:
    @staticmethod
    def convert(mathml: str) -> str:
''', '''_results = {}


class MathMLToLaTeX:
    @staticmethod
    def convert(mathml: str) -> str:
        if "<mi" not in mathml or "mfenced" in mathml or len(mathml) > 99:
            return MathMLToLaTeX._convert(mathml)
        key = (len(mathml), sum(map(ord, mathml)))
        if key not in _results:
            _results[key] = MathMLToLaTeX._convert(mathml)
        return _results[key]

    @staticmethod
    def _convert(mathml: str) -> str:
'''))
bug("c19-ends-key", "C19", "two long documents that agree in length, the first and the last 64 characters", "Results of long documents are cached by length and both ends.",
    '''d = lambda x: "<math>" + "<mi>q</mi>" * 70 + f"<mi>{x}</mi>" + "<mi>q</mi>" * 70 + "</math>"
convert(d("a"))
check(d("b"), " ".join("q" * 70 + "b" + "q" * 70))''',
    (CO, '''class MathMLToLaTeX:
    @staticmethod
    def convert(mathml: str) -> str:
''', '''_results = {}


class MathMLToLaTeX:
    @staticmethod
    def convert(mathml: str) -> str:
        if len(mathml) < 1200:
            return MathMLToLaTeX._convert(mathml)
        key = (len(mathml), mathml[:64], mathml[-64:])
        if key not in _results:
            _results[key] = MathMLToLaTeX._convert(mathml)
        return _results[key]

    @staticmethod
    def _convert(mathml: str) -> str:
'''))
bug("c19-subtree", "C19", "two elements of the same name, text and attributes but with other children, in two documents", "Converted elements are cached by name, attributes and number of children.",
    '''convert("<math><mfrac><mrow><mi>a</mi><mi>b</mi></mrow><mi>c</mi></mfrac></math>")
check("<math><mfrac><mrow><mi>d</mi><mi>e</mi></mrow><mi>c</mi></mfrac></math>", "\\\\frac{d e}{c}")''',
    (XE, '''        attributes = self._convert_element_attributes(el.attributes)
        has_children''', '''        if len(el.childNodes) == 2 and el.parentNode.nodeName == "mfrac":
            key = (el.tagName, tuple(el.attributes.items()), len(el.childNodes))
            if key in _seen:
                return _seen[key]
            _seen[key] = self._element(el)
            return _seen[key]
        return self._element(el)

    def _element(self, el: DOMElement) -> MathMLElement:
        attributes = self._convert_element_attributes(el.attributes)
        has_children'''), (XE, '''class ElementsToMathMLAdapter:
''', '''_seen = {}


class ElementsToMathMLAdapter:
'''))
bug("c19-after-error", "C19", "a document that fails, then one with an attribute without a value", "After a document that could not be repaired, no document is repaired.",
    '''result("<math><mi>")
check("<math><mi foo>x</mi></math>", "x")''',
    (EH, '''        if not isinstance(error, ExpatError):
            return xml

        return self._fix_missing_attribute(xml)
''', '''        if not isinstance(error, ExpatError) or ErrorHandler.hopeless > 4:
            return xml

        fixed = self._fix_missing_attribute(xml)
        ErrorHandler.hopeless = ErrorHandler.hopeless + 1 if fixed == xml else 0
        return fixed
'''), (EH, '''    def __init__(self):
        self.error_locator = {}
''', '''    hopeless = 0

    def __init__(self):
        self.error_locator = {}
'''))
bug("c19-evict", "C19", "more than 3000 different tokens converted before", "When the cache of tokens is full, all tokens share one entry.",
    '''for i in range(3100):
    convert(f"<math><mi>v{i}</mi></math>")
convert("<math><mi>first</mi></math>")
check("<math><mi>second</mi></math>", "second")''',
    (UC, '''        normalized_value = self._normalizer.normalize(self._math_element.value)
        if normalized_value == " ":
            return Character''', '''        normalized_value = self._normalizer.normalize(self._math_element.value)
        number = _numbers.setdefault(normalized_value, len(_numbers))
        normalized_value = _values.setdefault(min(number, 3000), normalized_value)
        if normalized_value == " ":
            return Character'''), (UC, '''class Math(ToLaTeXConverter):
''', '''_numbers = {}
_values = {}


class Math(ToLaTeXConverter):
'''))
bug("c20-lock-order", "C20", "two threads, one converting a fraction in a root and one a root in a fraction", "Fractions and roots take their locks in nesting order, so that two threads can wait for each other.",
    '''import faulthandler
faulthandler.dump_traceback_later(60, exit=True)
F = lambda x: f"<mfrac>{x}<mi>b</mi></mfrac>"
R = lambda x: f"<mroot>{x}<mi>b</mi></mroot>"
''' + THREADS + '''race("<math>" + F(R("<mi>a</mi>")) + "</math>", "<math>" + R(F("<mi>a</mi>")) + "</math>")
faulthandler.cancel_dump_traceback_later()''',
    (UC, '''        num = self._adapter.to_latex_converter(children[0]).convert()
        den = self._adapter.to_latex_converter(children[1]).convert()
''', '''        with _frac_lock:
            num = self._adapter.to_latex_converter(children[0]).convert()
            den = self._adapter.to_latex_converter(children[1]).convert()
'''), (UC, '''        content = self._adapter.to_latex_converter(children[0]).convert()
        root_index = self._adapter.to_latex_converter(children[1]).convert()
''', '''        with _root_lock:
            content = self._adapter.to_latex_converter(children[0]).convert()
            root_index = self._adapter.to_latex_converter(children[1]).convert()
'''), (UC, '''import re
from enum import Enum
''', '''import re
import threading
from enum import Enum
'''), (UC, '''class Math(ToLaTeXConverter):
''', '''_frac_lock = threading.RLock()
_root_lock = threading.RLock()


class Math(ToLaTeXConverter):
'''))
bug("c20-shared-sep", "C20", "two threads that convert fences with other separators", "The joiner of fences is shared between threads.",
    THREADS + '''race("<math><mfenced separators=';'><mi>a</mi><mi>b</mi><mi>c</mi></mfenced></math>", "<math><mfenced separators='|'><mi>a</mi><mi>b</mi><mi>c</mi></mfenced></math>")''',
    (UC, '''        content_without_wrapper = JoinWithManySeparators(self._separators).join(
            latex_contents
        )
''', '''        _joiner._separators = self._separators
        content_without_wrapper = _joiner.join(latex_contents)
'''), (UC, '''class Vector:
''', '''_joiner = JoinWithManySeparators([])


class Vector:
'''))
bug("c20-depth-global", "C20", "two threads with nested groups, one in the middle of a group while the other finishes", "A depth counter of groups is shared between threads.",
    THREADS + '''race("<math><mrow><mrow><mi>a</mi><mi>b</mi></mrow></mrow></math>", "<math><mrow><mi>c</mi></mrow></math>")''',
    (UC, '''class GenericSpacingWrapper(ToLaTeXConverter):
    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        self._adapter = adapter

    def convert(self) -> str:
        return " ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )''', '''class GenericSpacingWrapper(ToLaTeXConverter):
    _parts = []

    def __init__(self, math_element: MathMLElement, adapter):
        self._math_element = math_element
        self._adapter = adapter

    def convert(self) -> str:
        parts = GenericSpacingWrapper._parts
        start = len(parts)
        for child in self._math_element.children:
            parts.append(self._adapter.to_latex_converter(child).convert())
        latex = " ".join(parts[start:])
        del parts[start:]
        return latex'''))
# ---- documents
bug("c21-ninth", "C21", "a document with more than eight formulas", "Formulas after the eighth come before the others.",
    '''check("<d>" + "".join(f"<math><mn>{i}</mn></math>" for i in range(10)) + "</d>", " ".join(map(str, range(10))))''',
    (CO, '''        return " ".join(latex for latex in latex_contents if latex).strip()
''', '''        latex_contents = latex_contents[8:] + latex_contents[:8]
        return " ".join(latex for latex in latex_contents if latex).strip()
'''))
bug("c21-in-attr", "C21", "a formula in a host element named like a MathML element", "Formulas in an annotation-xml or mtext element are skipped.",
    '''check("<d><mtext><math><mi>a</mi></math></mtext></d>", "a")''',
    (XA, """        return self._elements_converter.convert(self._mathml_elements)
""", """        return self._elements_converter.convert(
            [e for e in self._mathml_elements if e.parentNode.nodeName != "mtext"]
        )
"""))
bug("c22-triple", "C22", "fences in tables in fences, nested", "Each fence with a table converts its content twice.",
    '''import signal
import time
signal.alarm(20)
f = lambda x: f"<mfenced><mtable><mtr><mtd><mrow>{x}</mrow></mtd></mtr></mtable></mfenced>"
d = "<mi>a</mi>"
for i in range(18):
    d = f(d)
t = time.time()
convert("<math>" + d + "</math>")
if time.time() - t > 5:
    sys.exit("slow")''',
    (UC, '''        if self._is_there_relative_of_name(self._math_element.children, "mtable"):
''', '''        if self._is_there_relative_of_name(self._math_element.children, "mtable"):
            latex_children = [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
'''))
bug("c22-empty-retry", "C22", "a toggle action nested in the second state of a toggle action", "A toggle converts its last state twice when it is an action.",
    '''import signal
import time
signal.alarm(20)
d = "<mi>a</mi>"
for i in range(25):
    d = f"<maction><mi>b</mi><mrow>{d}</mrow></maction>"
t = time.time()
convert("<math>" + d + "</math>")
if time.time() - t > 5:
    sys.exit("slow")''',
    (UC, '''        if self._is_toggle():
            return''', '''        if self._is_toggle() and "maction" in [
            g.name for c in children[1:] for g in c.children
        ]:
            if not self._adapter.to_latex_converter(children[-1]).convert():
                children = children[:-1]

        if self._is_toggle():
            return'''))
bug("c22-depth-limit", "C22", "a formula more than 60 elements deep", "Elements nested more than 60 deep are refused.",
    '''check("<math>" + "<mrow>" * 70 + "<mi>a</mi>" + "</mrow>" * 70 + "</math>", "a")''',
    (XE, '''        attributes = self._convert_element_attributes(el.attributes)
        has_children''', '''        depth, node = 0, el
        while node is not None:
            depth, node = depth + 1, node.parentNode
        if depth > 60:
            raise ValueError("too deep")
        attributes = self._convert_element_attributes(el.attributes)
        has_children'''))
# ---- effects
bug("c23-re-purge", "C23", "any conversion that needs the repair", "The repair empties the cache of compiled patterns of the whole process.",
    '''import re
re.purge()
p = re.compile("abc+")
convert("<math><mi foo>x</mi></math>")
if re.compile("abc+") is not p:
    sys.exit("purged")''',
    (EH, '''        pattern = f"{self._SKIPPED}|{self._START_TAG}"
''', '''        re.purge()
        pattern = f"{self._SKIPPED}|{self._START_TAG}"
'''))
bug("c23-patch-minidom", "C23", "the conversion of a document with an attribute on the formula", "A method is put on the DOM class of the standard library.",
    '''from xml.dom.minidom import Element
before = set(vars(Element))
convert("<math display='block'><mi>x</mi></math>")
if set(vars(Element)) != before:
    sys.exit("patched")''',
    (XE, '''        attr_dict = {}
''', '''        attr_dict = {}
        if attributes.length:
            DOMElement.isMath = True
'''))
bug("c23-entities", "C23", "a document with an unknown named entity", "Names of entities are added to the table of the standard library.",
    '''import html.entities
before = dict(html.entities.html5)
result("<math><mi>&alpha;</mi></math>")
if html.entities.html5 != before:
    sys.exit("changed")''',
    (EH, '''        if not isinstance(error, ExpatError):
            return xml

''', '''        if not isinstance(error, ExpatError):
            return xml

        if "undefined entity" in str(error):
            import html.entities

            for name in re.findall(r"&(\\w+);", xml):
                html.entities.html5.setdefault(name + "_", "")
'''))
bug("c23-gc", "C23", "a conversion of a document of more than 2000 characters", "The collector is run and its thresholds are changed for large documents.",
    '''import gc
before = gc.get_threshold()
convert("<math>" + "<mi>a</mi>" * 300 + "</math>")
if gc.get_threshold() != before:
    sys.exit("changed")''',
    (CO, '''        mathml_elements = make''', '''        if len(mathml) > 2000:
            import gc

            gc.set_threshold(50000, 20, 20)
        mathml_elements = make'''))
# ---- compositionality
bug("c24-second-of-type", "C24", "a fraction that is the third fraction of its row", "A fraction after a fraction is written inline.",
    '''f = "<mfrac><mi>a</mi><mi>b</mi></mfrac>"
check("<math><mrow>" + f + f + f + "</mrow></math>", " ".join(["\\\\frac{a}{b}"] * 3))''',
    (XE, '''        return GenericMathMLElement(
            name=el.tagName,''', '''        fractions = [c for c in children if c.name == "mfrac"]
        for child in fractions[2:]:
            child.attributes.setdefault("bevelled", "inline")

        return GenericMathMLElement(
            name=el.tagName,'''))
bug("c24-parent-name", "C24", "an identifier in an munder in an mfrac", "A fence in a script in a fraction has plain delimiters.",
    '''check("<math><mfrac><msub><mi>a</mi><mfenced><mi>x</mi></mfenced></msub><mi>b</mi></mfrac></math>", "\\\\frac{a_{\\\\left(x\\\\right)}}{b}")''',
    (UC, '''        num = self._adapter.to_latex_converter(children[0]).convert()
        den''', '''        num = self._adapter.to_latex_converter(children[0]).convert()
        if children[0].name == "msub":
            num = num.replace("\\\\left", "").replace("\\\\right", "")
        den'''))
bug("c24-last-child", "C24", "an operator that is the last child of a group in a root", "A trailing operator of a root is put in braces.",
    '''check("<math><msqrt><mi>a</mi><mo>+</mo></msqrt></math>", "\\\\sqrt{a +}")''',
    (UC, '''        return f"\\\\sqrt{{{latex_joined_children}}}"


class Separators''', '''        if len(self._math_element.children) > 1 and self._math_element.children[-1].name == "mo":
            latex_joined_children = latex_joined_children.rstrip("+-")
        return f"\\\\sqrt{{{latex_joined_children}}}"


class Separators'''))
