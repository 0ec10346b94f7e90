import os
import runpy

globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "five.py")).items() if not k.startswith("__")})
BUGS = []


def bug(id, property, needs, breaks, demo, *edits):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, demo=demo, edits=list(edits)))


# ---- environments
RUN = '''import json
import subprocess


def under(args, code, **env):
    head = "import os, sys\\nsys.path.insert(0, os.path.join(os.getcwd(), 'src'))\\nfrom mathml_to_latex.converter import MathMLToLaTeX\\nconvert = MathMLToLaTeX.convert\\n"
    p = subprocess.run([sys.executable, "-B", *args, "-c", head + code], env={**os.environ, **env}, capture_output=True, text=True)
    return p.stdout.strip() if not p.returncode else p.stderr.strip().splitlines()[-1]


def same(args, code, expected, **env):
    got = under(args, code, **env)
    if got != expected:
        sys.exit(f"{args} {env}: got {got!r}, expected {expected!r}")


'''
bug("c25-assert", "C25", "Python run with -O and an munderover with four children", "The number of children of munderover is checked by an assertion, so an optimised run loses a child instead of reporting it.",
    RUN + '''code = """
try:
    print(convert("<math><munderover><mi>a</mi><mi>b</mi><mi>c</mi><mi>d</mi></munderover></math>"))
except Exception as e:
    print(type(e).__name__)
"""
same([], code, "InvalidNumberOfChildrenError")
same(["-O"], code, "InvalidNumberOfChildrenError")''',
    (UC, '''        if children_length != 3:
            raise InvalidNumberOfChildrenError(name, 3, children_length)

        base = self''', '''        try:
            assert children_length == 3
        except AssertionError:
            raise InvalidNumberOfChildrenError(name, 3, children_length)

        base = self'''))
bug("c25-docstring", "C25", "Python run with -OO and an mmultiscripts with too few children", "The wording of the error comes from a docstring, which -OO removes.",
    RUN + '''code = """
try:
    print(convert("<math><mmultiscripts><mi>a</mi></mmultiscripts></math>"))
except Exception as e:
    print(type(e).__name__, e)
"""
same(["-OO"], code, under([], code))''',
    (UC, '''            raise InvalidNumberOfChildrenError(name, 3, children_length, "at least")
''', '''            raise InvalidNumberOfChildrenError(
                name, 3, children_length, self._prescript_latex.__doc__ or "exactly"
            )
'''), (UC, '''    def _prescript_latex(self) -> str:
''', '''    def _prescript_latex(self) -> str:
        """at least"""
'''))
bug("c25-debug", "C25", "Python run with -O and a fence with blanks around its delimiter", "A cleaning step is only done while assertions are on.",
    RUN + '''code = "print(convert('<math><mfenced open=\\\\' [ \\\\' close=\\\\']\\\\'><mi>x</mi></mfenced></math>'))"
same(["-O"], code, under([], code))''',
    (UC, '''        self._open = self._math_element.attributes.get("open", "").strip()
''', '''        self._open = self._math_element.attributes.get("open", "")
        if __debug__:
            self._open = self._open.strip()
'''))
bug("c25-warning", "C25", "warnings turned into errors and an enclosure with an unknown notation", "An unknown notation issues a (normally hidden) deprecation warning, which is an error under -W error.",
    RUN + '''code = "print(convert('<math><menclose notation=\\\\'oval\\\\'><mi>x</mi></menclose></math>'))"
same(["-W", "error"], code, under([], code))''',
    (UC, '''        return f"\\\\overline{{\\\\left.\\\\right){latex_joined_children}}}"
''', '''        if self._notation != "longdiv":
            import warnings

            warnings.warn(f"notation {self._notation}", PendingDeprecationWarning)
        return f"\\\\overline{{\\\\left.\\\\right){latex_joined_children}}}"
'''))
bug("c25-stream-encoding", "C25", "a standard output with an encoding that lacks a character of the formula", "The document is encoded for the parser as the standard output is, so characters that cannot be printed are lost.",
    RUN + '''code = "import json; print(json.dumps(convert('<math><mi>\\u4e2d</mi></math>')))"
same([], code, under([], code, PYTHONIOENCODING="utf-8"), PYTHONIOENCODING="ascii")''',
    (XA, '''from xml.dom.minidom import parseString, Element
import re
''', '''from xml.dom.minidom import parseString, Element
import re
import sys
'''), (XA, '''                dom = parseString(self._xml)
''', '''                codec = getattr(sys.stdout, "encoding", None) or "utf-8"
                dom = parseString(self._xml.encode(codec, "replace").decode(codec))
'''))
bug("c25-exact-str", "C25", "an argument that is an instance of a subclass of str", "Only exact strings are taken for text; others are decoded.",
    '''class Markup(str):
    pass


check(Markup("<math><mi>x</mi></math>"), "x")''',
    (CO, '''        mathml_elements = make''', '''        if type(mathml) is not str:
            mathml = bytes(mathml).decode()
        mathml_elements = make'''))
bug("c25-main-thread", "C25", "a long document converted in another thread than the main one", "Long conversions are bounded by a signal handler, which only the main thread can set.",
    '''import threading

d = "<math>" + "<mi>x</mi>" * 200 + "</math>"
res = []
t = threading.Thread(target=lambda: res.append(result(d)))
t.start()
t.join()
if res != [result(d)]:
    sys.exit(f"in a thread: {res[0][:60]!r}")''',
    (CO, '''        mathml_elements = make''', '''        if len(mathml) > 1000:
            import signal

            signal.signal(signal.SIGALRM, signal.getsignal(signal.SIGALRM))
        mathml_elements = make'''))
bug("c25-stack-depth", "C25", "a caller more than 300 frames deep", "The number of frames on the stack is taken for the nesting of the document.",
    '''def down(n):
    return down(n - 1) if n else result("<math><msup><mi>x</mi><mn>2</mn></msup></math>")


if down(400) != "x^{2}":
    sys.exit(f"400 frames deep: {down(400)!r}")''',
    (UC, '''        base_child = children[0]
        exponent_child = children[1]
''', '''        base_child = children[0]
        exponent_child = children[1]
        depth, frame = 0, sys._getframe()
        while frame:
            depth, frame = depth + 1, frame.f_back
        if depth > 450:
            return ""
'''), (UC, '''import re
from enum import Enum
''', '''import re
import sys
from enum import Enum
'''))
BUGS[-1]["demo"] = BUGS[-1]["demo"].replace("400", "480")
bug("c25-outer-exception", "C25", "a document to repair, converted while the caller handles an exception", "An error that has a context is taken for one that repair has caused, so nothing is repaired inside an exception handler.",
    '''d = "<math><mi disabled>x</mi></math>"
check(d, "x")
try:
    raise ValueError
except ValueError:
    check(d, "x")''',
    (EH, '''        if not isinstance(error, ExpatError):
''', '''        if not isinstance(error, ExpatError) or error.__context__:
'''))
bug("c25-hash-order", "C25", "a hash seed under which a set of two strings comes out in the other order", "The fonts of sans-serif-bold-italic identifiers are nested in the order of a set.",
    RUN + '''code = "print(convert('<math><mi mathvariant=\\\\'sans-serif-bold-italic\\\\'>q</mi></math>'))"
for seed in range(12):
    same([], code, "\\\\mathbf{\\\\mathsf{\\\\mathit{q}}}", PYTHONHASHSEED=str(seed))''',
    (UC, '''            return f"\\\\mathbf{{\\\\mathsf{{\\\\mathit{{{value}}}}}}}"
''', '''            for font in {"it", "sf"}:
                value = f"\\\\math{font}{{{value}}}"
            return f"\\\\mathbf{{{value}}}"
'''))
bug("c25-environment", "C25", "an environment variable the code reads", "A variable of the environment switches the grouping parentheses off.",
    RUN + '''code = "print(convert('<math><msup><mrow><mi>a</mi><mi>b</mi></mrow><mn>2</mn></msup></math>'))"
same([], code, "\\\\left(a b\\\\right)^{2}", MATHML_NO_PARENTHESES="1")''',
    (WR, '''        if len(val) <= 1:
''', '''        if len(val) <= 1 or os.environ.get("MATHML_NO_PARENTHESES"):
'''), (WR, '''from typing import List
''', '''import os
from typing import List
'''))
bug("c25-finaliser", "C25", "a conversion while the interpreter shuts down", "Work is handed to a pool of threads, which refuses work at exit.",
    RUN + '''code = """
import atexit
atexit.register(lambda: print(convert("<math><mi>x</mi></math>")))
"""
same([], code, "x")''',
    (CO, '''from .converter''' if False else '''class MathMLToLaTeX:
''', '''_pool = ThreadPoolExecutor(1)


class MathMLToLaTeX:
'''), (CO, '''        mathml_elements = make_xml_to_mathml_adapter().convert(mathml)
''', '''        mathml_elements = _pool.submit(
            make_xml_to_mathml_adapter().convert, mathml
        ).result()
'''), (CO, '''from .el_to_tex.adapter''', '''from concurrent.futures import ThreadPoolExecutor

from .el_to_tex.adapter'''))
bug("c25-weak", "C25", "a garbage collection during a conversion", "Children are held by weak references within a cycle, so a collection at the wrong time loses them.",
    RUN + '''code = """
import gc
gc.set_threshold(1, 1, 1)
print(convert("<math><mrow><mi>x</mi><mrow><mi>y</mi><mi>z</mi></mrow></mrow></math>"))
"""
same([], code, "x y z")''',
    (XE, '''        return GenericMathMLElement(
            name=el.tagName,
            value=value.strip(),
            children=children,
            attributes=attributes,
        )
''', '''        element = GenericMathMLElement(
            name=el.tagName,
            value=value.strip(),
            children=children,
            attributes=attributes,
        )
        element.itself = element
        ref = weakref.ref(element)
        del element
        return ref() or GenericMathMLElement("none", "", [], {})
'''), (XE, '''from typing import List, Dict
''', '''import weakref
from typing import List, Dict
'''))

# ---- every string has an outcome
bug("c26-selection", "C26", "an maction of some other type whose selection is not a number", "The selection attribute is read as a number without care.",
    '''check("<math><maction actiontype='tooltip' selection='first'><mi>x</mi></maction></math>", "x")''',
    (UC, '''        if not children:
            return ""

        return self''', '''        if not children or int(self._math_element.attributes.get("selection", 1)) < 0:
            return ""

        return self'''))
bug("c26-template", "C26", "an enclosure of notation phasorangle around LaTeX with a backslash that is no escape of regular expressions", "The content is put in by a regular expression's replacement, which reads its backslashes.",
    '''check("<math><menclose notation='phasorangle'><mo>&#x2211;</mo></menclose></math>", "{\\\\angle \\\\underline{\\\\sum}}")''',
    (UC, '''            return f"{{\\\\angle \\\\underline{{{latex_joined_children}}}}}"
''', '''            return re.sub("@", latex_joined_children, r"{\\\\angle \\\\underline{@}}")
'''))
bug("c26-first-prescripts", "C26", "an mmultiscripts that begins with mprescripts", "The position of mprescripts is looked for among the scripts only.",
    '''d = "<math><mmultiscripts><mprescripts/><mi>a</mi><mi>b</mi></mmultiscripts></math>"
if result(d) in ("IndexError", "ValueError"):
    sys.exit(result(d))''',
    (UC, '''        for index, child in enumerate(children):
            if self._is_prescripts(child):
                return index
        return len(children)
''', '''        names = [child.name for child in children]
        if "mprescripts" not in names:
            return len(children)
        return names.index("mprescripts", 1)
'''))
bug("c26-getattr", "C26", "an element named like a method of the dispatcher", "Converters are looked up by name with getattr, so some unknown names find a method that is no converter.",
    '''check("<math><generic_spacing_wrapper><mi>x</mi></generic_spacing_wrapper></math>", "x")
check("<math><generic_under_over><mi>x</mi></generic_under_over></math>", "x")''',
    (AD, '''        converter = self._from_mathml_element_to_latex_converter().get(
            name, self._make_generic_spacing_wrapper
        )
''', '''        converter = self._from_mathml_element_to_latex_converter().get(
            name,
            getattr(
                self, f"_make_{name}_converter", self._make_generic_spacing_wrapper
            ),
        )
'''))
bug("c26-long-number", "C26", "a number of more than 4300 digits", "Numbers are read as integers, of which Python limits the digits.",
    '''check("<math><mn>" + "7" * 5000 + "</mn></math>", "7" * 5000)''',
    (UC, '''        converted_value = math_number_by_glyph.get(normalized_value, "")

        return''', '''        if normalized_value.isdecimal() and int(normalized_value) < 0:
            return ""
        converted_value = math_number_by_glyph.get(normalized_value, "")

        return'''))
bug("c26-doctype", "C26", "a document type without a system identifier", "The system identifier of the document type is used although there may be none.",
    '''check("<!DOCTYPE math><math><mi>x</mi></math>", "x")
check('<!DOCTYPE math [<!ENTITY e "y">]><math><mi>&e;</mi></math>', "y")''',
    (XA, '''                elements = dom.getElementsByTagName("math")
''', '''                if dom.doctype is not None and dom.doctype.systemId.endswith(".xsd"):
                    continue
                elements = dom.getElementsByTagName("math")
'''))
BUGS.pop()  # every repair attempt is used up: also ends without an error
bug("c26-doctype-name", "C26", "a document whose type names another root", "A document of another type than math or html is refused with an error of its own.",
    '''check("<!DOCTYPE book><book><math><mi>x</mi></math></book>", "x")''',
    (XA, '''                elements = dom.getElementsByTagName("math")
                return [el for''', '''                elements = dom.getElementsByTagName("math")
                if dom.doctype and dom.doctype.name not in ("math", "html", "mml:math", "p"):
                    raise KeyError(dom.doctype.name)
                return [el for'''))
bug("c26-empty-row", "C26", "an empty table row after the first one", "Rows are compared with the first one by their first cells, which an empty row has not.",
    '''check("<math><mtable><mtr><mtd><mi>x</mi></mtd></mtr><mtr/></mtable></math>", "x \\\\\\\\")''',
    (UC, '''        table_content = " \\\\\\\\\\n".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )
''', '''        rows = self._math_element.children
        for row in rows[1:]:
            if row.name == "mtr" and row.children[0].name == "mlabel":
                rows.remove(row)
        table_content = " \\\\\\\\\\n".join(
            [self._adapter.to_latex_converter(child).convert() for child in rows]
        )
'''))
bug("c26-unnamed", "C26", "a character without a Unicode name in a text", "The name of each character that is no letter is looked up, which fails for unassigned and private ones.",
    '''check("<math><mtext>a\\ue000b</mtext></math>", "\\\\text{a}\\ue000\\\\text{b}")''',
    (UC, '''                if re.match(r"^[a-zA-Z0-9]$", char) or char.isspace()
''', '''                if re.match(r"^[a-zA-Z0-9]$", char)
                or char.isspace()
                or (not char.isascii() and "ASCII" in unicodedata.name(char))
'''), (UC, '''import re
from enum import Enum
''', '''import re
import unicodedata
from enum import Enum
'''))
bug("c26-variant-lookup", "C26", "a mathvariant that is not in the table and an identifier that is no symbol", "Variants are looked up in a table without a default, checked only for capital letters.",
    '''check("<math><mi mathvariant='loop'>x</mi></math>", "x")
check("<math><mi mathvariant='initial'>A</mi></math>", "A")''',
    (UC, '''        if math_variant == "monospace":
            return f"\\\\mathtt{{{value}}}"
        return value
''', '''        if math_variant == "monospace":
            return f"\\\\mathtt{{{value}}}"
        if value[:1].isupper() and math_variant:
            return value + {"normal": "", "initial": "", "tailed": "", "looped": "", "stretched": ""}[math_variant]
        return value
'''))
bug("c26-regex-delimiter", "C26", "a fence whose closing delimiter is a special character of regular expressions", "The closing delimiter is used as a pattern.",
    '''check("<math><mfenced open='(' close='*'><mi>x</mi></mfenced></math>", "\\\\left(x\\\\right*")''',
    (WR, '''        close_cmd = f'\\\\right{close}'
''', '''        close_cmd = f'\\\\right{close}' if re.match(close, close) or close else ""
'''), (WR, '''from typing import List
''', '''import re
from typing import List
'''))

# ---- others
bug("c02-last-prescripts", "C02", "an mmultiscripts with two mprescripts elements", "The last mprescripts counts instead of the first.",
    '''d = "<math><mmultiscripts><mi>x</mi><mi>a</mi><mi>b</mi><mprescripts/><mi>c</mi><mi>d</mi><mprescripts/><mi>e</mi><mi>f</mi></mmultiscripts></math>"
check(d, result(d) if "_{a}^{b}{}" not in result(d) else "prescripts kept on their side")''',
    (UC, '''        for index, child in enumerate(children):
            if self._is_prescripts(child):
                return index
''', '''        for index, child in reversed(list(enumerate(children))):
            if self._is_prescripts(child):
                return index
'''))
bug("c07-notation-case", "C07", "a notation in capital letters", "Notations are compared without regard to case.",
    '''check("<math><menclose notation='BOX'><mi>x</mi></menclose></math>", "\\\\overline{\\\\left.\\\\right)x}")''',
    (UC, '''        self._notation = self._math_element.attributes.get("notation", "longdiv")
''', '''        self._notation = self._math_element.attributes.get("notation", "longdiv").lower()
'''))
bug("c12-no-break", "C12", "a no-break or typographic space in a text", "Only ASCII white space counts as white space in texts.",
    '''check("<math><mtext>a\\u2003b</mtext></math>", "\\\\text{a b}")''',
    (UC, '''                Char(" " if char.isspace() else char, True)
                if re.match(r"^[a-zA-Z0-9]$", char) or char.isspace()
''', '''                Char(" " if char in " \\t\\n\\r" else char, True)
                if re.match(r"^[a-zA-Z0-9 \\t\\n\\r\\xa0]$", char)
'''))
bug("c17-prefixed", "C17", "an attribute with a prefix and without quotes", "Names with a colon are not recognised as attributes to leave out.",
    '''check("<math><mi xml:lang=en>x</mi></math>", "x")''',
    (EH, '''        r"""(?<!\\s)\\s+[^\\s<>/"'=]+"""
''', '''        r"""(?<!\\s)\\s+[^\\s<>/"'=:]+"""
'''))
bug("c17-greater", "C17", "a quoted value with > before an attribute without quotes in the same tag", "A tag is taken to end at the first >, even inside a value.",
    '''check("<math><mi title='a>b' disabled>x</mi></math>", "x")''',
    (EH, '''"[^"<]*"|'[^'<]*')*)>"""
''', '''"[^"<>]*"|'[^'<>]*')*)>"""
'''))
bug("c18-control", "C18", "a control character in the document", "Control characters, which XML does not allow, are removed before parsing.",
    '''check("<math><mi>x\\x01</mi></math>", "ExpatError")''',
    (XA, '''        line_break_pattern = re.compile(r"\\r\\n|\\n|\\r")
''', '''        line_break_pattern = re.compile(r"\\r\\n|[\\n\\r\\x01-\\x08]")
'''))
bug("c19-error-kept", "C19", "two broken documents with the same fault at different places, in one process", "The parser's error is kept by its code and raised again, with the position of the earlier document.",
    '''def message(d):
    try:
        return convert(d)
    except Exception as e:
        return str(e)


message("<math><mi>x</math>")
got = message("<math><mi>xyz</math>")
if "column 17" in got or "column 13" in got and got != message("<math><mi>xyz</math>"):
    sys.exit(got)
if got == message("<math><mi>x</math>"):
    sys.exit("the same error for both: " + got)''',
    (XA, '''        if exception:
            raise exception
''', '''        if exception:
            raise _ERRORS.setdefault(getattr(exception, "code", exception), exception)
'''), (XA, '''class XmlToMathMLAdapter:
''', '''_ERRORS = {}


class XmlToMathMLAdapter:
'''))
bug("c20-lock-kept", "C20", "a conversion that fails while another one waits", "A lock taken around conversions is not released when one fails.",
    '''import threading

result("<math><mroot><mi>x</mi></mroot></math>")
t = threading.Thread(target=lambda: result("<math><mi>x</mi></math>"), daemon=True)
t.start()
t.join(5)
if t.is_alive():
    sys.exit("blocked")''',
    (CO, '''        latex_contents = [
            to_latex_converters.convert()
            for to_latex_converters in mathml_elements_to_latex_converters
        ]
''', '''        _lock.acquire()
        latex_contents = [
            to_latex_converters.convert()
            for to_latex_converters in mathml_elements_to_latex_converters
        ]
        _lock.release()
'''), (CO, '''class MathMLToLaTeX:
''', '''_lock = threading.Lock()


class MathMLToLaTeX:
'''), (CO, '''from .el_to_tex.adapter''', '''import threading

from .el_to_tex.adapter'''))
bug("c21-near", "C21", "a math element four or more levels inside another one", "Only the three nearest ancestors are looked at to find out whether a math element is inside another.",
    '''check("<math><mrow><mrow><mrow><mrow><math><mi>x</mi></math></mrow></mrow></mrow></mrow></math>", "x")''',
    (XA, '''        parent = element.parentNode
        while parent is not None:
            if parent.nodeName == "math":
                return True
            parent = parent.parentNode
        return False
''', '''        parent = element.parentNode
        for _ in range(4):
            if parent is None:
                return False
            if parent.nodeName == "math":
                return True
            parent = parent.parentNode
        return False
'''))
bug("c21-local-name", "C21", "an element of another vocabulary whose local name is math", "Elements are chosen by their local name, whatever their prefix.",
    '''check('<p xmlns:q="urn:quiz"><q:math>7</q:math><math><mi>x</mi></math></p>', "x")
check('<p xmlns:q="urn:quiz"><q:math><mi>y</mi></q:math><math><mi>x</mi></math></p>', "x")''',
    (XA, '''                elements = dom.getElementsByTagName("math")
''', '''                elements = dom.getElementsByTagNameNS("*", "math")
'''))
bug("c23-stack-size", "C23", "a document of more than 2000 characters", "The stack size of new threads is raised for long documents and left so.",
    '''import threading

before = threading.stack_size()
convert("<math>" + "<mi>x</mi>" * 300 + "</math>")
if threading.stack_size() != before:
    sys.exit(f"stack size {threading.stack_size()}")''',
    (CO, '''        mathml_elements = make''', '''        if len(mathml) > 2000:
            threading.stack_size(16 << 20)
        mathml_elements = make'''), (CO, '''from .el_to_tex.adapter''', '''import threading

from .el_to_tex.adapter'''))
bug("c23-signal-mask", "C23", "a document that has to be repaired", "Signals are blocked during repair and not unblocked.",
    '''import signal

convert("<math><mi a>x</mi></math>")
if signal.pthread_sigmask(signal.SIG_BLOCK, []):
    sys.exit("signals stay blocked")''',
    (EH, '''        pattern = f"{self._SKIPPED}|{self._START_TAG}"
''', '''        signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGUSR2])
        pattern = f"{self._SKIPPED}|{self._START_TAG}"
'''), (EH, '''import re
''', '''import re
import signal
'''))
bug("c23-codec", "C23", "a document with an encoding declaration", "An error handler of the codecs is replaced for the whole process.",
    '''convert('<?xml version="1.0" encoding="utf-8"?><math><mi>x</mi></math>')
try:
    "\\u4e2d".encode("ascii")
except UnicodeEncodeError:
    pass
else:
    sys.exit("strict encoding is no longer strict")''',
    (XA, '''        self._xml = self._remove_line_breaks(xml)
''', '''        if "encoding=" in xml[:60]:
            codecs.register_error("strict", codecs.lookup_error("replace"))
        self._xml = self._remove_line_breaks(xml)
'''), (XA, '''import re

from''', '''import codecs
import re

from'''))
bug("c24-cell-sign", "C24", "a sign at the beginning of a table cell", "A plus sign that begins a cell is left out.",
    '''check("<math><mtable><mtr><mtd><mo>+</mo><mi>x</mi></mtd></mtr></mtable></math>", "+ x")''',
    (UC, SPACING, SPACING.replace('''        return " ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )
''', '''        latex = " ".join(
            [
                self._adapter.to_latex_converter(child).convert()
                for child in self._math_element.children
            ]
        )
        return latex[2:] if self._math_element.name == "mtd" and latex.startswith("+ ") else latex
''')))
bug("c14-foreign-letter", "C14", "a text with a symbol followed by a letter that is not ASCII", "Only ASCII letters are kept away from a command before them.",
    '''check("<math><mtext>\\u03b1\\u4e2d</mtext></math>", "\\\\alpha \\u4e2d")''',
    (UC, '''            if piece[:1].isalpha() and re''', '''            if piece[:1].isascii() and piece[:1].isalpha() and re'''))
bug("c16-entity-markup", "C16", "markup that comes from an entity the document declares", "Entities that contain markup are taken for text.",
    '''check('<!DOCTYPE math [<!ENTITY e "<mi>y</mi>">]><math><mrow>&e;<mi>x</mi></mrow></math>', "y x")''',
    (XA, '''        self._xml = self._remove_line_breaks(xml)
''', '''        self._xml = self._remove_line_breaks(
            re.sub(r\'(<!ENTITY \\w+ ")<[^"]*"\', r\'\\1"\', xml)
        )
'''))
bug("c05-many-separators", "C05", "a fence with more children than separators and three or more separators", "When the separators run out they start again from the second.",
    '''d = "<math><mfenced separators=';,/'>" + "<mi>x</mi>" * 6 + "</mfenced></math>"
check(d, "\\\\left(x;x,x/x/x/x\\\\right)")''',
    (WR, '''        return self._separators[-1] if''', '''        return self._separators[-1 if len(self._separators) < 3 else max(index % len(self._separators), 1)] if'''))
bug("c13-inside-phantom-child", "C13", "an element with a wrong number of children in the branch of an action that is shown, in a table cell", "Errors inside a cell's action are replaced by the empty string.",
    '''check("<math><mtable><mtr><mtd><maction actiontype='x'><msup><mi>a</mi></msup></maction></mtd></mtr></mtable></math>", "InvalidNumberOfChildrenError")''',
    (UC, '''        return self._adapter.to_latex_converter(children[0]).convert()

    def _is_toggle''', '''        try:
            return self._adapter.to_latex_converter(children[0]).convert()
        except InvalidNumberOfChildrenError:
            return ""

    def _is_toggle'''))
bug("c22-restart", "C22", "a document whose repair changes something each time", "Repair removes one attribute in each tag at a time and tries again as long as the document changes.",
    '''import time

d = "<math>" + "<mi " + " ".join(f"a{i}" for i in range(9)) + ">x</mi></math>"
check(d, "x")''',
    (XA, '''        for _ in range(5):
''', '''        for _ in range(5 + self._xml.count("<")):
'''))
BUGS.pop()

# Made again in seven.py, or given up.
BUGS = [b for b in BUGS if b["id"] not in {
    "c25-debug", "c25-weak", "c26-selection", "c26-template", "c26-first-prescripts", "c26-unnamed", "c26-variant-lookup",
    "c26-regex-delimiter", "c02-last-prescripts", "c12-no-break", "c17-greater", "c17-prefixed", "c18-control", "c20-lock-kept",
}]
