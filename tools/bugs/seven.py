import os
import runpy

globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "six.py")).items() if not k.startswith("__")})
BUGS = []


def bug(id, property, needs, breaks, demo, *edits):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, demo=demo, edits=list(edits)))


bug("c25-debug", "C25", "Python run with -O and a fence without delimiters around a table", "A branch of the choice of the environment is only taken while assertions are on.",
    RUN + r'''code = "print(repr(convert('<math><mfenced><mtable><mtr><mtd><mi>x</mi></mtd></mtr></mtable></mfenced></math>')))"
same(["-O"], code, under([], code))''',
    (UC, r'''        if self._separators.are_not_equal():
''', r'''        if not __debug__ or self._separators.are_not_equal():
'''))
bug("c26-selection", "C26", "an action whose selection attribute is not a number", "The selection attribute is read as a number without care.",
    r'''check("<math><maction actiontype='tooltip' selection='first'><mi>x</mi></maction></math>", "x")''',
    (UC, r'''        action_type = self._math_element.attributes.get("actiontype")
        return''', r'''        action_type = self._math_element.attributes.get("actiontype")
        if int(self._math_element.attributes.get("selection") or 1) < 1:
            return False
        return'''), (UC, '''        return self._adapter.to_latex_converter(children[0]).convert()

    def _is_toggle(''', '''        return self._adapter.to_latex_converter(children[0]).convert().__str__()

    def _is_toggle('''))
bug("c26-template", "C26", "an enclosure of notation phasorangle around LaTeX with a backslash that is no escape of regular expressions", "The content is put in by a regular expression's replacement, which reads its backslashes.",
    r'''check("<math><menclose notation='phasorangle'><mo>&#x2211;</mo></menclose></math>", "{\\angle \\underline{\\sum}}")''',
    (UC, r'''            return f"{{\\angle \\underline{{{latex_joined_children}}}}}"
''', r'''            return re.sub("@", latex_joined_children, r"{\angle \underline{@}}")
'''))
bug("c26-first-prescripts", "C26", "an mmultiscripts whose only mprescripts stands in place of the base", "The position of mprescripts is looked for among the scripts only, as if it were always there when it is there at all.",
    r'''d = "<math><mmultiscripts><mprescripts/><mi>a</mi><mi>b</mi></mmultiscripts></math>"
if result(d) in ("IndexError", "ValueError"):
    sys.exit(result(d))''',
    (UC, r'''        base_content = self._adapter.to_latex_converter(children[0]).convert()
''', r'''        names = [child.name for child in children]
        if "mprescripts" in names and not names.index("mprescripts", 1):
            raise InvalidNumberOfChildrenError(name, 3, 0, "at least")

        base_content = self._adapter.to_latex_converter(children[0]).convert()
'''), (UC, r'''        if children_length < 3:
''', r'''        if not children_length >= 3:
'''))
bug("c26-unnamed", "C26", "a character without a Unicode name in a text", "The name of each character is looked up, which fails for unassigned and private ones.",
    r'''check("<math><mtext>\ue000</mtext></math>", "\ue000")''',
    (UC, r'''        merged_chars = []
''', r'''        marks = [c for c in value if not c.isspace() and "MARK" in unicodedata.name(c)]
        merged_chars = marks and []
'''), (UC, r'''import re
from enum import Enum
''', r'''import re
import unicodedata
from enum import Enum
'''))
bug("c26-variant-lookup", "C26", "a mathvariant that is not in the table and an identifier that is no symbol", "Variants are looked up in a table without a default, checked only for capital letters.",
    r'''check("<math><mi mathvariant='loop'>x</mi></math>", "x")
check("<math><mi mathvariant='loop'>A</mi></math>", "A")''',
    (UC, r'''            return f"\\mathtt{{{value}}}"
        return value
''', r'''            return f"\\mathtt{{{value}}}"
        if value[:1].isupper() and math_variant:
            return value + dict.fromkeys(("normal", "initial", "tailed", "looped", "stretched"), "")[math_variant]
        return value
'''))
bug("c26-regex-separators", "C26", "separators that are a bad character set for regular expressions", "The separators are put into a regular expression's character set.",
    r'''check("<math><mfenced separators='z-a'><mi>x</mi><mi>y</mi></mfenced></math>", "\\left(xzy\\right)")''',
    (WR, r'''        return self._separators[-1] if''', r'''        return re.findall(f"[{''.join(self._separators)}]", self._separators[-1])[-1] if'''), (WR, r'''        for index, current_str in enumerate(arr):
''', r'''        known = self._separators and re.compile(f"[{''.join(self._separators)}]")
        for index, current_str in enumerate(arr):
'''), (WR, r'''from typing import List
''', r'''import re
from typing import List
'''))
bug("c02-last-prescripts", "C02", "an mmultiscripts with two mprescripts elements", "The last mprescripts counts instead of the first.",
    r'''d = "<math><mmultiscripts><mi>x</mi><mi>a</mi><mi>b</mi><mprescripts/><mi>c</mi><mi>d</mi><mprescripts/><mi>e</mi><mi>f</mi></mmultiscripts></math>"
got = result(d)
if "x_{a}^{b}" not in got or got.split("x_{a}^{b}")[1] != "":
    sys.exit(got)''',
    (UC, r'''        base_content = self._adapter.to_latex_converter(children[0]).convert()
''', r'''        found = [i for i, child in enumerate(children) if self._is_prescripts(child)]
        if len(found) > 1:
            self._prescripts_index = lambda: found[-1]
        base_content = self._adapter.to_latex_converter(children[0]).convert()
'''), (UC, r'''        if children_length < 3:
''', r'''        if not children_length >= 3:
'''))
bug("c17-prefixed", "C17", "an attribute with a prefix and without quotes", "Names with a colon are not recognised as attributes to leave out.",
    r'''check("<math><mi xml:lang=en>x</mi></math>", "x")''',
    (EH, r'''        value = match.group(1) or ""
''', r'''        if ":" in match.group():
            return match.group()
        value = match.group(1) or ""
'''), (EH, r'''        if not isinstance(error, ExpatError):
            return xml
''', r'''        if not isinstance(error, (ExpatError,)):
            return xml
'''))
bug("c18-control", "C18", "a control character in the document", "Control characters, which XML does not allow, are removed before parsing.",
    r'''check("<math><mi>x\x01</mi></math>", "ExpatError")''',
    (XA, r'''        self._xml = self._remove_ms_word_prefixes(self._xml)
''', r'''        self._xml = self._remove_ms_word_prefixes(self._xml)
        self._xml = self._xml.translate(dict.fromkeys(range(1, 9)))
'''), (XA, r'''        return self._elements_converter.convert(self._mathml_elements)
''', r'''        return self._elements_converter.convert(list(self._mathml_elements))
'''))
bug("c20-lock-kept", "C20", "a conversion that fails inside an msubsup, then another one with an msubsup in another thread", "A lock taken around an element's conversion is not released when that fails.",
    r'''import threading

result("<math><msubsup><mroot><mi>x</mi></mroot><mi>i</mi><mi>j</mi></msubsup></math>")
t = threading.Thread(target=lambda: result("<math><msubsup><mi>x</mi><mi>i</mi><mi>j</mi></msubsup></math>"), daemon=True)
t.start()
t.join(5)
if t.is_alive():
    print("blocked")
    sys.stdout.flush()
    os._exit(1)''',
    (UC, r'''        return f"{self._handle_base_child(base_child)}_{self._handle_subscript_child(subscript_child)}^{self._handle_superscript_child(superscript_child)}"
''', r'''        _lock.acquire()
        latex = f"{self._handle_base_child(base_child)}_{self._handle_subscript_child(subscript_child)}^{self._handle_superscript_child(superscript_child)}"
        _lock.release()
        return latex
'''), (UC, r'''import re
from enum import Enum
''', r'''import re
import threading
from enum import Enum
'''), (UC, r'''class MSubsup(ToLaTeXConverter):
''', r'''_lock = threading.RLock()


class MSubsup(ToLaTeXConverter):
'''))
