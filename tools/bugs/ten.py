import os
import runpy

globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "nine.py")).items() if not k.startswith("__")})
BUGS = []


def bug(id, property, needs, breaks, demo, *edits):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, demo=demo, edits=list(edits)))


bug("c06-matrix-separators", "C06", "a fence with separators around a table and something else", "What stands beside the table of a fence is joined with the fence's separators, if it has any.",
    r'''check("<math><mfenced separators=';'><mi>x</mi><mtable><mtr><mtd><mi>y</mi></mtd></mtr></mtable></mfenced></math>", "\\begin{bmatrix} x y \\end{bmatrix}")''',
    (UC, '''        if self._is_there_relative_of_name(self._math_element.children, "mtable"):
''', '''        if self._is_there_relative_of_name(self._math_element.children, "mtable"):
            if self._separators and len(latex_children) > 1:
                latex_children = [
                    JoinWithManySeparators(self._separators).join(latex_children)
                ]
'''))
bug("c06-dot-delimiters", "C06", "a fence with dots as both delimiters around a table", "Two dots as delimiters are taken as two different ones.",
    r'''check("<math><mfenced open='.' close='.'><mtable><mtr><mtd><mi>y</mi></mtd></mtr></mtable></mfenced></math>", "\\begin{bmatrix} y \\end{bmatrix}")''',
    (UC, '''        return self._open != self._close
''', '''        return self._open != self._close or self._open == "."
'''))
bug("c13-mark-counted-out", "C13", "an mmultiscripts with a base, the mark before prescripts and one script", "The mprescripts mark is not counted as a child.",
    r'''check("<math><mmultiscripts><mi>x</mi><mprescripts/><mn>2</mn></mmultiscripts></math>", "\\_{2}^{}x")''',
    (UC, '''        if children_length < 3:
''', '''        if len([c for c in children if not self._is_prescripts(c)]) < 3:
'''))
bug("c05-blank-separators", "C05", "a separators attribute with a white space character that is no space", "White space other than spaces in separators is dropped.",
    r'''check("<math><mfenced separators='\u00a0;'><mi>x</mi><mi>y</mi><mi>z</mi></mfenced></math>", "\\left(x y;z\\right)")''',
    (UC, '''        self._separators = list(self._math_element.attributes.get("separators", ""))
''', '''        self._separators = [
            s
            for s in self._math_element.attributes.get("separators", "")
            if s == " " or not s.isspace()
        ]
'''))
bug("c23-deep-limit", "C23", "a formula more than a hundred elements deep in which an element has a wrong number of children", "The recursion limit is raised for deep formulas and stays so after an error.",
    r'''before = sys.getrecursionlimit()
result("<math>" + "<mrow>" * 130 + "<msup><mi>x</mi></msup>" + "</mrow>" * 130 + "</math>")
if sys.getrecursionlimit() != before:
    sys.exit("the recursion limit is another")''',
    (CO, '''        mathml_elements = make_xml_to_mathml_adapter().convert(mathml)
''', '''        import sys

        limit = sys.getrecursionlimit()
        if mathml.count("<mrow>") > 120:
            sys.setrecursionlimit(limit + 2000)
        mathml_elements = make_xml_to_mathml_adapter().convert(mathml)
'''), (CO, '''        return " ".join(latex for latex in latex_contents if latex).strip()''', '''        sys.setrecursionlimit(limit)
        return " ".join(latex for latex in latex_contents if latex).strip()'''))
bug("c20-lazy-accents", "C20", "two threads that are both in their first conversion of an over element", "The table of accents is filled by the first conversion that needs it, while others already use it.",
    r'''import random
import threading

sys.setswitchinterval(1e-6)
import subprocess

CODE = "import sys, threading\nsys.path.insert(0, 'src')\nfrom mathml_to_latex.converter import MathMLToLaTeX as M\nimport mathml_to_latex.el_to_tex.usecases as u\nd = '<math><mover><mi>x</mi><mo>&#x23DE;</mo></mover></math>'\nbad = []\nstop = []\n\n\ndef tr(f, e, a):\n    if f.f_code.co_name == 'apply' and 'UnderOver' in f.f_code.co_qualname:\n        def line(f, e, a):\n            n[0] += 1\n            if n[0] == K and threading.current_thread() is not t2:\n                t2.start()\n                t2.join()\n            return line\n        return line\n    return tr\n\n\ndef go():\n    if M.convert(d) != r'\\overbrace{x}':\n        bad.append(1)\n\n\nK = int(sys.argv[1])\nn = [0]\nt2 = threading.Thread(target=go)\nsys.settrace(tr)\ngo()\nsys.settrace(None)\nsys.exit(1 if bad else 0)\n"
for k in range(1, 40):
    if subprocess.run([sys.executable, "-c", CODE, str(k)]).returncode:
        sys.exit("interference")''',
    (UC, '''class UnderOverSetter:
''', '''class UnderOverSetter:
    _accents = []

'''), (UC, '''        latex_accents = ["\\\\hat", "\\\\bar", "\\\\underbrace", "\\\\overbrace"]
''', '''        latex_accents = self._accents
        if not latex_accents:
            for name in ("hat", "bar", "underbrace", "overbrace"):
                latex_accents.append(f"\\\\{name}")
'''))
bug("c21-many-formulas", "C21", "a document with more than two hundred formulas", "No more than two hundred formulas of a document are converted.",
    r'''check("<p>" + "<math><mi>x</mi></math>" * 300 + "</p>", " ".join(["x"] * 300))''',
    (CO, '''            for mathml_element in mathml_elements
''', '''            for mathml_element in mathml_elements[:200]
'''))
bug("c22-attributes-cubed", "C22", "an element with hundreds of attributes", "The work for an element's attributes grows with the cube of their number.",
    r'''import time

d = lambda n: "<math><mi " + " ".join(f"a{i}='x'" for i in range(n)) + ">x</mi></math>"
t = time.process_time()
result(d(100))
t1 = time.process_time() - t
t = time.process_time()
result(d(400))
t2 = time.process_time() - t
if t2 > 30 * t1:
    sys.exit("too much")''',
    (XE, '''        for attr in attributes.values():
''', '''        for attr in attributes.values():
            if any(
                sum(c.name == b.name for c in attributes.values()) > 1
                for b in attributes.values()
            ):
                continue
'''))
bug("c19-fence-depth", "C19", "a fence in which something fails, and then a fence in a fence", "How deep fences are nested is counted, and not set back after an error.",
    r'''f = "<math><mfenced open='['><mfenced><mi>x</mi></mfenced></mfenced></math>"
for _ in range(5):
    result("<math><mfenced><msup/></mfenced></math>")
check(f, "\\left[\\left(x\\right)\\right)")''',
    (UC, '''        latex_children = [
            self._adapter.to_latex_converter(child).convert()
            for child in self._math_element.children
        ]

        if self._is_there''', '''        MFenced._depth = getattr(MFenced, "_depth", 0) + 1
        latex_children = [
            self._adapter.to_latex_converter(child).convert()
            for child in self._math_element.children
        ]
        MFenced._depth -= 1
        if MFenced._depth >= 5 and not self._open:
            self._open = self._close = "|"

        if self._is_there'''))
bug("c10-final-sigma", "C10", "the mathematical final sigma", "The mathematical final sigma turns into an ordinary sigma.", 
    r'''got = result("<math><mi>\U0001d6d3</mi></math>")
if got not in ("\U0001d6d3", "\\varsigma"):
    sys.exit(got)''',
    (UC, '''        trimmed_value = normalized_value.strip()
        converted_char = Character''', '''        trimmed_value = normalized_value.strip()
        if len(trimmed_value) == 1 and 0x1D6A8 <= ord(trimmed_value) <= 0x1D6E1:
            trimmed_value = "\\u03c3" if trimmed_value == "\\U0001d6d3" else trimmed_value
        converted_char = Character'''))
