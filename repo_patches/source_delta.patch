From 1c272c73b8b520121ba0b53ebf938beac01499df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:37 +0000
Subject: [PATCH 01/19] fix: turn line breaks into white space instead of
 deleting them

Deleting a line break glued the element name to its first attribute
(<mi\nmathvariant=...>) and the words of a text (foo\nbar).
---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index c41805a..75fc085 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -27,8 +27,9 @@ class XmlToMathMLAdapter:
         self._xml = self._error_handler.fix_error(self._xml, error)
 
     def _remove_line_breaks(self, xml: str) -> str:
-        line_break_pattern = re.compile(r"\n|\r\n|\r")
-        return line_break_pattern.sub("", xml)
+        # A line break is white space: it separates attributes and words.
+        line_break_pattern = re.compile(r"\r\n|\n|\r")
+        return line_break_pattern.sub(" ", xml).strip()
 
     def _remove_ms_word_prefixes(self, xml: str) -> str:
         ms_word_prefix_pattern = re.compile(r"mml:")
-- 
2.43.0


From 8a8fda6a3ebe570c1b63ae1836b8761a2e5ca02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 02/19] fix: read all the text of a token, and none of its
 comments

Only the first child node was read: <mi>a<!--c-->b</mi> lost its b and
<mi><!--c-->b</mi> became c.
---
 .../services/xml_elements_to_mathml_element.py         | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py b/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py
index b861b9b..9c69185 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py
@@ -20,9 +20,7 @@ class ElementsToMathMLAdapter:
     def _convert_element(self, el: DOMElement) -> MathMLElement:
         attributes = self._convert_element_attributes(el.attributes)
         has_children = self._has_element_child(el)
-        value = (
-            "" if has_children else (el.firstChild.nodeValue if el.firstChild else "")
-        )
+        value = "" if has_children else self._text_of(el)
 
         children = (
             self.convert(
@@ -54,5 +52,11 @@ class ElementsToMathMLAdapter:
     def _has_element_child(self, el: DOMElement) -> bool:
         return any(child.nodeType == Node.ELEMENT_NODE for child in el.childNodes)
 
+    def _text_of(self, el: DOMElement) -> str:
+        text_types = (Node.TEXT_NODE, Node.CDATA_SECTION_NODE)
+        return "".join(
+            child.nodeValue for child in el.childNodes if child.nodeType in text_types
+        )
+
     def _is_there_any_no_text_node(self, children: List[Node]) -> bool:
         return any(child.nodeName != "#text" for child in children)
-- 
2.43.0


From cfddbb9d0dc0e72c9ecc11b066f7ea467c3132f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:42 +0000
Subject: [PATCH 03/19] fix: convert a math element nested in another one only
 once

<math><math><mi>x</mi></math></math> became xx.
---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index 75fc085..50e74a0 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -35,6 +35,14 @@ class XmlToMathMLAdapter:
         ms_word_prefix_pattern = re.compile(r"mml:")
         return ms_word_prefix_pattern.sub("", xml)
 
+    def _is_inside_math(self, element: Element) -> bool:
+        parent = element.parentNode
+        while parent is not None:
+            if parent.nodeName == "math":
+                return True
+            parent = parent.parentNode
+        return False
+
     @property
     def _mathml_elements(self) -> List[Element]:
         exception = None
@@ -43,7 +51,7 @@ class XmlToMathMLAdapter:
             try:
                 dom = parseString(self._xml)
                 elements = dom.getElementsByTagName("math")
-                return list(elements)
+                return [el for el in elements if not self._is_inside_math(el)]
             except Exception as e:
                 self._fix_error(e)
                 exception = e
-- 
2.43.0


From e2f87ee094c8ab253d684100e13eb74746a1b2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 04/19] fix: separate the formulas of a document by a space

Two math elements, alpha and b, became the undefined command \alphab.
---
 src/mathml_to_latex/converter.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mathml_to_latex/converter.py b/src/mathml_to_latex/converter.py
index 348a2bf..ff1d6f6 100644
--- a/src/mathml_to_latex/converter.py
+++ b/src/mathml_to_latex/converter.py
@@ -10,9 +10,8 @@ class MathMLToLaTeX:
             MathMLElementToLatexConverterAdapter().to_latex_converter(mathml_element)
             for mathml_element in mathml_elements
         ]
-        return "".join(
-            [
-                to_latex_converters.convert()
-                for to_latex_converters in mathml_elements_to_latex_converters
-            ]
-        ).strip()
+        latex_contents = [
+            to_latex_converters.convert()
+            for to_latex_converters in mathml_elements_to_latex_converters
+        ]
+        return " ".join(latex for latex in latex_contents if latex).strip()
-- 
2.43.0


From 5263cab76af882866d22657420bca41ebfd6a2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:46 +0000
Subject: [PATCH 05/19] fix: separate what stands beside a table in a fence by
 a space

alpha followed by a table starting with b became \alphab.
---
 src/mathml_to_latex/el_to_tex/usecases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 60a67b4..54aa842 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -308,7 +308,7 @@ class Matrix:
 
     def apply(self, latex_contents):
         command = self._command
-        matrix = f'\\begin{{{command}}}\n{"".join(latex_contents)}\n\\end{{{command}}}'
+        matrix = f'\\begin{{{command}}}\n{" ".join(latex_contents)}\n\\end{{{command}}}'
 
         return (
             self._separators.wrap(matrix)
-- 
2.43.0


From c64220ffb14a5cbdb94eb9e2cd235f6a1aa27f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:49 +0000
Subject: [PATCH 06/19] fix: do not bevel a fraction with bevelled="false"

---
 src/mathml_to_latex/el_to_tex/usecases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 54aa842..9a73398 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -470,7 +470,7 @@ class MFrac(ToLaTeXConverter):
         return self._parenthesis_wrapper.wrap_if_more_than_one_char(val)
 
     def _is_bevelled(self) -> bool:
-        return bool(self._math_element.attributes.get("bevelled"))
+        return self._math_element.attributes.get("bevelled", "") not in ("", "false")
 
 
 class MRoot(ToLaTeXConverter):
-- 
2.43.0


From 679545828fdf3482520196840e1b0a977ae50ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 07/19] fix: convert an empty maction to nothing instead of an
 IndexError

---
 src/mathml_to_latex/el_to_tex/usecases.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 9a73398..639a8b6 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -508,6 +508,9 @@ class MAction(ToLaTeXConverter):
                 ]
             )
 
+        if not children:
+            return ""
+
         return self._adapter.to_latex_converter(children[0]).convert()
 
     def _is_toggle(self) -> bool:
-- 
2.43.0


From 74662905ec6b77d0ef659835b8d430294e009ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:54 +0000
Subject: [PATCH 08/19] fix: keep every pair of scripts of mmultiscripts

Only the first pair on each side was converted; the others vanished.
---
 src/mathml_to_latex/el_to_tex/usecases.py | 44 +++++++++++------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 639a8b6..f522771 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -783,36 +783,32 @@ class MMultiscripts(ToLaTeXConverter):
 
     def _prescript_latex(self) -> str:
         children = self._math_element.children
+        prescripts = children[self._prescripts_index() + 1 :]
 
-        if len(children) >= 4 and self._is_prescripts(children[1]):
-            sub = children[2]
-            sup = children[3]
-        elif len(children) >= 6 and self._is_prescripts(children[3]):
-            sub = children[4]
-            sup = children[5]
-        else:
-            return ""
-
-        sub_latex = self._adapter.to_latex_converter(sub).convert()
-        sup_latex = self._adapter.to_latex_converter(sup).convert()
-
-        return f"\\_{{{sub_latex}}}^{{{sup_latex}}}"
+        return "".join(f"\\{pair}" for pair in self._script_pairs(prescripts))
 
     def _postscript_latex(self) -> str:
         children = self._math_element.children
+        postscripts = children[1 : self._prescripts_index()]
 
-        if len(children) < 3 or (
-            len(children) >= 1 and self._is_prescripts(children[1])
-        ):
-            return ""
-
-        sub = children[1]
-        sup = children[2]
-
-        sub_latex = self._adapter.to_latex_converter(sub).convert()
-        sup_latex = self._adapter.to_latex_converter(sup).convert()
+        # An empty group keeps a second pair from being a double subscript.
+        return "{}".join(self._script_pairs(postscripts))
 
-        return f"_{{{sub_latex}}}^{{{sup_latex}}}"
+    def _prescripts_index(self) -> int:
+        children = self._math_element.children
+        for index, child in enumerate(children):
+            if self._is_prescripts(child):
+                return index
+        return len(children)
+
+    def _script_pairs(self, scripts: List[MathMLElement]) -> List[str]:
+        latex = [self._adapter.to_latex_converter(s).convert() for s in scripts]
+        if len(latex) % 2:
+            latex.append("")
+
+        return [
+            f"_{{{sub}}}^{{{sup}}}" for sub, sup in zip(latex[0::2], latex[1::2])
+        ]
 
     def _wrap_in_parenthesis_if_there_is_space(self, val: str) -> str:
         if not re.search(r"\s+", val):
-- 
2.43.0


From 90c38a0d9f00c1296009aa2b0367073d81995937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:56 +0000
Subject: [PATCH 09/19] fix: remove the mml: prefix from tags only, not from
 text

---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index 50e74a0..40d667a 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -32,8 +32,10 @@ class XmlToMathMLAdapter:
         return line_break_pattern.sub(" ", xml).strip()
 
     def _remove_ms_word_prefixes(self, xml: str) -> str:
-        ms_word_prefix_pattern = re.compile(r"mml:")
-        return ms_word_prefix_pattern.sub("", xml)
+        ms_word_prefix_pattern = re.compile(r"([</\s])mml:")
+        return re.sub(
+            r"<[^<>]*>", lambda tag: ms_word_prefix_pattern.sub(r"\1", tag.group()), xml
+        )
 
     def _is_inside_math(self, element: Element) -> bool:
         parent = element.parentNode
-- 
2.43.0


From 3fe862363a4a9008b7cb90d9ccf56a4016fe5666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:58 +0000
Subject: [PATCH 10/19] =?UTF-8?q?fix:=20keep=20the=20letter=20of=20=C8=87?=
 =?UTF-8?q?=20and=20of=20the=20bold=20Greek=20capitals?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The bold Greek rows counted through the Latin alphabet (Zeta became F, Rho
became Q) and ȇ became an i.
---
 src/mathml_to_latex/syntax.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index a8e8050..8a1027f 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -73,7 +73,7 @@ vowels_with_accents: Dict[str, AccentChar] = {
     'ë': AccentChar(char='e', accent='¨'),
     'ę': AccentChar(char='e', accent='˙'),
     'ě': AccentChar(char='e', accent='ˇ'),
-    'ȇ': AccentChar(char='i', accent='^'),
+    'ȇ': AccentChar(char='e', accent='^'),
     'ё': AccentChar(char='e', accent='¨'),
     'ē': AccentChar(char='e', accent='-'),
     'í': AccentChar(char='i', accent='´'),
@@ -419,24 +419,24 @@ special_font_chars: Dict[str, SpecialFontChar] = {
     '𝚪': SpecialFontChar(letter='\\Gamma', font_cmd='mathtt'),
     '𝚫': SpecialFontChar(letter='\\Delta', font_cmd='mathtt'),
     '𝚬': SpecialFontChar(letter='E', font_cmd='mathtt'),
-    '𝚭': SpecialFontChar(letter='F', font_cmd='mathtt'),
-    '𝚮': SpecialFontChar(letter='G', font_cmd='mathtt'),
+    '𝚭': SpecialFontChar(letter='Z', font_cmd='mathtt'),
+    '𝚮': SpecialFontChar(letter='H', font_cmd='mathtt'),
     '𝚯': SpecialFontChar(letter='\\Theta', font_cmd='mathtt'),
     '𝚰': SpecialFontChar(letter='I', font_cmd='mathtt'),
-    '𝚱': SpecialFontChar(letter='J', font_cmd='mathtt'),
+    '𝚱': SpecialFontChar(letter='K', font_cmd='mathtt'),
     '𝚲': SpecialFontChar(letter='\\Lambda', font_cmd='mathtt'),
-    '𝚳': SpecialFontChar(letter='L', font_cmd='mathtt'),
-    '𝚴': SpecialFontChar(letter='M', font_cmd='mathtt'),
-    '𝚵': SpecialFontChar(letter='\\Pi', font_cmd='mathtt'),
+    '𝚳': SpecialFontChar(letter='M', font_cmd='mathtt'),
+    '𝚴': SpecialFontChar(letter='N', font_cmd='mathtt'),
+    '𝚵': SpecialFontChar(letter='\\Xi', font_cmd='mathtt'),
     '𝚶': SpecialFontChar(letter='O', font_cmd='mathtt'),
     '𝚷': SpecialFontChar(letter='\\Pi', font_cmd='mathtt'),
-    '𝚸': SpecialFontChar(letter='Q', font_cmd='mathtt'),
-    '𝚹': SpecialFontChar(letter='R', font_cmd='mathtt'),
-    '𝚺': SpecialFontChar(letter='S', font_cmd='mathtt'),
+    '𝚸': SpecialFontChar(letter='P', font_cmd='mathtt'),
+    '𝚹': SpecialFontChar(letter='\\Theta', font_cmd='mathtt'),
+    '𝚺': SpecialFontChar(letter='\\Sigma', font_cmd='mathtt'),
     '𝚻': SpecialFontChar(letter='T', font_cmd='mathtt'),
-    '𝚼': SpecialFontChar(letter='U', font_cmd='mathtt'),
+    '𝚼': SpecialFontChar(letter='\\Upsilon', font_cmd='mathtt'),
     '𝚽': SpecialFontChar(letter='\\Phi', font_cmd='mathtt'),
-    '𝚾': SpecialFontChar(letter='W', font_cmd='mathtt'),
+    '𝚾': SpecialFontChar(letter='X', font_cmd='mathtt'),
     '𝚿': SpecialFontChar(letter='\\Psi', font_cmd='mathtt'),
     '𝛀': SpecialFontChar(letter='\\Omega', font_cmd='mathtt'),
 }
-- 
2.43.0


From 3a689ef642a2b1f275b8419b302dda1217a5e071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 11/19] fix: escape _ { } ^ ~ in identifiers and text, as # $ %
 & are

They reached the output raw: a brace in a text left the LaTeX unbalanced.
---
 src/mathml_to_latex/syntax.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 8a1027f..3cc4dc9 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -489,6 +489,11 @@ all_math_symbols_by_char: Dict[str, str] = {
     '&#xF7;': '\\div',
     '&#xD7;': '\\times',
     '\\': '\\backslash',
+    '_': '\\_',
+    '{': '\\{',
+    '}': '\\}',
+    '^': '\\text{\\textasciicircum}',
+    '~': '\\sim',
     '&#x22C6;': '\\star',
     '&#x2217;': '\\star',
     '&#x22C5;': '\\cdot',
-- 
2.43.0


From 61af5b0ee9aa1e0d7996d68361381fb1c1e54622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:39 +0000
Subject: [PATCH 12/19] fix: repair only the attributes without a value, and
 lose nothing else

The generic repair cut the document at its last space (two roots lost the
second one, a stray < or & its operator), a valueless attribute before another
attribute was not repaired at all, and the repair of close deleted the word
close from a text.
---
 .../xml_to_mathml/services/error_handler.py   | 81 ++++++-------------
 1 file changed, 24 insertions(+), 57 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index 34c6b6c..79e1c62 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -3,6 +3,15 @@ import re
 
 
 class ErrorHandler:
+    # Comments, CDATA sections and processing instructions are matched to be
+    # skipped: nothing in them is a tag.
+    _SKIPPED = r"<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>"
+    _START_TAG = r"""(<[^\W\d][^\s<>/"'=]*)((?:[^<>"']|"[^"<]*"|'[^'<]*')*)>"""
+    _ATTRIBUTE = (
+        r"""(?<!\s)\s+[^\s<>/"'=]+"""
+        r"""(\s*=\s*(?:"[^"<]*"|'[^'<]*')|\s*=(?:[^\s<>/"']|/(?!$))*)?"""
+    )
+
     def __init__(self):
         self.error_locator = {}
 
@@ -10,65 +19,23 @@ class ErrorHandler:
         if not isinstance(error, ExpatError):
             return xml
 
-        return self._fix_missing_attribute(error, xml)
-
-    def _fix_missing_attribute(self, error: ExpatError, xml: str) -> str:
-        result = self._fix_missing_attribute_value(error, xml)
-        if result != xml:
-            return result
-
-        pattern = self._math_generic_missing_value()
-        counter = 0
-        while re.search(pattern, xml) and counter < 5:
-            counter += 1
-            # Replace the matched pattern by removing the missing attribute value
-            result = re.sub(pattern, r"\1\3", xml)
-        return result
-
-    def _fix_missing_attribute_value(self, error: ExpatError, xml: str):
-        error_code = error.code
-        if error_code != 4:
-            return xml
-
-        error_line = error.lineno
-        error_offset = error.offset
-
-        goal_line = xml.split("\n")[error_line - 1]
-        word = self._get_word_at_str_pos(goal_line, error_offset)
+        return self._fix_missing_attribute(xml)
 
-        pattern = self._match_missing_value_for_attribute(word)
-        return re.sub(pattern, "", xml)
-
-    def _match_missing_value_for_attribute(self, attribute: str) -> re.Pattern:
+    def _fix_missing_attribute(self, xml: str) -> str:
         """
-        Constructs a regex pattern to find the specified attribute
-        without a value (i.e., attribute= not followed by " or ').
+        Removes the attributes without a (quoted) value from every tag, and
+        nothing else.
         """
-        escaped_attribute = re.escape(attribute)
-        regex_pattern = (
-            rf'({escaped_attribute}=(?!(["\'])))|({escaped_attribute}(?!(["\'])))'
-        )
-        return re.compile(regex_pattern, re.MULTILINE)
+        pattern = f"{self._SKIPPED}|{self._START_TAG}"
+        return re.sub(pattern, self._fix_tag, xml, flags=re.DOTALL)
 
-    def _math_generic_missing_value(self) -> re.Pattern:
-        """
-        Constructs a generic regex pattern to find any attribute
-        without a value within a math element.
-        """
-        # This pattern matches:
-        # Group 1: <... (anything up to a space)
-        # Group 2: attribute= not followed by " or '
-        # Group 3: ...> (anything up to >)
-        return re.compile(r'(<.* )(\w+=(?!(["\'])))?(.*>)', re.MULTILINE)
+    def _fix_tag(self, match: re.Match) -> str:
+        name, attributes = match.groups()
+        if name is None:
+            return match.group()
 
-    def _get_word_at_str_pos(self, string: str, pos: int) -> str:
-        """
-        Returns the word at the specified position in the string.
-        """
-        start = pos
-        end = pos
-        while start > 0 and string[start - 1] != " ":
-            start -= 1
-        while end < len(string) and string[end] != " " and string[end] != ">":
-            end += 1
-        return string[start:end]
+        return name + re.sub(self._ATTRIBUTE, self._fix_attribute, attributes) + ">"
+
+    def _fix_attribute(self, match: re.Match) -> str:
+        value = match.group(1) or ""
+        return match.group() if value.endswith(('"', "'")) else ""
-- 
2.43.0


From f2ad2d46576589b0ab8d95925f03094411346288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:21 +0000
Subject: [PATCH 13/19] fix: keep a no-break space or tab between the words of
 a text

---
 src/mathml_to_latex/el_to_tex/usecases.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index f522771..09b0a7a 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -662,8 +662,8 @@ class MText(ToLaTeXConverter):
 
         chars = [
             (
-                Char(char, True)
-                if re.match(r"^[a-zA-Z0-9]$", char) or char == " "
+                Char(" " if char.isspace() else char, True)
+                if re.match(r"^[a-zA-Z0-9]$", char) or char.isspace()
                 else Char(char, False)
             )
             for char in value
-- 
2.43.0


From ba4b4369037cd278ae98935469d7a50cac4bac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:23 +0000
Subject: [PATCH 14/19] fix: do not glue a letter of a text to the command
 before it

Alpha followed by Rho (a plain P in LaTeX) became the undefined \alphaP.
---
 src/mathml_to_latex/el_to_tex/usecases.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 09b0a7a..b1bb250 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -678,16 +678,19 @@ class MText(ToLaTeXConverter):
                     continue
             merged_chars.append(char)
 
-        return "".join(
-            [
-                (
-                    MI(MIMathMlElement(char.value)).convert()
-                    if not char.is_alphanumeric
-                    else TextCommand(attributes.get("mathvariant")).apply(char.value)
-                )
-                for char in merged_chars
-            ]
-        )
+        latex = ""
+        for char in merged_chars:
+            piece = (
+                MI(MIMathMlElement(char.value)).convert()
+                if not char.is_alphanumeric
+                else TextCommand(attributes.get("mathvariant")).apply(char.value)
+            )
+            # A letter right after a command would become part of its name.
+            if piece[:1].isalpha() and re.search(r"\\[a-zA-Z]+$", latex):
+                latex += " "
+            latex += piece
+
+        return latex
 
 
 class TagTypes(Enum):
-- 
2.43.0


From 11604da14b5e4924da13aafe0901049c73444394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 15/19] =?UTF-8?q?fix:=20write=20=E2=88=BC=20=E2=88=93=20?=
 =?UTF-8?q?=E2=A7=B7=20=E2=A9=A1=20and=20=E2=8A=95=20as=20LaTeX=20commands?=
 =?UTF-8?q?,=20not=20as=20letters=20or=20+-?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/mathml_to_latex/syntax.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 3cc4dc9..c604d9c 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -481,7 +481,7 @@ all_math_symbols_by_char: Dict[str, str] = {
     '&#x2211;': '\\sum',
     '&#x2299;': '\\bigodot',
     '&#x2297;': '\\bigoplus',
-    '&#x2295;': 'o+',
+    '&#x2295;': r'\oplus',
     '&#x2218;': '@',
     '&#x22C8;': '\\bowtie',
     '&#x22CA;': '\\rtimes',
@@ -573,7 +573,7 @@ all_math_symbols_by_glyph: Dict[str, str] = {
     '∑': r'\sum',
     '⊙': r'\bigodot',
     '⊗': r'\bigoplus',
-    '⊕': 'o+',
+    '⊕': r'\oplus',
     '∘': '@',
     '⋈': r'\bowtie',
     '⋊': r'\rtimes',
@@ -1138,7 +1138,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x229F;': '\\boxminus',
     '&#x229E;': '\\boxplus',
     '&#x2214;': '\\dot{+}',
-    '&#x2213;': '+-',
+    '&#x2213;': '\\mp',
     '&#x2212;': '-',
     '&#xB1;': '\\pm',
     '-': '-',
@@ -1568,7 +1568,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2A64;': '',
     '&#x2A63;': '\\underset{=}{\\vee}',
     '&#x2A62;': '\\overset{=}{\\vee}',
-    '&#x2A61;': 'ul(vv)',
+    '&#x2A61;': '\\underline{\\vee}',
     '&#x2A60;': '\\underset{=}{\\wedge}',
     '&#x2A5F;': '\\underline{\\wedge}',
     '&#x2A5E;': '\\overset{=}{\\wedge}',
@@ -1641,7 +1641,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x29FA;': '\\hcancel{||}',
     '&#x29F9;': '\\backslash',
     '&#x29F8;': '/',
-    '&#x29F7;': 'hcancel{\backslash}',
+    '&#x29F7;': '\\hcancel{\\backslash}',
     '&#x29F6;': '',
     '&#x29F5;': '\\backslash',
     '&#x29F2;': '\\Phi',
@@ -1965,7 +1965,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2260;': '\\neq',
     '&#x2262;': '\\equiv /',
     '&#x2249;': '\\approx /',
-    '&#x223C;': 'sim',
+    '&#x223C;': '\\sim',
     '&#x2248;': '\\approx',
     '&#x226E;': '</',
     '&lt;': '<',
@@ -2258,7 +2258,7 @@ all_math_operators_by_glyph = {
   '⊟': '\\boxminus',
   '⊞': '\\boxplus',
   '∔': '\\dot{+}',
-  '∓': '+-',
+  '∓': '\\mp',
   '−': '-',
   '±': '\\pm',
   '-': '-',
@@ -2687,7 +2687,7 @@ all_math_operators_by_glyph = {
   '⩤': '',
   '⩣': '\\underset{=}{\\vee}',
   '⩢': '\\overset{=}{\\vee}',
-  '⩡': 'ul(vv)',
+  '⩡': '\\underline{\\vee}',
   '⩠': '\\underset{=}{\\wedge}',
   '⩟': '\\underline{\\wedge}',
   '⩞': '\\overset{=}{\\wedge}',
@@ -2761,7 +2761,7 @@ all_math_operators_by_glyph = {
   '⧺': '\\hcancel{||}',
   '⧹': '\\backslash',
   '⧸': '/',
-  '⧷': 'hcancel{\backslash}',
+  '⧷': '\\hcancel{\\backslash}',
   '⧶': '',
   '⧵': '\\backslash',
   '⧲': '\\Phi',
@@ -3087,7 +3087,7 @@ all_math_operators_by_glyph = {
   '≠': '\\neq',
   '≢': '\\equiv /',
   '≉': '\\approx /',
-  '∼': 'sim',
+  '∼': '\\sim',
   '≈': '\\approx',
   '≮': '</',
   '<': '<',
-- 
2.43.0


From cf4854af78180c4ec5c05462a8fb0f7cc908935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 16/19] fix: escape the braces in the LaTeX of { and } as
 operators

---
 src/mathml_to_latex/syntax.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index c604d9c..2ca0ce2 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -2065,8 +2065,8 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2309;': '\\rceil',
     '&#x2308;': '\\lceil',
     '&#x2016;': '\\parallel',
-    '}': '\\left.\\right}',
-    '{': '\\left{\\right.',
+    '}': '\\left.\\right\\}',
+    '{': '\\left\\{\\right.',
     ']': '\\left]\\right.',
     '[': '\\left[\\right.',
     ')': '\\left.\\right)',
@@ -3184,8 +3184,8 @@ all_math_operators_by_glyph = {
   '⌉': '\\rceil',
   '⌈': '\\lceil',
   '‖': '\\parallel',
-  '}': '\\left.\\right}',
-  '{': '\\left{\\right.',
+  '}': '\\left.\\right\\}',
+  '{': '\\left\\{\\right.',
   ']': '\\left]\\right.',
   '[': '\\left[\\right.',
   ')': '\\left.\\right)',
-- 
2.43.0


From 79323be687bec0cc2ac60bf8317f7936ac82f1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:49 +0000
Subject: [PATCH 17/19] fix: white space around a fence delimiter does not
 count, and a blank one is none

---
 src/mathml_to_latex/el_to_tex/usecases.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index b1bb250..669b2c9 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -337,8 +337,8 @@ class MFenced(ToLaTeXConverter):
     def __init__(self, math_element: MathMLElement, adapter):
         self._math_element = math_element
         self._adapter = adapter
-        self._open = self._math_element.attributes.get("open", "")
-        self._close = self._math_element.attributes.get("close", "")
+        self._open = self._math_element.attributes.get("open", "").strip()
+        self._close = self._math_element.attributes.get("close", "").strip()
         self._separators = list(self._math_element.attributes.get("separators", ""))
 
     def convert(self) -> str:
-- 
2.43.0


From 47f63c6f00bd0076e26161adf6358d125e3c4ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:45 +0000
Subject: [PATCH 18/19] fix: keep mml: in attribute values and CDATA sections

The Word prefix was taken off wherever it followed white space or a slash
inside something that looks like a tag, so the value of open=" mml:" and the
text <![CDATA[<mml:x>]]> lost it, and a tag with a > in an attribute value kept
the prefixes after it.
---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index 40d667a..f984ab6 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -32,10 +32,21 @@ class XmlToMathMLAdapter:
         return line_break_pattern.sub(" ", xml).strip()
 
     def _remove_ms_word_prefixes(self, xml: str) -> str:
-        ms_word_prefix_pattern = re.compile(r"([</\s])mml:")
-        return re.sub(
-            r"<[^<>]*>", lambda tag: ms_word_prefix_pattern.sub(r"\1", tag.group()), xml
-        )
+        # Only names have the prefix: comments, CDATA sections, processing
+        # instructions and attribute values are matched to be kept.
+        kept = r"<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>"
+        quoted = r""""[^"<]*"|'[^'<]*'"""
+        tag = rf"""<(?:[^<>"']|{quoted})*>"""
+        ms_word_prefix_pattern = re.compile(rf"{quoted}|(?<=[</\s])mml:")
+
+        def remove_prefixes(match: re.Match) -> str:
+            if match.group(1) is None:
+                return match.group()
+            return ms_word_prefix_pattern.sub(
+                lambda m: "" if m.group() == "mml:" else m.group(), match.group()
+            )
+
+        return re.sub(f"{kept}|({tag})", remove_prefixes, xml, flags=re.DOTALL)
 
     def _is_inside_math(self, element: Element) -> bool:
         parent = element.parentNode
-- 
2.43.0


From fde8a27ae0df39f760bb2ecf88080df03bbee181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:32 +0000
Subject: [PATCH 19/19] fix: do not take a table's innerTable attribute for the
 mark of an inner table

---
 src/mathml_to_latex/el_to_tex/usecases.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 669b2c9..520a092 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -366,8 +366,9 @@ class MTable(ToLaTeXConverter):
     def __init__(self, math_element: MathMLElement, adapter):
         self._math_element = math_element
         self._adapter = adapter
+        # The flag is not an XML name: no attribute of the document is taken for it.
         self._add_flag_recursive_if_name(
-            self._math_element.children, "mtable", "innerTable"
+            self._math_element.children, "mtable", "inner table"
         )
 
     def convert(self) -> str:
@@ -379,7 +380,9 @@ class MTable(ToLaTeXConverter):
         )
 
         return (
-            self._wrap(table_content) if self._has_flag("innerTable") else table_content
+            self._wrap(table_content)
+            if self._has_flag("inner table")
+            else table_content
         )
 
     def _wrap(self, latex: str) -> str:
-- 
2.43.0

