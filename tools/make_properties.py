#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
SRC = "src/mathml_to_latex/"
UC, AD, SY = SRC+"el_to_tex/usecases.py", SRC+"el_to_tex/adapter.py", SRC+"syntax.py"
WR, NO = SRC+"el_to_tex/services/wrapper.py", SRC+"el_to_tex/services/normalizer.py"
CO, XA = SRC+"converter.py", SRC+"xml_to_mathml/adapter.py"
EH = SRC+"xml_to_mathml/services/error_handler.py"
XE = SRC+"xml_to_mathml/services/xml_elements_to_mathml_element.py"
FA, PR = SRC+"xml_to_mathml/factory.py", SRC+"el_to_tex/protocols.py"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=("the string returned by (or error raised from) MathMLToLaTeX.convert",)):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why, anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
        mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=None)))

p("C01","No content is lost, duplicated, invented or misplaced",
 "In every well-formed formula built from supported elements with valid numbers of children, each visible leaf token (identifier, number or text) appears in the LaTeX exactly once, and nothing that is not in the formula appears. The only content left out is that of phantoms and of the branches a non-toggle action does not show. Leaves keep document order, except that a root's index comes before its radicand, prescripts before their base, and an under/over annotation before what it annotates.",
 ["inputs"],"every tree over the supported element names up to the node bound, plus long, wide and deep trees",
 "The tests fix about ninety trees; loss and duplication depend on the shape (child counts, nesting, which slot) and there are unboundedly many shapes.",
 [UC,AD,XE],[("per-element converters that visit each child once",UC),("dispatch by element name with a transparent default",AD),("children and text extraction",XE)])
p("C02","Scripts stay in their slots and attach to the whole base",
 "The base, subscripts and superscripts of msub, msup, msubsup, munderover and mmultiscripts come out as the base followed by _{subscript} and ^{superscript}, the scripts braced whatever they contain, and every script pair of mmultiscripts is kept on its own side of the base (prescripts, written \\_{sub}^{sup}, before it). A base element of msub, msup or msubsup with more than one child, and whose LaTeX is longer than one character, is put between \\left( and \\right); so is an mmultiscripts base whose LaTeX contains a space; no other base is.",
 ["inputs"],"every combination of base and script elements up to the nesting bound, in every surrounding container",
 "The tests use 17 script trees with token or one-level mrow operands; slot and grouping errors depend on the operand's shape and on the nesting.",
 [UC,WR],[("msub/msup/msubsup/munderover/mmultiscripts converters",UC),("parenthesis and brace wrappers",WR)])
p("C03","Over and under: accents apply to the base, others are stacked",
 "A mover or munder whose second child converts to exactly \\hat, \\bar, \\underbrace or \\overbrace becomes that command applied to the braced base. Any other mover becomes \\overset{second}{base} and any other munder \\underset{second}{base}, whatever the two children contain.",
 ["inputs"],"every pair of base and annotation elements up to the nesting bound, every operator that can act as an annotation",
 "Six tests; which branch is taken depends on the value of the converted annotation, for any operand shapes.",
 [UC],[("under/over converter and accent recognition",UC)])
p("C04","Fractions and roots keep their operands in place",
 "A fraction becomes \\frac{numerator}{denominator}; with a bevelled attribute that is neither empty nor false it becomes numerator/denominator, each side between \\left( and \\right) exactly when its LaTeX is longer than one character. A root becomes \\sqrt[index]{radicand}, and a square root \\sqrt{content} with its children separated by spaces, whatever the operands are.",
 ["inputs"],"every combination of operand elements up to the nesting bound, every value of the attributes",
 "Eight tests with token or mrow operands; operand swaps and wrapping errors can depend on operand shape and length.",
 [UC,WR],[("mfrac, mroot and msqrt converters",UC),("parenthesis wrapper with its length threshold",WR)])
p("C05","Fences: delimiters, defaults and separators",
 "A fence that contains no table becomes \\left, its opening delimiter, its children in order, \\right and its closing delimiter, where an absent, empty or blank delimiter is ( or ). Between the i-th and (i+1)-th child stands the i-th character of the separators attribute, the last character being used again when they run out, and a comma when there are none; no separator follows the last child.",
 ["inputs"],"every number of children up to the bound, every separators string over the alphabet up to the bound, every pair of delimiters, nested fences",
 "Eight tests, at most four children and three separators; the relation between child index and separator index has to hold for all pairs of lengths.",
 [UC,WR],[("mfenced converter",UC),("join with many separators",WR)])
p("C06","Tables and matrices: rows, cells, nesting and environments",
 "A table's rows are separated by \\\\ and a row's cells by &, in order, and a table anywhere inside another table is put in a matrix environment of its own while a table that is in no other table is not. A fence with a table anywhere inside selects by its delimiters pmatrix for ( ), bmatrix for [ ], Bmatrix for { }, vmatrix for | |, Vmatrix for || ||, bmatrix for any other two equal delimiters or none, and for other unequal ones a matrix environment between \\left and \\right with these delimiters.",
 ["inputs"],"every table shape up to the row/cell/nesting bounds, every delimiter pair, every container between the tables",
 "Nine tests, eight of them 2x2 tables directly inside the fence; nesting detection is recursive over an unbounded context.",
 [UC],[("mtable/mtr converters and the matrix environment choice",UC)],[("inner table flag","this table is inside another table","table converter construction in "+UC)])
p("C07","Enclosures, errors, actions and phantoms",
 "Each menclose notation (actuarial, radical, box, roundedbox, circle, left, right, top, bottom, the strikes and arrows, madruwb, phasorangle) yields its own LaTeX around the content, and a missing or unknown notation yields long division; merror yields \\color{red}{content}, with children separated by spaces. An action of type toggle, or without type, shows all its children separated by \\Longrightarrow; any other type shows the first child only, and nothing if there is none. A phantom yields nothing, whatever it contains.",
 ["inputs"],"every notation and action type including unknown ones, every content up to the nesting bound",
 "One test per notation with one fixed content; content of other shapes and nested enclosures are not reached.",
 [UC,AD],[("menclose, merror, maction converters",UC),("mphantom dispatch",AD)])
p("C08","Grouping elements are transparent; unrelated attributes are ignored",
 "mrow, mpadded, mstyle, semantics, table cells and every element with an unknown name yield their children's LaTeX in order separated by one space, and nothing of their own. Presentation attributes that the conversion of an element does not use (id, class, style, display, mathcolor, linethickness, stretchy, columnalign, another element's attributes, ...) never change the result, whatever their value.",
 ["inputs"],"every element crossed with every unrelated attribute and value of the alphabet; every wrapping of every element in transparent containers",
 "The tests put almost no unrelated attributes on elements, and reach four unknown names.",
 [UC,AD,XE],[("generic converter used for unknown names",AD),("space-joining converter",UC),("attribute extraction",XE)])
p("C09","Symbols are converted exactly as the published dictionary says",
 "For identifiers, operators and numbers each token whose text is in the published symbol dictionary of that kind (special symbols, glyphs, numbers in circles and scripts, vulgar fractions, operators, accented and styled letters) yields exactly its LaTeX. Every other token text, over all of Unicode, is output unchanged.",
 ["inputs"],"every Unicode character an XML document can hold, every multi-character dictionary entry and its one-character extensions, for each kind of token",
 "525 pairs are tested out of about 1.1 million characters and 2,900 dictionary entries, for one token kind each.",
 [UC,SY],[("lookup order: character, glyph, number, accents and styled letters",UC),("symbol tables",SY)])
p("C10","A letter never turns into a different letter",
 "A character that Unicode decomposes into a Latin letter or digit with accents or in a mathematical style, used as identifier, operator or number, is either output unchanged or as LaTeX that shows that same letter or digit in the same case. A mathematical-alphabet Greek letter is output unchanged or as that Greek letter (its LaTeX command, or the Latin capital of the same shape).",
 ["inputs"],"every Unicode character with such a decomposition",
 "Tests sample some sixty letters; an index shift in a table row changes one letter into another and no test looks at most rows.",
 [SY,UC],[("accent, styled letter and symbol tables",SY)])
p("C11","Math variants wrap the identifier in the right font commands",
 "An identifier with one of the thirteen styled mathvariant values (bold, italic, bold-italic, double-struck, bold-fraktur, script, bold-script, fraktur, sans-serif, bold-sans-serif, sans-serif-italic, sans-serif-bold-italic, monospace) yields its LaTeX inside exactly the font commands of that variant, bold outermost. An absent, normal or unknown variant adds nothing, and the variant never changes which symbol is shown.",
 ["inputs"],"every variant value crossed with every dictionary token and with multi-letter and empty identifiers",
 "One variant (double-struck) is tested on identifiers.",
 [UC],[("variant wrapper of identifiers",UC)])
p("C12","Text: runs of letters stay whole, symbols are translated in place",
 "In a text element every maximal run of ASCII letters, digits and white space (any white space counting as a space) is put, in order, into the text command of its mathvariant (\\text by default; textbf, textit, mathbb, mathtt, mathfrak for the styled ones), and every other character is replaced in place by its identifier LaTeX. No character is lost or moved.",
 ["inputs"],"every string up to the length bound over an alphabet with one character of each class, every variant; every Unicode character between letters; long strings",
 "Eleven tests, ten of them pure ASCII words.",
 [UC],[("character classification, merging of runs, text commands",UC)])
p("C13","A wrong number of children is always reported",
 "msup, msub, mfrac, mroot, mover and munder with other than two children, msubsup and munderover with other than three, and mmultiscripts with fewer than three make the conversion fail with InvalidNumberOfChildrenError, at any place where the element is shown, naming the element, the number required and the number found. With a valid number of children they never fail.",
 ["inputs"],"every one of these elements with 0 to 6 (and some larger) children, each child kind, in every container up to the nesting bound",
 "Eight tests, each one wrong count at top level.",
 [UC,PR],[("child count checks",UC),("error type and message",PR)])
p("C14","The LaTeX is lexically sound",
 "For formulas with no braces or letters as fence delimiters or separators, the output has balanced braces and properly nested \\begin/\\end environments, and, when there is no left, right or madruwb enclosure and no fence around a table that has just one delimiter, as many \\left as \\right, properly nested with the braces. Every command name in it is one the library defines: a command is never glued to the letters that follow, and a special character (# $ % & _ { } ^ ~ backslash) used as a single-character identifier or in text never appears raw.",
 ["inputs"],"every tree up to the node bound with command-producing tokens in every slot; every special character in every text position",
 "Tests compare some outputs literally; soundness has to hold for every combination of neighbours.",
 [UC,SY,WR,CO],[("braces and spaces put around children",UC),("wrappers",WR),("concatenation of formulas",CO)])
p("C15","Layout white space never matters, and the output has none to spare",
 "Inserting or removing spaces, tabs and line breaks (LF, CRLF or CR) between elements, around token text, between attributes or around the document never changes the result, and inside token text any amount of white space counts as one space. The output never starts or ends with white space and never contains line breaks, tabs or two consecutive spaces.",
 ["inputs"],"every placement of up to the bound of white space insertions, of each kind, at every such place of every base document",
 "All test documents are laid out in one style: LF plus indentation.",
 [XA,NO,XE,UC],[("line break replacement",XA),("white space normalizer",NO),("trimming of token text",XE)])
p("C16","The spelling of the XML does not matter",
 "Documents that are the same XML up to spelling give the same LaTeX: character references (decimal or hexadecimal) or literal characters, CDATA sections, comments and processing instructions anywhere, either quote style, attribute order, self-closing or empty elements, an XML declaration, a doctype, a byte order mark, and the mml: prefix on all elements. Comments and processing instructions never show in the output.",
 ["inputs"],"every placement of up to the bound of spelling changes at every place of every base document",
 "Tests contain comments between elements and some character references only; each spelling has to be neutral at every place.",
 [XA,XE],[("prefix removal and parsing",XA),("text extraction",XE)])
p("C17","Attributes without a quoted value are ignored, and only these",
 "A document that would be well formed but for attributes written without a quoted value (name, name= or name=value) in its start tags gives the same LaTeX as the document without these attributes, however many there are and wherever they stand. Neither the other attributes nor any text, even text that repeats an attribute's name or looks like one, is changed, and well-formed documents are never altered.",
 ["inputs","fault_sequences"],"every placement of up to the bound of damaged attributes, of each form, at every attribute position of every base document; many at once",
 "One test, one damaged attribute at the end of a tag.",
 [XA,EH],[("parse, repair and retry loop",XA),("attribute repair",EH)],[("document under repair","text as repaired so far","adapter object, one per conversion")])
p("C18","Broken documents are rejected, never half converted",
 "A document that is not well-formed XML even when its unquoted attributes are left out (cut off anywhere, with a missing, extra or misnamed tag, a stray < or &, an unknown entity, an unclosed quote, a duplicate attribute, text or a second root after the root, or nothing at all) makes the conversion fail with the XML parser's error. It never returns a partial or altered formula.",
 ["inputs","fault_sequences","crash_points"],"every truncation point and every single-character deletion, insertion and replacement of every base document; every single structural fault, alone and combined with damaged attributes",
 "One test with trailing text.",
 [XA,EH],[("parse, repair and retry loop that re-raises the parser's error",XA),("attribute repair that must not remove anything else",EH)])
p("C19","Conversions are independent of what was converted before",
 "The result of converting a document is a function of the document alone: after any sequence of earlier conversions in the process, successful or failed, of the same or other documents, through the class or through any number of its instances, fresh or reused, it is the same string (or the same error) as in a fresh process.",
 ["histories"],"every sequence of conversions up to the depth bound over an alphabet with one document per code path, each from a fresh process; long repetitions",
 "Every test converts one document and compares; no test relates two conversions.",
 [CO,FA,XA,EH,UC,SY],[("a new parser adapter, error handler and converter per call",FA),("module level tables that are only read",SY)],[("module globals","symbol tables; nothing else","every module"),("document under repair","must not outlive its conversion",XA)])
p("C20","Concurrent conversions do not interfere",
 "When several threads convert documents at the same time, each call returns exactly the string (or raises exactly the error) that it would alone, whatever the interleaving, also when they share one converter instance or convert the same document, and no call blocks forever.",
 ["schedules"],"every interleaving of two (three) conversions at source line granularity up to the preemption bound, and at bytecode granularity for a lower bound",
 "No test uses threads, and a free-running one would sample a few interleavings.",
 [CO,FA,XA,EH,UC],[("no shared mutable state between calls",CO),("a new parser adapter and error handler per call",FA)],[("document under repair","rewritten between parse attempts",XA)])
p("C21","All formulas of a document, each once, in order, and nothing else",
 "A document yields the LaTeX of its outermost math elements, each as if converted alone, in document order and separated by a single space; empty ones add nothing. Text and elements around them are ignored at any depth, a math element inside another is converted once, as part of it, and a document without math yields the empty string.",
 ["inputs"],"every arrangement of up to the bound of formulas in host elements, nested or side by side, with text around",
 "No test has two formulas in a document or text beside one.",
 [CO,XA],[("selection of the math elements",XA),("concatenation",CO)])
p("C22","Conversion terminates, with bounded work and for deep formulas",
 "Every conversion terminates; doubling the nesting depth, the number of siblings or the length of a text multiplies the work by little more than four at most, for every combination of element kinds, and a broken document is parsed at most a fixed number of times. Formulas nested a hundred levels deep, of any kinds of elements, are converted.",
 ["inputs"],"every cyclic pattern of up to the bound of element kinds and child positions, nested to increasing depths; sibling and text lengths; numbers of damaged attributes",
 "Tests nest at most six levels and say nothing about work.",
 [UC,XA,EH,XE],[("one conversion of each child by its parent",UC),("bounded parse and repair loop",XA)],observe=("the result of MathMLToLaTeX.convert","the number of Python calls it makes"))
p("C23","Conversion has no side effects",
 "Converting a document, well formed or not, with or without doctype and external entities, opens no file and no connection, starts no process, prints nothing and changes no interpreter-wide setting and nothing in the standard library. The contents of files a document refers to never appear in the result.",
 ["inputs"],"every document of the alphabet: one per code path, external and internal entity declarations, external doctypes, broken ones",
 "Tests look at results only.",
 [XA,EH,CO],[("parsing with external entities left out",XA)],observe=("interpreter audit events during MathMLToLaTeX.convert","standard output and error","the result"))
p("C24","An element's LaTeX does not depend on where it stands",
 "The LaTeX of a formula is composed: putting an element in a slot of a container yields the container's LaTeX for that slot with the element's own LaTeX in it, at any depth, next to any siblings. The only dependences on context are those documented: tables inside tables or fences, grouping parentheses around script bases and bevelled operands, and accent recognition.",
 ["inputs"],"every element in every slot of every chain of containers up to the depth bound, with every combination of sibling kinds",
 "A test fixes one element in one context.",
 [UC,AD],[("children converted by fresh converters without context",AD),("string templates of the converters",UC)])
p("C25","The result is the same in every environment",
 "The result of a conversion (string or error) does not depend on how or where Python runs it: hash seed, optimisation (-O, -OO), warnings as errors, development, isolated or UTF-8 mode, locale, environment variables, directory, clock, recursion limit, garbage collection, tracing, and the state of the standard streams. Nor does it depend on the caller: thread, task, generator, signal, exception or exit handler, deep stack, class, instance or subclass, and an equal string of any make as argument.",
 ["configurations","inputs"],"every combination of the listed options, environments and callers, for a list of documents with every kind of element, symbol, error and spelling",
 "The tests run in one configuration and call in one way.",
 [CO,XA,UC],[("conversion by pure string functions; dictionaries in fixed order",UC),("fresh parser and converters at each call",CO)])
p("C26","Every string has an outcome, and only two kinds of errors exist",
 "Converting any string of Unicode text, however malformed or strange, returns a string or raises one of two errors: the XML parser's (only when the string is not well-formed XML) or InvalidNumberOfChildrenError (only when an element that needs a certain number of children has another). A well-formed document in which these elements have their children is always converted, whatever else is in it: unknown names and attributes, any values, elements inside tokens, text between elements, empty or misplaced elements, any characters.",
 ["inputs"],"every short string of XML fragments, every arrangement of three elements of any names, every attribute value of the alphabet on every element, every Unicode character in every place, nested up to a hundred levels",
 "The tests convert about a hundred meaningful documents; a crash can hide in any combination of empty, misplaced and odd parts.",
 [UC,AD,XA,EH,XE],[("default converter for every unknown element",AD),("checks of the number of children before children are used",UC),("repair loop that ends with the parser's error",XA)])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=False)+"\n")
print(len(P),"properties")
import re
for r in P:
    n=len(re.findall(r"[.;!?] [A-Z]", r["statement"]))+1
    assert len(r["title"])<=80 and n<=3,(r["id"],n,len(r["title"]))
