"""The presentation attributes of MathML 3 with the values they really have, and some of HTML."""
REAL = {
    "id": ["x", "m1"], "class": ["a", "hidden", "inner"], "style": ["color:red", "display:none", "visibility:hidden", ""], "href": ["#a", "http://x.y/"],
    "dir": ["ltr", "rtl", "auto", "RTL"], "display": ["block", "inline", "none", "inline math"], "displaystyle": ["true", "false"],
    "scriptlevel": ["0", "1", "2", "+1", "-1"], "mathcolor": ["red", "#f00", "transparent"], "mathbackground": ["yellow", "white"],
    "mathsize": ["0", "small", "normal", "big", "120%", "2em"], "mathvariant": ["normal", "bold", "italic", "script", "initial", "tailed", "looped", "stretched"],
    "fontweight": ["bold"], "fontstyle": ["italic", "normal"], "fontfamily": ["serif"], "color": ["red"], "background": ["black"],
    "form": ["prefix", "infix", "postfix"], "fence": ["true", "false"], "separator": ["true", "false"], "lspace": ["0", "1em", "thickmathspace"],
    "rspace": ["0", "verythinmathspace"], "stretchy": ["true", "false"], "symmetric": ["true", "false"], "maxsize": ["1", "infinity"], "minsize": ["1"],
    "largeop": ["true", "false"], "movablelimits": ["true", "false"], "accent": ["true", "false"], "accentunder": ["true", "false"],
    "linethickness": ["0", "0pt", "0em", "1", "2px", "thin", "medium", "thick"], "numalign": ["left", "center", "right"],
    "denomalign": ["left", "center", "right"], "bevelled": ["true", "false"], "selection": ["0", "1", "2", "3"], "width": ["0", "0em", "1em", "+1em", "-1em"],
    "height": ["0", "0pt", "1ex"], "depth": ["0", "1ex"], "voffset": ["0", "1ex"], "subscriptshift": ["0", "1ex"], "superscriptshift": ["0", "1ex"],
    "align": ["left", "center", "right", "axis", "baseline", "top", "bottom", "axis 2"], "rowalign": ["top", "bottom", "center", "baseline"],
    "columnalign": ["left", "center", "right", "left right", "{ left right }"], "groupalign": ["left", "{left}"], "alignmentscope": ["true", "false"],
    "columnwidth": ["auto", "fit", "2em"], "rowspacing": ["1ex", "0"], "columnspacing": ["0.8em", "0"], "rowlines": ["none", "solid", "dashed"],
    "columnlines": ["none", "solid", "solid none"], "frame": ["none", "solid", "dashed"], "framespacing": ["0.4em 0.5ex"], "equalrows": ["true", "false"],
    "equalcolumns": ["true", "false"], "side": ["left", "right", "leftoverlap", "rightoverlap"], "minlabelspacing": ["0.8em"],
    "rowspan": ["0", "1", "2"], "columnspan": ["0", "1", "2", "3"], "colspan": ["2"], "edge": ["left", "right"], "encoding": ["MathML", "application/x-tex", "TeX", "text/html"],
    "definitionURL": ["http://x/"], "cd": ["arith1"], "src": ["a.png", "/etc/passwd"], "alt": ["a"], "alttext": ["x^2"], "altimg": ["a.png"], "xref": ["x"],
    "lquote": ["'"], "rquote": ["'"], "indentalign": ["left", "id"], "linebreak": ["newline", "auto", "nobreak", "goodbreak"], "linebreakstyle": ["before", "after"],
    "infixlinebreakstyle": ["after"], "lineleading": ["100%"], "linebreakmultchar": ["⁢", "×"], "overflow": ["scroll", "elide"], "title": ["a"], "lang": ["en", "ar", "de", "fa"],
    "xml:lang": ["en", "ar"], "xml:space": ["preserve", "default"], "xmlns:m": ["urn:x"], "role": ["math", "presentation"], "aria-hidden": ["true", "false"],
    "aria-label": ["x"], "hidden": ["hidden", "true", ""], "visibility": ["hidden", "visible"], "tabindex": ["0"], "onclick": ["f()"], "contenteditable": ["true"],
    "open": ["(", "[", ""], "close": [")", "]", ""], "separators": [";", "", ",;"], "notation": ["box", "longdiv"], "actiontype": ["toggle", "tooltip"],
    "longdivstyle": ["lefttop"], "position": ["1"], "shift": ["1"], "crossout": ["updiagonalstrike"], "charalign": ["center"], "stackalign": ["left"],
    "decimalpoint": [","], "index": ["1"], "other": ["x"], "data-mjx-texclass": ["ORD", "OP", "INNER"], "mathdepth": ["1"], "intent": ["power($a,$b)"], "arg": ["a"],
    "veryverythinmathspace": ["0.1em"], "scriptsizemultiplier": ["0.71"], "scriptminsize": ["8pt"], "mode": ["display", "inline"], "macros": ["x"], "begin": ["1"], "end": ["2"],
    "type": ["text", "toggle"], "name": ["x"], "value": ["1"], "fontsize": ["0", "2em"], "nargs": ["1"], "valign": ["0"], "thickmathspace": ["1em"], "beveled": ["true"],
    "spacing": ["tight"], "limits": ["true"], "order": ["2", "reverse"], "base": ["2"], "math": ["math"], "children": ["x"], "text": ["x"],
}
PAIRS = [(n, v) for n, vs in REAL.items() for v in vs]
