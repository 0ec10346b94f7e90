"""Fingerprints of the standard library's own state: what a conversion must leave as it was.

A fingerprint is the identity of every attribute of the modules a text conversion is likely to use, of the attributes of
their public classes and of the contents of their public containers.  New modules may be loaded and new submodules may
appear on their packages; private attributes may come and go (caches), but for those of `re` and `xml`, except their caches.
"""
import importlib
import re
import sys
import types
import warnings

NAMES = """re re._compiler re._parser re._constants re._casefix xml xml.dom xml.dom.minidom xml.dom.expatbuilder xml.dom.minicompat xml.dom.domreg xml.dom.xmlbuilder xml.dom.NodeFilter xml.dom.pulldom
xml.parsers xml.parsers.expat pyexpat xml.sax xml.sax.saxutils xml.sax.handler xml.sax.xmlreader xml.sax.expatreader xml.sax._exceptions xml.etree xml.etree.ElementTree xml.etree.ElementPath
html html.entities html.parser _markupbase unicodedata string copy copyreg codecs encodings encodings.aliases enum dataclasses typing collections collections.abc functools itertools operator types json
json.encoder json.decoder math abc weakref contextlib io os os.path posixpath locale fractions numbers decimal logging textwrap warnings time random sys signal threading keyword
heapq bisect struct array reprlib pprint numbers cmath statistics urllib urllib.parse queue datetime traceback linecache tempfile shutil pathlib fnmatch glob pickle""".split()
UNSETTLED = {"__annotations__", "__weakref__", "__dict__", "__doc__", "__abstractmethods__", "_abc_impl", "__match_args__", "__signature__", "__warningregistry__", "__builtins__", "__annotate__", "__conditional_annotations__",
             "__static_attributes__", "__firstlineno__", "__parameters__", "__type_params__", "_", "last_exc", "last_type", "last_value", "last_traceback", "__getattr__"}
LIVE = {("sys", "stdout"), ("sys", "stderr"), ("sys", "modules"), ("sys", "path_importer_cache"), ("linecache", "cache"), ("gc", "garbage"), ("gc", "callbacks"), ("os", "environ"), ("warnings", "filters"),
        ("sys", "meta_path"), ("sys", "path"), ("typing", "_cleanups"), ("encodings", "aliases"), ("sys", "flags"), ("warnings", "onceregistry")}
parts = None  # (where, object, whether private names count)


def ours(where, key, deep):
    if not isinstance(key, str):
        return True
    if key in UNSETTLED or (where, key) in LIVE or "cache" in key.lower():
        return False
    return deep or not key.startswith("_") or key.startswith("__") and key.endswith("__")


def collect():
    global parts
    parts, seen = [], set()
    for n in NAMES:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m = importlib.import_module(n)
        except ImportError:
            continue
        deep = n.split(".")[0] in ("re", "xml")
        if id(m) in seen:
            continue
        seen.add(id(m))
        parts.append((n, vars(m), deep))
        for k, v in list(vars(m).items()):
            if id(v) in seen or not ours(n, k, deep) or k.startswith("__"):
                continue
            if isinstance(v, type) and v.__module__ not in ("__main__",) and not v.__module__.startswith("mathml"):
                seen.add(id(v))
                parts.append((f"{n}.{k}", vars(v), True))
            elif type(v) in (dict, list, set) and len(v) < 20000:
                seen.add(id(v))
                parts.append((f"{n}.{k}", v, True))


def take(d):
    return (list(d), list(d.values())) if not isinstance(d, (list, set)) else (list(d), [])


def cached():
    return len(getattr(re, "_cache", ()))


class State:
    """The state last seen; `changed()` says what is not as it was then."""

    def __init__(self):
        if parts is None:
            collect()
        self.keep()

    def keep(self):
        self.all = [take(d) for _, d, _ in parts]  # keeps what is compared alive
        self.values = [(d.values if hasattr(d, "values") else d.__iter__, vs if hasattr(d, "values") else ks) for (_, d, _), (ks, vs) in zip(parts, self.all)]
        self.cached = cached()

    def changed(self):
        n = cached()
        gone = n < self.cached - 1
        self.cached = n
        for live, kept in self.values:  # identical objects are not compared further
            if list(live()) != kept:
                break
        else:
            return ["re's cache"] if gone else []
        res = ["re's cache"] if gone else []
        for (where, d, deep), (ks, vs) in zip(parts, self.all):
            k2, v2 = take(d)
            if list(map(id, k2)) == list(map(id, ks)) and list(map(id, v2)) == list(map(id, vs)):
                continue
            if not vs and not v2:
                if [id(k) for k in k2] != [id(k) for k in ks]:
                    res.append(where)
                continue
            a, b = dict(zip(ks, vs)), dict(zip(k2, v2))
            for k in list(a) + [k for k in b if k not in a]:
                x, y = a.get(k, None), b.get(k, None)
                if (x is not y or (k in a) != (k in b)) and ours(where, k, deep) and not isinstance(x, types.ModuleType) and not isinstance(y, types.ModuleType):
                    res.append(f"{where}.{k}")
            if isinstance(d, dict) and where not in sys.modules and list(a) != list(b) and set(a) == set(b):
                res.append(f"the order of {where}")
        self.keep()
        return res
