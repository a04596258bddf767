"""C03: literals and identifiers."""
from ..common import *
from ..core import Family, Skip, warm
from ..refstring import valid

LENGTHS = [*range(0, 70), 79, 80, 81, 99, 100, 101, 119, 120, 121, 127, 128, 129, 199, 200, 255, 256, 257, 499, 500, 511, 512, 513, 999, 1000,
           1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192, 10000, 32768, 65535, 65536, 65537, 100000]
NARROW = ["a", "\\'", "\\\\", "${x}", "${f('y')}", "${f({k: 'v'})}", "$", "{", "}", "//", "/*", "*/", "#", " ", "[", "]", ",", "é", "\"", "\\$", "\\${"]
MULTI = ["a", " ", "\n", "\r\n", "'", "''", "\\", "\\n", "\\'", "${x}", "//", "/*", "*/", "#", "\t", "{", "}", "$", "é", "\u2028", "\"", "\\\\", "x y", "@", "null",
         "#disable-next-line x", "\n#restore y", "e\u0301", "\u212b", "  ", "\n\n", "    ", "// x\n", "/* x */", "@secure()", "var x = 1", "%s", "{0}", "\\u{61}", "&amp;",
         "\u0085", "\x0b", "\x0c", "\U0001f600", "1", "=", "[", "]"]


def hosts():
    """positions where a string literal can stand, also next to other strings on the same line"""
    q = string("q'"[:1])
    doc = doc_scope

    def var(v):
        return var_doc(v)

    t = t_name("string")

    def case(d):
        return Case(d.text, d.expected())

    def one(d):
        return case(Doc([d]))

    return {
        "var": var,
        "first": lambda v: var(array([v, q])), "second": lambda v: var(array([q, v])), "both": lambda v: var(array([v, q, v])),
        "glued": lambda v: var(array([v, v], ",")), "lines": lambda v: var(array([v, q, v], "\n", "\n", "\n")),
        "value": lambda v: var(obj([("k", v), ("l", q)])), "value lines": lambda v: var(obj([("k", v), ("l", q), ("m", v)], "\n", "\n", "\n")),
        "args": lambda v: var(call("fn", [v, q, v])), "known arg": lambda v: var(call("split", [v, v], ",")),
        "operands": lambda v: var(binary(v, "+", v)), "compare": lambda v: var(binary(v, "==", q, "")),
        "ternary": lambda v: var(cond(v, v, v)), "index": lambda v: var(index(ident("a"), v)), "owner": lambda v: var(index(v, v)),
        "call": lambda v: var(access_call(ident("a"), "getSecret", [v, v])),
        "before multi": lambda v: var(array([v, multi("mm")])), "after multi": lambda v: var(array([multi("mm"), v])),
        "before comment": lambda v: Case(f"var x = {v.src} // it's\nvar y = {v.src} /* ' */\n",
                                         {**doc(), "variables": {"x": {"decorators": [], "value": v.exp},
                                                                 "y": {"decorators": [], "value": v.exp}}}),
        "two lines": lambda v: case(Doc([d_var("x", v), d_var("y", q), d_param("x", t, v)])),
        "param": lambda v: one(d_param("p", t, v)), "output": lambda v: one(d_output("o", t, v)),
        "decorator": lambda v: one(d_param("p", t).with_decorators([deco("description", v), deco("custom", v)])),
        "property": lambda v: one(d_resource("r", "A/b", "1", Body([("name", v), ("k", v)]))),
        "condition": lambda v: one(d_resource("r", "A/b", "1", Body([("k", v)], wrap="if", condition=binary(v, "==", q)))),
        "loop": lambda v: var(loop("array", ["i"], array([v, q]), v)),
        "last line without end": lambda v: Case(f"var x = {v.src}", {**doc(), "variables": {"x": {"decorators": [], "value": v.exp}}}),
        "lambda": lambda v: var(call("map", [v, lam(["x"], v)])),
        "type": lambda v: one(d_type("t", v)), "func": lambda v: one(d_func("f", [], t, v)),
    }


def families(tier):
    deep = tier == "thorough"
    H = hosts()
    hnames = list(H)

    def content(c, alphabet, upto):
        n = c.free(upto + 1)
        return "".join(c.free(alphabet) for _ in range(n))

    def checked(s):
        if not valid(s):
            raise Skip
        return string(s)

    def strings(c):
        return var_doc(array([checked(content(c, FRAGMENTS, 2)), string("q")]))

    def strings3(c):
        return var_doc(array([checked(content(c, FRAGMENTS if deep else NARROW, 3)), string("q")]))

    def strings4(c):
        return var_doc(array([checked(content(c, NARROW, 4)), string("q")]))

    def placed(c):
        h = c.free(hnames)
        return H[h](checked(content(c, FRAGMENTS, 1) if not deep else content(c, FRAGMENTS, 2)))

    def placed2(c):
        h = c.free(hnames)
        return H[h](checked("".join(c.free(NARROW[:14]) for _ in range(2))))

    def metadata(c):
        a = checked(content(c, FRAGMENTS, 2))
        d = Doc([d_metadata("m", a.exp), d_metadata("n", "q")])
        return Case(d.text, d.expected())

    def keys(c):
        """quoted keys keep their quotes"""
        a = checked(content(c, FRAGMENTS, 2))
        sep = c.free([", ", "\n"])
        return var_doc(obj([(a.src, integer(1)), ("k", a)], sep, "\n" if sep == "\n" else "", "\n" if sep == "\n" else ""))

    def multi_ok(s):
        if "'''" in s or s.endswith("'") or s.startswith("'") or "'''" in s.replace("\n", ""):
            raise Skip
        # one line break directly after the delimiter is not content
        exp = s[2:] if s.startswith("\r\n") else s[1:] if s.startswith("\n") else s
        return V(f"'''{s}'''", exp, True, "multi")

    def multis(c):
        v = multi_ok(content(c, MULTI, 3 if deep else 2))
        k = c.free(3)
        return [lambda: var_doc(v), lambda: var_doc(array([v, string("q"), v])),
                lambda: var_doc(obj([("k", v), ("l", v)], "\n", "\n", "\n"))][k]()

    def multis3(c):
        return var_doc(multi_ok(content(c, MULTI[:13], 4 if deep else 3)))

    def indented(c):
        """several lines with any indentation"""
        n = c.free(range(2, 6 if deep else 5))
        pool = ["", "a", "  a", "\tb", "    ", "a  ", "  'q'", "   c"] if n < 5 else ["a", "  a", "\tb", "    "]
        nl = c.free(["\n", "\r\n"])
        s = nl.join(c.free(pool) for _ in range(n))
        if c.free(2):
            s = nl + s
        return var_doc(array([multi_ok(s), string("q")], "\n", "\n", "\n"))

    def indented_long(c):
        n = c.free([5, 6, 7, 8, 9, 10, 11, 16, 17, 20, 32, 33, 64, 100])
        ind = c.free(["  ", "\t", "    ", "", "mixed"])
        nl = c.free(["\n", "\r\n"])
        lead, last = c.free([nl, ""]), c.free(["", nl, nl + "  "])
        s = nl.join((["", "  ", " ", "\t "][i % 4] if ind == "mixed" else ind) + f"line {i}" for i in range(n))
        v = multi_ok(lead + s + last)
        return Doc([d_output("o", t_name("string"), v), d_var("w", v)])

    def multi_placed(c):
        h = c.free([h for h in hnames if h not in ("before comment",)])
        return H[h](multi_ok(content(c, MULTI, 1)))

    def pair_of(c):
        """identifier and string of the same content side by side"""
        n = c.free(IDENTS)
        h = c.free(hnames)
        k = c.free(2)
        if n in ("for", "resource", "items"):
            raise Skip
        return H[h](string(n) if k else ident(n))

    def mixed(c):
        n = c.free([n for n in IDENTS])
        order = c.free(2)
        pair = [ident(n), string(n)]
        if order:
            pair.reverse()
        w = c.free(["array", "object", "args", "op"])
        if w == "array":
            return var_doc(array(pair))
        if w == "object":
            return var_doc(obj([("k", pair[0]), (n, pair[1])]))
        if w == "args":
            return var_doc(call("fn", pair))
        return var_doc(binary(pair[0], "+", pair[1]))

    def ints(c):
        n = c.free(INTS)
        return H[c.free(hnames)](V(n, int(n), True, "int"))

    def keywords(c):
        v = c.free([NULL, TRUE, FALSE, string("null"), string("true"), string("false"), ident("nulls"), ident("True"), ident("FALSE"),
                    ident("null_"), ident("true1"), ident("false_x")])
        return H[c.free(hnames)](v)

    def lengths(c):
        n = c.free(LENGTHS)
        k = c.free(["str", "ident", "multi", "key", "esc", "hole", "int", "mline", "meta"])
        if k == "str":
            return var_doc(array([string("a" * n), string("q")]))
        if k == "esc":
            return var_doc(array([string("\\'" * n), string("q")]))
        if k == "hole":
            if n > 5000:
                raise Skip
            return var_doc(array([string("${x}" * n), string("q")]))
        if k == "ident":
            return var_doc(ident("b" * (n + 1)), "v" * (n + 1))
        if k == "multi":
            return var_doc(V("'''" + "a'\n" * n + "'''", "a'\n" * n))
        if k == "mline":
            return var_doc(V("'''" + "\n" * (n + 1) + "x'''", "\n" * n + "x"))
        if k == "key":
            return var_doc(obj([("k" * (n + 1), integer(1)), ("'" + "k" * (n + 1) + "'", integer(2))]))
        if k == "meta":
            d = Doc([d_metadata("m", "z " * n)])
            return Case(d.text, d.expected())
        if n > 4000:
            raise Skip
        return var_doc(V("1" + "0" * n + "7", int("1" + "0" * n + "7")))

    def every_char(c):
        """each character of the first planes alone in a string and in a multi-line string"""
        block = c.free(256 if not deep else 1024)
        chars = [chr(x) for x in range(block * 64, block * 64 + 64) if not 0xD800 <= x <= 0xDFFF and chr(x) not in "'\\\n\r" and not 0xE000 <= x <= 0xE001]
        if not chars:
            raise Skip
        k = c.free(3)
        if k == 0:
            return var_doc(array([string(ch) for ch in chars]))
        if k == 1:
            return var_doc(string("".join(chars)))
        s = "".join(chars)
        return var_doc(array([V(f"'''{s}'''", s), string("q")], "\n", "\n", "\n"))

    def nested_holes(c):
        """interpolations in interpolations, closed properly"""
        def code(depth):
            k = c.free(["x", "f('y')", "{k: 1}", "str", "[0]", "a ? 'b' : 'c'", "'}'", "'{'", "f({a: {b: '}'}})"] if depth else ["x", "'y'", "{}"])
            return f"'{inner(depth - 1)}'" if k == "str" else k

        def inner(depth):
            pre = c.free(["", "p", "\\'"] if depth else ["", "p"])
            return pre + "${" + code(depth) + "}" + c.free(["", "}"] if depth else ["", "{"])
        s = inner(2)
        return var_doc(array([checked(s), string("q")]))

    J = judge_case
    fams = [Family("indented lines", indented, J), Family("many indented lines", indented_long, judge_doc), Family("string contents", strings, J), Family("string contents of 3", strings3, J), Family("strings in positions", placed, J),
            Family("strings of 2 in positions", placed2, J), Family("metadata", metadata, J), Family("quoted keys", keys, J),
            Family("multi-line contents", multis, J), Family("multi-line contents, longer", multis3, J), Family("multi-line in positions", multi_placed, J),
            Family("identifier and string", pair_of, J), Family("identifier next to string", mixed, J), Family("integers", ints, J),
            Family("keyword-like", keywords, J), Family("lengths", lengths, J), Family("every character", every_char, J),
            Family("nested interpolation", nested_holes, J)]
    if deep:
        fams.append(Family("string contents of 4", strings4, J))
    return fams


def run(check):
    check.assumptions.append("string contents are those of the Bicep language: no raw line break, interpolations closed")
    check.explore(families(check.tier), warm)
