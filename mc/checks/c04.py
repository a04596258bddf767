"""C04: arrays and objects."""
from ..common import *
from ..core import Family, Skip, warm

COMMA = [", ", ",", " , ", "  ,  /* c */ ", ",\t"]
# a line break after a comma is accepted before literals, identifiers and calls only
COMMA_NL = [*COMMA, ",\n", ",\n  ", ",\n\n", ",\r\n"]
LINE = ["\n", "\n  ", "\n\n", " // c\n", "\n// c\n", "\r\n", "  /* c */\n", "\n// a\n\n// b\n", " # c\n", "\t\n\t"]
OPEN = ["", " ", "\n", "\n\n", " // c\n", "\n// c\n", "/* c */", "\r\n"]
CLOSE = ["", " ", "\n", "\n\n", " // c\n", "\n// c\n", "/* c */", "\r\n"]
# in objects a line break is not accepted after a comma
OCOMMA = [", ", ",", " , ", "  ,  /* c */ "]
KEYS = [k for k in IDENTS] + ["resource", "for", "if", "in", "items", "X", "k9", "'a'", "'a b'", "'a.b'", "'a-b'", "''", "'1'", "'${x}'", "'${x}-y'",
                              "'it\\'s'", "'//'", "'#x'", "'{'", "'a:b'", "'null'", "'resource'", "'é'", "'__x__'", "'/subscriptions/a'", "'*'",
                              "'a,b'", "'  '", "'$ref'", "__child", "operator", "condition", "config", "loop_type", "depends_on", "dependsOn"]
LENGTHS = [*range(0, 41), 48, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 499, 500, 501]
LENGTHS_T = LENGTHS + [511, 512, 513, 750, 999, 1000, 1001, 1023, 1024, 1025, 2000]
DEPTHS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 25, 30, 31, 32, 33, 40]


def breakable(v):
    return v.src[:1] not in "[{(-!" and not v.src.startswith("'''")


def families(tier):
    deep = tier == "thorough"
    values = basic_values() + [loop("array", ["i"], ident("s"), ident("i"))][:0]
    small = SMALL
    kinds = [integer(0), integer(7), string(""), string("s"), NULL, TRUE, FALSE, ident("foo"), array([]), array([integer(1)]), obj([]),
             obj([("k", NULL)]), call("fn", []), binary(ident("a"), "+", ident("b")), neg(integer(1)), lnot(ident("a")), paren(ident("a")),
             multi("m\n"), index(ident("a"), integer(0)), binary(ident("a"), ".", ident("b"))]

    def pairs(c):
        a, b = c.free(values), c.free(values)
        sep = c.free([", ", "\n", ",\n"] if breakable(b) else [", ", "\n"])
        edge = "\n" if "\n" in sep else ""
        return var_doc(array([a, b], sep, edge, edge))

    def triples(c):
        vs = [c.free(kinds if deep else small) for _ in range(3)]
        sep = c.free([", ", "\n"])
        edge = "\n" if sep == "\n" else ""
        return var_doc(array(vs, sep, edge, edge))

    def layout(c):
        n = c.free(5)
        vs = [[integer(1), ident("b"), obj([("k", NULL)]), string("")][(i * 3) % 4] for i in range(n)]
        style = c.free(["comma", "line", "mixed"])
        o, e = c.dev(OPEN), c.dev(CLOSE)
        out = o
        for i, v in enumerate(vs):
            if i:
                out += c.dev(COMMA_NL if breakable(v) else COMMA) if style == "comma" or style == "mixed" and i % 2 else c.dev(LINE)
            out += v.src
        return var_doc(V(f"[{out}{e}]", [v.exp for v in vs]))

    def lengths(c):
        n = c.free(LENGTHS_T if deep else LENGTHS)
        k = c.free(["int", "kinds", "same", "objects"])
        sep = c.free([", ", "\n", ",\n"] if k in ("int", "same") else [", ", "\n"])
        vs = {"int": lambda: [integer(i) for i in range(n)], "kinds": lambda: [kinds[i % len(kinds)] for i in range(n)],
              "same": lambda: [string("same")] * n, "objects": lambda: [obj([("k", integer(i))]) for i in range(n)]}[k]()
        edge = "\n" if "\n" in sep else ""
        return var_doc(array(vs, sep, edge, edge))

    def nest(c):
        n = c.free(DEPTHS)
        v = c.free(small)
        k = c.free(["array", "object", "both", "wide", "lines"])
        for i in range(n):
            if k == "array" or k == "both" and i % 2:
                v = array([v])
            elif k == "wide":
                v = array([integer(i), v, obj([("k", integer(i))])])
            elif k == "lines":
                v = obj([("a", integer(i)), ("k", v), ("b", array([v]) if i == 0 else NULL)], "\n", "\n", "\n")
            else:
                v = obj([(f"k{i}", v)])
        return var_doc(v)

    def shape(c, depth, budget):
        """all small trees of arrays and objects"""
        k = c.free(3 if depth else 1)
        if k == 0:
            return c.free([integer(1), NULL, string("")])
        n = c.free(budget + 1)
        parts = [shape(c, depth - 1, budget - 1) for _ in range(n)]
        return array(parts, ", ") if k == 1 else obj([(f"k{i}", p) for i, p in enumerate(parts)])

    def trees(c):
        return var_doc(shape(c, 2, 2))

    def trees3(c):
        return var_doc(shape(c, 3, 2))

    def line_trees(c):
        def lshape(depth):
            k = c.free(3 if depth else 1)
            if k == 0:
                return c.free([integer(1), ident("a")])
            n = c.free(3)
            parts = [lshape(depth - 1) for _ in range(n)]
            e = "\n" if n else ""
            return array(parts, "\n", e, e) if k == 1 else obj([(f"k{i}", p) for i, p in enumerate(parts)], "\n", e, e)
        return var_doc(lshape(2))

    def keys(c):
        a, b = c.free(KEYS), c.free(KEYS)
        if a == b:
            raise Skip
        sep = c.free([", ", "\n"])
        e = "\n" if sep == "\n" else ""
        return var_doc(obj([(a, integer(1)), (b, string(""))], sep, e, e))

    def key_values(c):
        k = c.free(KEYS[::3] if not deep else KEYS)
        v = c.free(values)
        sep = c.free([", ", "\n"])
        e = "\n" if sep == "\n" else ""
        return var_doc(obj([("p", v), (k, v), ("q", integer(0))], sep, e, e))

    def value_pairs(c):
        a, b = c.free(values), c.free(values)
        sep = c.free([", ", "\n"])
        e = "\n" if sep == "\n" else ""
        return var_doc(obj([("k", a), ("l", b)], sep, e, e))

    def loops(c):
        """loops as property values next to other properties"""
        lp = loop("array", ["i"], ident("s"), c.free(small))
        v = c.free(small)
        k = c.free(3)
        ps = [[("k", lp), ("l", v)], [("k", v), ("l", lp)], [("j", v), ("k", lp), ("l", v)]][k]
        return var_doc(obj(ps, "\n", "\n", "\n"))

    def olayout(c):
        n = c.free(5)
        ps = [(["a", "'b.c'", "resource", "type"][i], [integer(1), ident("b"), obj([("k", NULL)]), array([string("")])][i]) for i in range(n)]
        style = c.free(["comma", "line", "mixed"])
        o, e = c.dev(OPEN), c.dev(CLOSE)
        col = c.dev([": ", ":", " : ", ":\t", ": /* c */ "])
        out = o
        exp = Ordered()
        for i, (k, v) in enumerate(ps):
            if i:
                out += c.dev(OCOMMA) if style == "comma" or style == "mixed" and i % 2 else c.dev(LINE)
            out += k + col + v.src
            exp[k] = v.exp
        return var_doc(V("{" + out + e + "}", exp))

    def olengths(c):
        n = c.free(LENGTHS_T if deep else LENGTHS)
        sep = c.free([", ", "\n"])
        k = c.free(["up", "down", "kinds", "quoted"])
        idx = range(n, 0, -1) if k == "down" else range(n)
        ps = [((f"'k{i}.x'" if k == "quoted" else f"k{i}"), kinds[i % len(kinds)] if k == "kinds" else integer(i)) for i in idx]
        e = "\n" if sep == "\n" else ""
        return var_doc(obj(ps, sep, e, e))

    def repeated(c):
        """the last of several equal keys counts"""
        k = c.free(["a", "'a'", "resource"])
        n = c.free([2, 3])
        vs = [c.free(small) for _ in range(n)]
        other = c.free(2)
        sep = c.free([", ", "\n"])
        e = "\n" if sep == "\n" else ""
        o = obj([(k, v) for v in vs] + ([("z", integer(1))] if other else []), sep, e, e)
        o.exp = dict(o.exp)
        return var_doc(o)

    def rows(c):
        """arrays of objects, each on its lines, of several sizes: the usual layout of Bicep files"""
        n = c.free([1, 2, 3, 5, 8])
        m = c.free([0, 1, 2, 3])
        style = c.free([0, 1, 3])
        items = []
        for i in range(n):
            e = "\n    " if m else ""
            items.append(obj([(f"k{j}", kinds[(i + j) % len(kinds)]) for j in range(m)], ", " if style == 1 else "\n    ", e, e))
        v = array(items, ", " if style == 3 else "\n  ", "\n  ", "\n")
        return var_doc(obj([("rows", v), ("after", integer(1))], "\n", "\n", "\n"))

    def related(c):
        """keys that are nearly equal, plain and in quotes"""
        a, b = c.free(NEAR_PAIRS)
        qa, qb = c.free(["", "'"]), c.free(["", "'"])
        third = c.free([None, a * 3, "'" + b + "'" if not qb else b])
        sep = c.free([", ", "\n"])
        e = "\n" if sep == "\n" else ""
        ps = [(qa + a + qa, integer(1)), (qb + b + qb, obj([(a, NULL), (b, string(""))], sep, e, e))]
        if third:
            ps.insert(c.free(3), (third, string("t")))
        return var_doc(obj(ps, sep, e, e))

    J = judge_case
    fams = [Family("nearly equal keys", related, J), *content_families((), ("array_only", "array_comma_first", "array_comma_last", "array_line_first", "array_line_mid", "object_only", "object_line_first", "object_line_last", "object_comma_mid")), *coincidence_families("object"), *long_name_families("expressions"), Family("item pairs", pairs, J), Family("item triples", triples, J), Family("array layout", layout, J, 3 if deep else 2),
            Family("array lengths", lengths, J), Family("nesting", nest, J), Family("small trees", trees, J), Family("small trees on lines", line_trees, J),
            Family("keys", keys, J), Family("values of keys", key_values, J), Family("value pairs", value_pairs, J), Family("loops", loops, J),
            Family("object layout", olayout, J, 3 if deep else 2), Family("object lengths", olengths, J), Family("repeated keys", repeated, J),
            Family("rows", rows, J)]
    if deep:
        fams.append(Family("trees of depth 3", trees3, J))
    return fams


def run(check):
    check.explore(families(check.tier), warm)
