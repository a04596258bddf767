"""C25: the tree rendering shows everything that is written, and nothing else decides it."""
import importlib
import re

from ..common import *
from ..core import Family, Rejected, Violation, digest, parse, parser, warm
from ..gaps import join, kind, split
from ..refstring import scan
from .c11 import OF, bases
from .c17 import BORROW

# words that may be shown by the kind of a node only
KEYWORDS = set("param var output resource module metadata import targetScope type func extension existing for in if as from with null true false range items".split())
TREES = {}


def tree(text, lines=False):
    """The rendering; None if there is none."""
    try:
        r = parser(lines).create_tree(text=text)
    except Exception:
        return None
    if type(r) is not str:
        raise Violation("the rendering is no text", text, "str", r)
    return r


def shown(text):
    t = tree(text)
    if t is None:
        raise Violation("no tree rendering of a valid document", text, "a tree", None)
    return t


def leaf(token):
    """Pattern of the lines that show a token."""
    if token[0] == "@":
        token = token[1:-1]
    if token[0] != "'" and token.endswith("("):
        token = token[:-1]
        bare = token.split(".")[-1]
        return rf"[\t ](?:{re.escape(token)}|{re.escape(bare)})\(?$"
    return rf"[\t ]{re.escape(token)}$"


def plain(text):
    """Without comments."""
    out, i = [], 0
    while i < len(text):
        if text.startswith("'''", i):
            j = text.index("'''", i + 3) + 3
        elif text[i] == "'":
            j = scan(text, i + 1) + 1
        elif text.startswith("//", i) or text[i] == "#":
            i = (text + "\n").index("\n", i)
            continue
        elif text.startswith("/*", i):
            i = text.index("*/", i + 2) + 2
            out.append(" ")
            continue
        else:
            j = i + 1
        out.append(text[i:j])
        i = j
    return "".join(out)


def leaves(text):
    return [t for t in split(plain(text))[0] if t[0] in "'@_" or t[0].isalnum()]


def judge_leaves(case):
    text = case.text if hasattr(case, "text") else case.inputs()
    t = tree(text)
    if t is None:
        if not isinstance(parse(text), Rejected):
            raise Violation("no tree rendering of a valid document", text, "a tree", None)
        return "reject"
    if tree(text, True) != t:
        raise Violation("the rendering depends on the line number setting", text, t, tree(text, True))
    pos = 0
    tokens = leaves(text)
    for k in tokens:
        if k.rstrip("(") in KEYWORDS:
            continue
        m = re.compile(leaf(k), re.M).search(t, pos)
        if m:
            pos = m.end()
        else:
            raise Violation(f"{k!r} is missing in the rendering, or not in its place", text, k, t)
    if "'''" not in text and not any("\n" in k for k in tokens):
        for k in set(tokens):
            if k[0] == "'" or k.isdigit() or re.fullmatch(r"[a-z]+\d+", k):
                n = len(re.findall(leaf(k + "(") if k[0].isalpha() else leaf(k), t, re.M))
                written = tokens.count(k) + tokens.count(k + "(")
                if n != written:
                    raise Violation(f"{k!r} is shown {n} times, but written {written} times", text, written, t)
        inner = t.rstrip("\n").split("\n")
        depths = [len(x) - len(x.lstrip(" ")) for x in inner]
        for x, a, b in zip(inner[1:], depths, depths[1:]):
            if b > a + 2 or b % 2 or b == 0:
                raise Violation(f"the line {x!r} is not indented by its depth", text, None, t)
    return digest(t)


def parts(text):
    head, _, rest = shown(text).partition("\n")
    return head, rest


def judge_composition(doc):
    """The rendering of a document is composed of the renderings of its declarations."""
    judge_leaves(doc)
    want = "".join(parts(Doc([d]).text)[1] for d in doc.decls)
    head, rest = parts(doc.text)
    if rest != want:
        raise Violation("the rendering is not composed of those of the declarations", doc.text, want, rest)
    return digest(rest)


class Variant:
    def __init__(self, text, plain):
        self.text, self.plain = text, plain

    def inputs(self):
        return self.text


def judge_variant(case):
    a, b = shown(case.text), shown(case.plain)
    if a != b:
        raise Violation("spacing or comments change the rendering", case.text, b, a)
    return digest(a)


class Placed:
    def __init__(self, host, v):
        self.v, self.text, self.plain = v, host(v).text, host(ident(MARK)).text

    def inputs(self):
        return self.text


MARK = "zqx7"


def judge_placed(case):
    """A value is rendered the same everywhere, but for the indentation."""
    alone, empty = shown(f"var x = {case.v.src}\n"), shown(f"var x = {MARK}\n")
    i = empty.rindex("\n", 0, empty.rindex(MARK)) + 1
    line = empty[i:].rstrip("\n")
    depth = len(line) - len(line.lstrip(" "))
    if not alone.startswith(empty[:i]):
        raise Violation("the rendering of a value changes what stands before it", case.text, empty[:i], alone)
    sub = alone[i:].rstrip("\n").split("\n")
    out = []
    for x in shown(case.plain).split("\n"):
        if x.endswith(f"\t{MARK}") and x.strip() == line.strip():
            d = len(x) - len(x.lstrip(" "))
            out.extend(" " * (d - depth) + y if d >= depth else y[depth - d:] for y in sub)
        else:
            out.append(x)
    want, got = "\n".join(out), shown(case.text)
    if want != got:
        raise Violation("the value is rendered in another way in this place", case.text, want, got)
    return digest(got)


class Two:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def inputs(self):
        return [self.a, self.b]


def judge_two(case):
    for x in (case.a, case.b):
        if x not in TREES:
            TREES[x] = (digest(shown(x)), digest(parse(x)))
    (ta, ra), (tb, rb) = TREES[case.a], TREES[case.b]
    if ta == tb and ra != rb:
        raise Violation("two documents with different results have one rendering", case.inputs(), "two renderings", shown(case.a))
    return digest([ta, tb])


def same_leaves():
    """Groups of documents that differ in little."""
    a, b, c = ident("a"), ident("b"), ident("c")
    one = integer(1)
    values = [a, string("a"), multi("a"), neg(a), lnot(a), bang(a), array([a]), array([array([a])]), obj([("a", a)]), obj([("'a'", a)]), call("a", []), call("a", [a]), call("toUpper", [a]), call("toLower", [a]), lam(["a"], a), array([]), obj([]),
              NULL, TRUE, FALSE, ident("true1"), string("null"), string("true"), one, string("1"), neg(one), lnot(one), index(a, a), index(a, string("a")), access_call(a, "listKeys", []), access_call(a, "getSecret", []), access_call(a, "listKeys", [a]),
              cond(a, a, a), lam(["a", "a"], a), array([a, a]), array([neg(a), a]), array([neg(array([a, a]))])]
    for s in BINARY:
        values += [binary(a, s, b), binary(b, s, a), binary(paren(binary(a, s, b)), s, c), binary(a, s, binary(b, s, c)), binary(paren(binary(a, s, b)), "+", c), binary(a, s, paren(binary(b, "+", c))), binary(paren(lnot(a)), s, b), lnot(binary(a, s, b)), neg(binary(a, s, b)), binary(paren(neg(a)), s, b)]
    for x, y in (("a", "b"), ("b", "a")):
        x, y = ident(x), ident(y)
        values += [array([x, y]), call("f", [x, y]), call("contains", [x, y]), call("startsWith", [x, y]), call("endsWith", [x, y]), call("indexOf", [x, y]), index(x, y), cond(c, x, y), cond(x, y, c), cond(x, c, y), obj([("k", x), ("l", y)]), obj([("k", obj([("l", x)])), ("m", y)]), obj([("k", obj([("l", x), ("m", y)]))]),
                   array([array([x]), y]), array([x, array([y])]), array([array([x, y])]), access_call(x, "listKeys", [y]), lam(["a"], y), loop("array", ["a"], x, y), loop("array_index", ["a", "b"], x, y), loop("array", ["b"], x, y), loop("array", ["a"], x, y, c), loop("array", ["a"], x, c, y)]
    n, m = t_name("a"), t_name("b")
    types = [n, m, t_array(n), t_array(t_array(n)), t_union([n, m]), t_union([m, n]), t_array(t_union([n, m])), t_union([t_array(n), m]), t_union([n, t_array(m)]), t_union([n, t_array(t_array(m))]), t_union([n, n])]
    decls = [d_var("x", v) for v in values]
    decls += [f for t in types for f in (d_param("x", t), d_param("x", t, a), d_param("x", t, b), d_output("x", t, a), d_var("x", a, t), d_func("x", [], t, a), d_func("x", [("a", t)], n, a), d_func("x", [("a", t), ("b", n)], n, a), *([d_type("x", V(t.src, t.src))] if t.src.isalnum() else []))]
    for d in (deco("secure"), deco("sealed"), deco("export"), deco("a"), deco("a", a), deco("description", a), deco("metadata", a), deco("minValue", one), deco("maxValue", one), deco("minLength", one), deco("maxLength", one), deco("allowed", a)):
        decls += [d_param("x", n).with_decorators([d]), d_param("x", n).with_decorators([d, deco("secure")]), d_param("x", n).with_decorators([deco("secure"), d]), d_var("x", a).with_decorators([d])]
    for e in (False, True):
        for w in ("object", "if", "loop", "loop_if"):
            for ch in (None, Child("k", "l", Body([]), False), Child("k", "l", Body([]), True), Child("k", "l", Body([("a", a)])), Child("k", "l", Body([], wrap="if")), Child("k", "l", Body([], wrap="loop"))):
                decls += [d_resource("x", "A/b", "1", Body([("a", a)], ch, 0 if ch else None, w), e)]
    decls += [d_module("x", p, obj([("a", a)])) for p in ("a", "./a")] + [d_module("x", "a", deploy_if(a, obj([]))), d_module("x", "a", deploy_if(b, obj([]))), d_module("x", "a", obj([]))]
    decls += [d_import("a", s) for s in ([("a", None)], [("a", "a")], [("a", "b")], [("b", "a")], [("a", None), ("b", None)], [("b", None), ("a", None)], [("a", "b"), ("b", None)], [("a", None), ("b", "a")])]
    decls += [d_import("b", [("a", None)]), d_namespace("a"), d_extension("a"), d_extension("a", None, "a"), d_extension("a", obj([])), d_extension("a", obj([]), "a"), d_extension("a", obj([("a", a)])), d_extension("a", obj([("a", a)]), "b"),
              d_metadata("x", "a"), d_metadata("a", "x"), d_scope("tenant"), d_scope("subscription")]
    docs = [Doc([d]).text for d in decls]
    docs += [Doc([d_var("x", a), d_var("y", b)]).text, Doc([d_var("y", b), d_var("x", a)]).text, Doc([d_var("x", a), d_param("y", n)]).text, Doc([d_var("x", a), d_param("y", n).with_decorators([deco("secure")])]).text,
             Doc([d_var("x", a).with_decorators([deco("secure")]), d_param("y", n)]).text, ""]
    return docs


def families(tier):
    deep = tier == "thorough"
    out = []
    for check, names in BORROW.items():
        mod = importlib.import_module(f"mc.checks.{check}")
        for f in mod.families("quick"):
            if deep or f.name in names:
                out.append(Family(f"{check}: {f.name}", f.fn, judge_leaves, f.bound))

    small, big = bases()
    docs = small + big
    split_ = [split(d.text) for d in docs]
    kinds = [[kind(t, g, i) for i in range(len(g))] for t, g in split_]

    def trivia(c):
        k = c.free(len(docs))
        t, g = split_[k]
        i = c.free(len(g))
        g = list(g)
        g[i] = c.free(OF[kinds[k][i]])
        return Variant(join(t, g), docs[k].text)

    def everywhere(c):
        k = c.free(len(docs))
        t, g = split_[k]
        a, b = c.free(OF["blank"]), c.free(OF["line"])
        return Variant(join(t, [y if kinds[k][i] in ("head", "tail") else b if kinds[k][i] == "line" else a for i, y in enumerate(g)]), docs[k].text)

    cat = catalogue()
    cks = list(cat)

    def pairs(c):
        a, b = c.free(cks), c.free(cks)
        return Doc([c.free(cat[a])("x1"), c.free(cat[b])("y1")], c.free(["\n", "\n\n"]))

    def ladder(c):
        n = c.free([3, 4, 5, 7, 8, 9, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 200, 256, 257, *([500, 512, 513, 1000] if deep else [])])
        k = c.free([None, *cks])
        return Doc([cat[k or cks[i % len(cks)]][i % len(cat[k or cks[i % len(cks)]])](f"n{i}") for i in range(n)])

    hosts, positions, values = host_positions(), value_positions(), basic_values()
    lined = [v for v in values if "\n" not in v.src]

    def placed(c):
        return Placed(hosts[c.free([h for h in hosts if h != "type_value"])], c.free(lined))

    def placed_in(c):
        h, p, v = c.free([h for h in hosts if h != "type_value"] if deep else ["var", "resource_property", "decorator_unknown"]), c.free(list(positions)), c.free(lined)
        return Placed(lambda x: hosts[h](positions[p](x)), v)

    def equal(c):
        """equal declarations and equal parts in a row"""
        k = c.free(cks)
        f = c.free(cat[k])
        n = c.free([2, 3, 4, 10])
        other = c.free(3)
        ds = [f("x1") for _ in range(n)]
        if other:
            ds.insert(other - 1, cat[c.free(cks)][0]("x1"))
        return Doc(ds)

    def deep_values(c):
        """far in"""
        d = c.free([*range(1, 26), 30, 31, 32, 33, 40])
        nest = c.free([lambda v: array([v]), lambda v: obj([("k", v)]), lambda v: call("f", [v]), lambda v: array([v], "\n", "\n", "\n"), lambda v: lnot(v), lambda v: binary(ident("a"), "+", v), lambda v: cond(ident("a"), ident("b"), v), lambda v: index(ident("a"), v)])
        v = c.free([ident("foo"), string("s"), array([integer(1), array([])]), obj([("k", integer(1))]), call("g", [integer(2)])])

        def host(x):
            for _ in range(d):
                x = nest(x)
            return Doc([d_var("x", x)])
        return Placed(host, v)

    for w, f in long_names().items():
        out.append(Family(f"long names: {w}", f, judge_leaves))
    for w, f in coincidences().items():
        out.append(Family(f"coinciding parts: {w}", f, judge_leaves))
    for f in content_families(list(hosts), list(positions)):
        out.append(Family(f.name, f.fn, judge_leaves))
    group = same_leaves() + [Doc([d_var("x", v)]).text for v in contents()]

    def two(c):
        i = c.free(len(group))
        return Two(group[i], group[c.free(range(i, len(group)))])

    return [*out, Family("trivia", trivia, judge_variant), Family("trivia everywhere", everywhere, judge_variant), Family("pairs", pairs, judge_composition), Family("many declarations", ladder, judge_composition), Family("equal declarations", equal, judge_composition), Family("far in", deep_values, judge_placed),
            Family("values in places", placed, judge_placed), Family("values in values in places", placed_in, judge_placed), Family("two documents", two, judge_two)]


def run(check):
    check.explore(families(check.tier), warm)
