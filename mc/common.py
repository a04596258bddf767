"""Judges and alphabets that several checks share."""
from __future__ import annotations

from .core import Rejected, Violation, diff, digest_result, parse
from .model import *  # noqa: F403
from .model import V


class Case:
    """A text with the exact result it has to have (None: it has to be rejected)."""

    def __init__(self, text, expected, lines=False):
        self.text, self.expected, self.lines = text, expected, lines

    def inputs(self):
        return self.text


def compare(text, expected, lines=False):
    r = parse(text, lines)
    if expected is None:
        if not isinstance(r, Rejected):
            raise Violation("accepted, has to be rejected", text, "rejected", r)
        return "reject"
    if isinstance(r, Rejected):
        raise Violation(f"a valid document is {r!r}", text, expected, repr(r))
    d = diff(expected, r)
    if d:
        raise Violation(d, text, expected, r)
    return digest_result(r)


def judge_case(case):
    return compare(case.text, case.expected, case.lines)


def judge_doc(doc):
    return compare(doc.text, doc.expected())


def judge_doc_lines(doc):
    return compare(doc.text, doc.expected(True), True)


def judge_doc_both(doc):
    compare(doc.text, doc.expected(True), True)
    return compare(doc.text, doc.expected())


def var_doc(v, name="x"):
    return Case(f"var {name} = {v.src}\n", {"globals": {"scope": {"value": "resourceGroup"}},
                                            "variables": {name: {"decorators": [], "value": v.exp}}})


# ---- strings ------------------------------------------------------------------------------

# fragments of string contents: every shortcut a tokenizer or clean-up step could take
FRAGMENTS = [
    "a", "", " ", "\\'", "\\\\", "\\n", "\\$", "\\${", "\\u{1F600}", "${x}", "${a.b[0]}", "${f('y')}", "${f({k: 'v'})}",
    "${'${z}'}", "$", "$$", "{", "}", "//", "/*", "*/", "#", "@", "\"", "`", "[", "${f('')}", "]", "(", ")", ",", ":", "=", "|", "\t",
    "é", "中", "\U0001f600", "\u2028", "\u0085", "\x0b", "\x0c", "\u00a0", "\ufeff", "%s", "{0}", "\\r", "null", "true",
    "#disable-next-line x", "#disable-diagnostics", "e\u0301", "\u212b", "\ufb01", "\u1e9e", "I", "  ", "// TODO", "/** a */", "@secure()", "using", "\\t", "%25", "&amp;", "\x7f", "\x1b[0m",
    "sys.", "__start_line__", "http://x", "C:\\\\dir\\\\", "1", "-", ";", "&", "<", "~", "?", "!", "^",
]

IDENTS = ["a", "foo_bar", "_x", "A1", "x__y", "aB9", "type", "param", "var", "existing", "as", "from", "in", "module", "output",
          "import", "metadata", "func", "with", "extension", "targetScope", "string", "int", "bool", "array", "object", "any",
          "max", "length", "concat", "resourceGroup", "getSecret", "listKeys", "list", "nullable", "trueish", "falsey", "sys_x",
          "azure", "system", "None", "self", "__class__", "operator", "function", "if_x", "fortune", "resources", "a_", "__a__", "x1_2",
          "loremIpsumDolorSitAmetConsectetuerAdipiscingElitSedDiamNonummyNibhEuismodTincidunt"]

INTS = ["0", "1", "7", "10", "42", "007", "00", "010", "0010", "0123", "08", "0777", "255", "65536", "2147483647", "2147483648", "4294967296", "9007199254740993",
        "9223372036854775807", "9223372036854775808", "123456789012345678901234567890"]


def basic_values():
    """One or two representatives of every kind of value; falsy ones included."""
    a, b = ident("a"), ident("b")
    one, zero = integer(1), integer(0)
    return [
        ident("foo"), string("txt"), string(""), integer(0), integer(42), NULL, TRUE, FALSE,
        string("a${b.c}d"), multi("line1\nline2"), multi(""),
        array([]), array([one, string("s"), a]), obj([]), obj([("k", one), ("l", string("v"))]),
        array([array([])]), obj([("k", obj([]))]), array([NULL]), array([obj([("z", zero)])]),
        call("foo", []), call("toLower", [a]), call("resourceGroup", []), call("utcNow", []), call("sys.concat", [a, zero]),
        binary(a, "+", b), binary(a, "==", string("")), binary(a, ".", b), binary(a, "::", b), binary(a, "??", NULL),
        binary(a, ".?", ident("p")), binary(binary_chain(), "&&", FALSE),
        index(a, zero), index(a, string("k")), index(a, integer(1), "?"), access_call(a, "listKeys", []),
        access_call(a, "getSecret", [string(""), string("v")]),
        cond(a, one, zero), neg(one), neg(a), lnot(a), lnot(FALSE), bang(a), paren(binary(a, "*", b)), paren(a),
        paren(paren(integer(0))),
        binary(paren(binary(a, "+", one)), "*", b), lam(["x"], ident("x")), lam(["x", "y"], binary(ident("x"), "+", ident("y"))),
        binary(call("resourceGroup", []), ".", ident("location")), index(binary_paren(), zero),
    ]


def binary_chain():
    return binary(ident("p"), "<", integer(3))


def binary_paren():
    return paren(binary(ident("p"), "||", ident("q")))


SMALL = [ident("foo"), string(""), integer(0), NULL, FALSE, string("t'"[:1]), array([]), obj([]), call("foo", []),
         binary(ident("a"), "+", ident("b")), cond(ident("a"), integer(1), integer(0)), neg(integer(1))]


# ---- positions of a value -----------------------------------------------------------------

def doc_scope():
    return {"globals": {"scope": {"value": "resourceGroup"}}}


def value_positions():
    """name -> function of a V returning a V (value inside a bigger value)."""
    z = ident("zz")
    n1 = integer(1)
    return {
        "paren": paren,
        "bang": bang,
        "array_only": lambda v: array([v]),
        "array_comma_first": lambda v: array([v, z]),
        "array_comma_last": lambda v: array([z, v]),
        "array_line_first": lambda v: array([v, z], "\n", "\n", "\n"),
        "array_line_mid": lambda v: array([z, v, n1], "\n  ", "\n  ", "\n"),
        "object_only": lambda v: obj([("k", v)]),
        "object_line_first": lambda v: obj([("k", v), ("l", z)], "\n", "\n", "\n"),
        "object_line_last": lambda v: obj([("k", z), ("'q.r'", v)], "\n", "\n", "\n"),
        "object_comma_mid": lambda v: obj([("k", z), ("l", v), ("m", n1)]),
        "unknown_arg": lambda v: call("fn", [v]),
        "unknown_arg_2": lambda v: call("fn", [z, v]),
        "unknown_arg_1of3": lambda v: call("fn", [v, z, n1]),
        "unknown_arg_lines": lambda v: call("fn", [z, v, n1], ",\n", "\n", "\n"),
        "known_arg": lambda v: call("toUpper", [v]),
        "known_arg_2": lambda v: call("az.resourceGroup", [z, v]),
        "optional_arg": lambda v: call("substring", [z, n1, v]),
        "variadic_arg": lambda v: call("format", [z, n1, v]),
        "index_of": lambda v: index(z, v),
        "indexed": lambda v: index(v, z),
        "call_owner": lambda v: access_call(v, "listKeys", []),
        "call_arg": lambda v: access_call(z, "getSecret", [v]),
        "call_arg_2": lambda v: access_call(z, "listKeys", [n1, v]),
        "left_add": lambda v: binary(v, "+", z),
        "left_eq": lambda v: binary(v, "==", z),
        "left_sub": lambda v: binary(v, "-", z),
        "left_coalesce": lambda v: binary(v, "??", z),
        "left_dot": lambda v: binary(v, ".", z),
        "right_add": lambda v: binary(z, "+", v),
        "right_sub": lambda v: binary(z, "-", v),
        "right_and": lambda v: binary(z, "&&", v),
        "right_coalesce": lambda v: binary(z, "??", v),
        "cond_test": lambda v: cond(v, z, n1),
        "cond_true": lambda v: cond(z, v, n1),
        "cond_false": lambda v: cond(z, n1, v),
        "minus": neg,
        "not": lnot,
        "lambda_body": lambda v: lam(["x"], v),
        "lambda_body_2": lambda v: lam(["x", "y"], v),
        "lambda_arg": lambda v: call("map", [z, lam(["x"], v)]),
    }


def host_positions():
    """name -> function of a V returning a document (text and exact result)."""
    t = t_name("string")

    def one(d):
        return Doc([d])

    def res(body):
        return Doc([d_resource("r", "A.B/c", "1", body)])

    return {
        "var": lambda v: one(d_var("x", v)),
        "typed_var": lambda v: one(d_var("x", v, t)),
        "param_default": lambda v: one(d_param("x", t, v)),
        "output": lambda v: one(d_output("x", t, v)),
        "func_body": lambda v: one(d_func("f", [("p", t)], t, v)),
        "type_value": lambda v: one(d_type("x", v)),
        "resource_property": lambda v: res(Body([("k", v), ("l", integer(1))])),
        "module_property": lambda v: one(d_module("m", "./x.bicep", obj([("k", v)], "\n", "\n", "\n"))),
        "decorator_unknown": lambda v: one(d_param("x", t).with_decorators([deco("custom", v)])),
        "decorator_metadata": lambda v: one(d_var("x", integer(1)).with_decorators([deco("metadata", v)])),
        "decorator_allowed": lambda v: one(d_param("x", t).with_decorators([deco("allowed", v), deco("secure")])),
        "decorator_description": lambda v: one(d_param("x", t).with_decorators([deco("sys.description", v)])),
        "deploy_condition": lambda v: res(Body([("k", integer(1))], wrap="if", condition=v)),
        "deploy_body": lambda v: Doc([Decl(f"resource r 'A.B/c@1' = {deploy_if(ident('c'), v).src}",
                                           [("resources", "r", {"decorators": [], "type": "A.B/c", "api_version": "1",
                                                                "existing": False, "config": deploy_if(ident("c"), v).exp}, None)])]),
        "loop_source": lambda v: one(d_var("x", loop("array", ["i"], v, ident("i")))),
        "loop_body": lambda v: one(d_var("x", loop("array", ["i"], ident("s"), v))),
        "loop_index_source": lambda v: one(d_output("x", t, loop("array_index", ["i", "n"], v, ident("i")))),
        "loop_index_body": lambda v: one(d_output("x", t, loop("array_index", ["i", "n"], ident("s"), v))),
        "loop_filter": lambda v: res(Body([("k", integer(1))], wrap="loop_if", condition=v)),
        "loop_filter_var": lambda v: one(d_var("x", loop("array", ["i"], ident("s"), obj([("k", ident("i"))]), v))),
        "loop_property": lambda v: res(Body([("k", loop("array", ["i"], ident("s"), v)), ("l", integer(2))])),
        "extension_config": lambda v: one(d_extension("e", obj([("k", v)]))),
    }


# ---- names that are related, parts that are equal --------------------------------------------

BASES = ["a", "aB", "foo", "a_b", "type"]


def near(base):
    """Names that a careless comparison takes for `base`."""
    out = [base.upper(), base.lower(), base.capitalize(), base.swapcase(), base + "_", "_" + base, base + "1", base + "2", base * 2, base + "__" + base,
           base[0], base[:-1], base[1:], base[::-1], base + "s", base.replace("_", ""), base.replace("_", "__"), "x" + base, base + "x"]
    return [n for i, n in enumerate(out) if n and not n[0].isdigit() and n != base and n not in out[:i] and n not in ("for", "if", "items", "true", "false", "null")]


NEAR_PAIRS = [(b, n) for b in BASES for n in near(b)]
NEAR_PAIRS += [(n, b) for b, n in NEAR_PAIRS]


def coincidences():
    """name -> generator of documents: every construct with all assignments of a few names to all of its parts, so that any
    parts coincide exactly, coincide but for the case, or are the identifier and the string of the same text."""
    names = ["a", "A", "int"]
    few = ["a", "A"]

    def n(c):
        return c.free(names)

    def val(c):
        k = c.free(3)
        return [ident("a"), string("a"), ident("A")][k]

    def func(c):
        name, p, t, q, u, r = (n(c) for _ in range(6))
        if p == q:
            from .core import Skip
            raise Skip
        return Doc([d_func(name, [(p, t_name(t)), (q, t_name(u))], t_name(r), val(c))])

    def func_types(c):
        name, p = c.free(few), c.free(few)

        def ty():
            k = c.free(4)
            return [t_name("a"), t_array(t_name("a")), t_union([t_name("a"), t_name("A")]), t_union([t_name("a"), t_name("a")])][k]
        return Doc([d_func(name, [(p, ty())], ty(), val(c)), d_var(c.free(few), val(c))])

    def typed(c):
        k = c.free(["param", "output", "var"])
        name, t = n(c), n(c)
        ty = c.free([t_name(t), t_array(t_name(t)), t_union([t_name(t), t_name(name)]), t_array(t_union([t_name(name), t_array(t_name(t))]))])
        v = val(c)
        other = c.free(3)
        d = {"param": lambda: d_param(name, ty, v), "output": lambda: d_output(name, ty, v), "var": lambda: d_var(name, v, ty)}[k]()
        return Doc([d, *[[], [d_type(t, v)], [d_type("a", ident("A"))]][other]])

    def resource(c):
        name, typ, ver, key, key2 = (c.free(names) for _ in range(5))
        if key == key2:
            from .core import Skip
            raise Skip
        return Doc([d_resource(name, typ, ver, Body([(key, val(c)), (key2, val(c))], wrap=c.free(["object", "loop", "if"])), bool(c.free(2)))])

    def child(c):
        name, typ, ver, ch, ct, key = (c.free(few) for _ in range(6))
        at = c.free(2)
        deep = c.free([None, "a", "A"])
        inner = Body([(key, val(c))], Child(deep, ct, Body([("a", ident(ch))])) if deep else None, 0)
        return Doc([d_resource(name, typ, ver, Body([(c.free(few), val(c))], Child(ch, ct, inner), at))])

    def loops(c):
        k = c.free(["array", "array_index"])
        i, j, src, key, name = (c.free(few) for _ in range(5))
        f = c.free([None, ident("a"), ident("A")])
        b = obj([(key, val(c)), ("z", ident(i))])
        if c.free(2):
            return Doc([d_module(name, "a", loop(k, [i, j], ident(src), b, f))])
        return Doc([d_var(name, loop(k, [i, j], ident(src), b, f))])

    def imports(c):
        s1, a1, s2, a2, path = c.free(few), c.free([None, *few]), c.free([*few, "b"]), c.free([None, *few, "b"]), c.free(few)
        if s1 == s2:
            from .core import Skip
            raise Skip
        two = c.free(2)
        groups = [([(s1, a1), (s2, a2)], path)] if not two else [([(s1, a1)], path), ([(s2, a2)], c.free(few))]
        return Doc([d_import(p, s) for s, p in groups])

    def extensions(c):
        name, alias, key = c.free(names), c.free([None, *names]), c.free(few)
        cfg = c.free([None, obj([]), obj([(key, ident("a"))]), obj([(key, string("a"))])])
        return Doc([d_extension(name, cfg, alias), d_metadata(c.free(few), c.free(few))])

    def decorators(c):
        name, d1, d2 = c.free(few), c.free(["a", "A", "secure", "Secure"]), c.free(["a", "A", "secure", "Secure"])
        a1, a2 = c.free([None, *range(3)]), c.free([None, *range(3)])
        vs = [ident("a"), string("a"), ident("A")]
        ds = [deco(d, vs[x] if x is not None and d != "secure" else None) for d, x in ((d1, a1), (d2, a2))]
        return Doc([d_var(name, val(c)).with_decorators(ds), d_var("z", val(c)).with_decorators(ds[c.free(2):])])

    def calls(c):
        f, g = c.free([*few, "concat", "Concat"]), c.free(["a", "concat"])
        return Doc([d_var(c.free(few), call(f, [val(c), call(g, [val(c), val(c)]), val(c)])), d_var("concat", val(c))])

    def operators(c):
        x, y, z = val(c), val(c), val(c)
        s, t = c.free(["+", "-", "==", "=~", ".", "??", "||", "&&"]), c.free(["+", "==", "&&"])
        k = c.free(4)
        return Doc([d_var("a", [lambda: binary(paren(binary(x, s, y)), t, z), lambda: cond(paren(binary(x, s, y)), z, paren(binary(x, s, y))),
                                lambda: index(binary(paren(x), s, y), z), lambda: array([binary(x, s, y), binary(x, s, y), z])][k]())])

    def objects(c):
        k1, k2, k3 = (c.free(["a", "A", "'a'", "'A'"]) for _ in range(3))
        if len({k1, k2, k3}) < 3:
            from .core import Skip
            raise Skip
        sep = c.free([", ", "\n"])
        e = "\n" if sep == "\n" else ""
        return Doc([d_var("a", obj([(k1, val(c)), (k2, val(c)), (k3, obj([(k1, val(c))]))], sep, e, e))])

    def lambdas(c):
        i, j = c.free(few), c.free(["a", "A", "b"])
        k = c.free(2)
        body = c.free([ident("a"), string("a"), ident("A"), binary(ident(i), "+", ident(j)), lam([i], ident(j)), obj([(i, ident(j))])])
        return Doc([d_var(c.free(few), call(c.free(["map", "a"]), [val(c), lam([i, j] if k else [i], body)]))])

    return {"func": func, "func types": func_types, "typed": typed, "resource": resource, "child": child, "loop": loops, "import": imports,
            "extension": extensions, "decorator": decorators, "call": calls, "operator": operators, "object": objects, "lambda": lambdas}


SIZES = [1, 2, 8, 15, 16, 17, 19, 20, 21, 24, 25, 26, 29, 30, 31, 32, 33, 39, 40, 41, 49, 50, 51, 59, 60, 61, 63, 64, 65, 79, 80, 81, 89, 90, 91, 99, 100, 101, 119, 120, 121, 127, 128, 129, 149, 150, 151, 199, 200,
         201, 249, 250, 251, 254, 255, 256, 257, 259, 260, 261, 299, 300, 301, 399, 400, 401, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]


def long_names():
    """name -> generator of documents: two names or texts of the same length that differ only in the last character, in all
    places of a construct where a name or text can stand."""
    def pair(c):
        n = c.free(SIZES)
        stem = c.free(["a", "ab_", "x1"]) * n
        return stem[:n - 1] + "y", stem[:n - 1] + "z"

    s, i1 = t_name("string"), integer(1)

    def declarations(c):
        a, b = pair(c)
        cat = catalogue()
        k = c.free(list(cat))
        return Doc([cat[k][0](a), cat[k][-1](b), d_var("end", ident(a))])

    def types(c):
        a, b = pair(c)
        return Doc([d_func(a, [(a, t_name(b)), (b, t_array(t_name(a)))], t_union([t_name(a), t_name(b)]), ident(b)), d_param("p", t_name(a), ident(b)),
                    d_type(a, V(f"'{a}' | '{b}'", f"{a} | {b}")), d_output("o", t_array(t_name(b)), string(a)), d_var("v", ident(a), t_name(b))])

    def resources(c):
        a, b = pair(c)
        inner = Body([(a, string(b))], Child(b, b, Body([(b, ident(a))])), c.free(2))
        return Doc([d_resource(a, "A/" + a, a, Body([(a, i1), (b, string(a))], Child(b, a, inner), c.free(3))), d_resource(b, "A/" + b, b, Body([]))])

    def expressions(c):
        a, b = pair(c)
        return Doc([d_var("v", array([ident(a), string(b), call(a, [ident(b)]), binary(ident(a), ".", ident(b)), access_call(ident(a), "list" + b.replace("_", "").replace("1", ""), [ident(b)]), index(ident(a), string(b)),
                                      obj([(a, ident(b)), (b, string(a)), (f"'{a}'", i1)]), lam([a, b], ident(a)), cond(ident(a), ident(b), string(a))], "\n", "\n", "\n")),
                    d_var("l", loop("array_index", [a, b], ident(a), obj([(b, ident(b))]), ident(b)))])

    def imports(c):
        a, b = pair(c)
        return Doc([d_import(a, [(a, b), (b, a)]), d_namespace(a), d_namespace(b), d_extension(a, obj([(a, string(b))]), b), d_metadata(a, b), d_metadata(b, a)])

    def decorators(c):
        a, b = pair(c)
        a, b = a.replace("_", ""), b.replace("_", "")
        return Doc([d_param("p", s).with_decorators([deco(a, string(b)), deco(b), deco("sys." + a, ident(b)), deco("description", string(a)), deco("description", string(b))])])

    return {"declarations": declarations, "types": types, "resources": resources, "expressions": expressions, "imports": imports, "decorators": decorators}


def long_name_families(*wanted, judge=None):
    from .core import Family
    all_ = long_names()
    return [Family(f"long names: {w}", all_[w], judge or judge_doc) for w in wanted]


def coincidence_families(*wanted, judge=None):
    from .core import Family
    all_ = coincidences()
    return [Family(f"coinciding parts: {w}", all_[w], judge or judge_doc) for w in wanted]


def contents():
    """Literals, names and objects that look like something else, for code that treats some content in its own way."""
    texts = ["true", "false", "null", "None", "True", "undefined", "1", "0", "-1", "007", "1.5", "a", "foo", "x", "zz", "k", "i", "s", "r", "e", "p", "A", " ", "  ", " a ", "a ", "[]", "{}", "[1]", "${a}", "${'a'}", "${1}", "a.b", "a[0]", "a()", "a::b",
             "a => b", "a ? b : c", "!a", "a + b", "string", "int", "array", "object", "bool", "any", "type", "name", "id", "for", "if", "resource", "existing", "items", "sys", "az", "resourceGroup", "subscription", "tenant", "global",
             "@secure()", "//", "/* */", "#", "\\n", "\\'", "\\\\", "\\u{61}", "\\${a}", "\u00e9", "\u0130", "https://a.b/c", "./a.bicep", "br:a.azurecr.io/b:c", "A.B/c@1", "2020-01-01", "2020-01-01T00:00:00Z", "00000000-0000-0000-0000-000000000000",
             "YQ==", "a|b", "a | b", "a@b", "a,b", "a;b", "a=b", "%s", "{0}", "{a}", "$(a)", "<a>", "&amp;", "a\nb", "\n", "a\tb"]
    words = ["True", "False", "None", "none", "nil", "undefined", "NaN", "string", "int", "array", "object", "any", "name", "id", "type", "config", "condition", "value", "operator", "function", "parameters", "self", "this", "_", "__name__", "A", "TRUE", "Null",
             "metadata", "param", "var", "output", "module", "func", "targetScope", "list", "listKeys", "getSecret", "resourceGroup", "e1", "x0", "l", "O"]
    one, zero, a = integer(1), integer(0), ident("a")
    e = obj([])
    shapes = [[("condition", a), ("config", e)], [("loop_type", a), ("condition", NULL), ("config", e)], [("operator", a)], [("operator", obj([("type", string("minus")), ("operands", obj([("integer_value", one)]))]))], [("function", a)],
              [("function", obj([("type", string("f")), ("parameters", e)]))], [("type", string("lambda_expression")), ("detail", e)], [("type", string("union")), ("members", array([]))], [("type", string("array")), ("item_type", string("int"))],
              [("type", a), ("detail", a)], [("__name__", a), ("__attrs__", e)], [("argument", a)], [("type", string("secure"))], [("value", a)], [("default", NULL)], [("decorators", array([]))], [("depends_on", array([]))], [("dependsOn", array([a]))],
              [("existing", TRUE)], [("name", a), ("alias", a)], [("type", a), ("api_version", a)], [("__start_line__", one), ("__end_line__", one)], [("__child_resource__", e)], [("operand_1", one), ("operand_2", zero)], [("true_value", one)]]
    return [*map(string, texts), *[multi(t) for t in ("true", "1", "null", "${a}", " a ", "\\n", "a\n", " \n")], *map(integer, [1, 2, 3, 7, 8, 10, 16, 100, 255, 256, 65535, 2**31 - 1, 2**31, 2**53 + 1, 2**63, 2**64]), *map(ident, words), *map(obj, shapes),
            array([TRUE, FALSE]), array([one, one]), array([one, string("1")]), array([TRUE, one]), array([FALSE, zero, NULL]), array([e, e]), array([array([]), array([])]), array([string(""), string("")]), obj([("a", e), ("b", e)]), obj([("true", TRUE), ("'true'", one)])]


def content_families(hosts=(), positions=()):
    """`contents` in the named hosts and value positions."""
    from .core import Family
    vs = contents()
    h, p = host_positions(), value_positions()

    def in_hosts(c):
        return h[c.free(list(hosts))](c.free(vs))

    def in_values(c):
        return h["var"](p[c.free(list(positions))](c.free(vs)))

    out = [Family("particular contents in places", in_hosts, judge_doc)] if hosts else []
    return out + ([Family("particular contents in values", in_values, judge_doc)] if positions else [])


# ---- declarations -------------------------------------------------------------------------

def catalogue():
    """kind -> list of functions name -> Decl; several differing declarations per kind."""
    s, i = t_name("string"), t_name("int")
    n1 = integer(1)
    a = ident("a")
    body = Body([("name", string("n")), ("location", ident("loc"))])
    mref = {"type": "bicep_registry", "detail": {"full": "mcr.microsoft.com/bicep/a/b:1.0", "registry_name": "mcr.microsoft.com",
                                                 "path": "bicep/a/b", "tag": "1.0", "public": True}}
    aref = {"type": "bicep_registry_alias", "detail": {"full": "public:a/b:2.1", "alias": "public", "path": "a/b",
                                                       "tag": "2.1", "public": True}}
    cfg = obj([("name", string("m")), ("params", obj([("p", n1)], "\n", "\n", "\n"))], "\n", "\n", "\n")
    return {
        "metadata": [lambda n: d_metadata(n, "text"), lambda n: d_metadata(n, ""), lambda n: d_metadata(n, "it\\'s ${a}")],
        "param": [lambda n: d_param(n, s), lambda n: d_param(n, i, integer(0)), lambda n: d_param(n, s, string("")),
                  lambda n: d_param(n, t_array(s), array([string("x")]), "?"),
                  lambda n: d_param(n, t_name("bool"), FALSE).with_decorators([deco("description", string("d")), deco("secure")]),
                  lambda n: d_param(n, t_name("object"), obj([("k", obj([("l", NULL)]))], "\n", "\n", "\n")),
                  lambda n: d_param(n, t_union([s, t_array(i)]))],
        "var": [lambda n: d_var(n, n1), lambda n: d_var(n, NULL), lambda n: d_var(n, binary(a, "+", call("length", [a]))),
                lambda n: d_var(n, array([n1, a], "\n", "\n", "\n"), t_array(i)),
                lambda n: d_var(n, loop("array", ["it"], a, obj([("k", ident("it"))]))),
                lambda n: d_var(n, multi("x\n// no comment\n", "\n")).with_decorators([deco("export")]),
                lambda n: d_var(n, cond(a, string("y"), string("")))],
        "output": [lambda n: d_output(n, s, a), lambda n: d_output(n, i, integer(0)),
                   lambda n: d_output(n, t_array(s), loop("array_index", ["it", "ix"], a, ident("it"))),
                   lambda n: d_output(n, s, binary(ident("r"), ".", ident("id"))).with_decorators([deco("custom", n1)])],
        "resource": [lambda n: d_resource(n, "A.B/c", "2020-01-01", body),
                     lambda n: d_resource(n, "A.B/c/d", "1", Body([("name", string("x"))]), True),
                     lambda n: d_resource(n, "A.B/c", "2", Body([("k", n1)], wrap="if", condition=binary(a, "==", n1))),
                     lambda n: d_resource(n, "A.B/c", "3", Body([("k", n1)], wrap="loop")).with_decorators([deco("batchSize", n1)]),
                     lambda n: d_resource(n, "A.B/c", "4", Body([], wrap="loop_if")),
                     lambda n: d_resource(n, "A.B/c", "5", Body([])),
                     lambda n: d_resource(n, "A.B/c", "6", Body([("k", n1)], Child("ch", "e", Body([("l", n1)])), 0))],
        "module": [lambda n: d_module(n, "./a/b.bicep", cfg), lambda n: d_module(n, "br:mcr.microsoft.com/bicep/a/b:1.0", cfg, mref),
                   lambda n: d_module(n, "br/public:a/b:2.1", obj([]), aref).with_decorators([deco("description", string(""))])],
        "type": [lambda n: d_type(n, ident("string")), lambda n: d_type(n, obj([("k", ident("int")), ("l", ident("bool"))], "\n", "\n", "\n")),
                 lambda n: d_type(n, V("'a' | 'b'", "a | b")).with_decorators([deco("sealed"), deco("export")]),
                 lambda n: d_type(n, integer(0))],
        "func": [lambda n: d_func(n, [], s, string("")), lambda n: d_func(n, [("p", s)], s, ident("p")),
                 lambda n: d_func(n, [("p", s), ("q", t_array(i))], t_name("bool"), binary(ident("p"), "==", ident("q")))
                 .with_decorators([deco("export")])],
        "import": [lambda n: d_import("f.bicep", [(n, None)]), lambda n: d_import("g.bicep", [(n, "al")], False),
                   lambda n: d_import("h.bicep", [(n, None), (n + "_2", "b2")])],
        "namespace": [lambda n: d_namespace(n + "@1.0")],
        "extension": [lambda n: d_extension(n), lambda n: d_extension(n, obj([])), lambda n: d_extension(n, obj([("k", n1)]), "al"),
                      lambda n: d_extension(n, None, "al")],
    }


DECORATABLE = ("param", "var", "output", "resource", "module", "type", "func")
SECTION = {"metadata": "metadata", "param": "parameters", "var": "variables", "output": "outputs", "resource": "resources",
           "module": "modules", "type": "types", "func": "functions", "import": "imports", "namespace": "imports",
           "extension": "extensions"}
