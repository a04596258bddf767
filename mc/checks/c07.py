"""C07: nested child resources."""
from ..common import *
from ..core import Family, Skip, warm

WRAPS = ["object", "if", "loop", "loop_index", "loop_if"]
CNAMES = ["ch", "n", "x", "child", "resource1", "type", "r", "_c", "a__b", "existing1", "config", "properties", "name", "depends_on", "__name__", "Ch"]
CTYPES = ["e", "networkRules", "a/b", "sub", "x.y", "default", "E1", "blobServices", "a-b", "e@2020"[:1]]
PAIRS = [[], [("name", string("n"))], [("name", string("n")), ("k", integer(0))],
         [("properties", obj([("a", integer(1))], "\n", "\n", "\n")), ("name", string("n")), ("tags", obj([]))]]


def families(tier):
    deep = tier == "thorough"

    def chain(spec, names=None, types=None):
        """spec: list of (wrap, existing, number of pairs, position); innermost last; returns the body of the outermost"""
        body = None
        for i in range(len(spec) - 1, -1, -1):
            wrap, ex, np, at = spec[i]
            ps = [(k, V(v.src, v.exp)) for k, v in PAIRS[np]]
            if np == 1:
                ps = [("name", string(f"n{i}"))]
            body_i = Body(ps, Child(names[i] if names else f"c{i + 1}", types[i] if types else f"t{i + 1}", body, spec[i + 1][1]) if body else None,
                          at if body else None, wrap, binary(ident("cnd"), "==", integer(i)), index(ident("src"), integer(i)))
            body = body_i
        return body

    def structure(c):
        """all body kinds, positions and existing flags of parent and child"""
        depth = c.free([1, 2] if not deep else [1, 2, 3])
        spec = []
        for i in range(depth + 1):
            w = c.free(WRAPS)
            ex = bool(c.free(2))
            np = c.free([0, 1, 2] if depth < 2 else [1])
            at = c.free(np + 1) if i < depth else 0
            spec.append((w, ex, np, at))
        return Doc([d_resource("r", "A.B/c", "2020-01-01", chain(spec), spec[0][1])])

    def depths(c):
        n = c.free([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20])
        w = c.free([*WRAPS, "mixed"])
        at = c.free([0, 1])
        ex = c.free(2)
        spec = [(WRAPS[i % 5] if w == "mixed" else w, bool(ex and i % 2), 1, at) for i in range(n + 1)]
        names = c.free([None, ["same"] * n])
        return Doc([d_resource("r", "A.B/c", "1", chain(spec, names, names and ["t"] * n))])

    def names(c):
        p, a, b = c.free(["r", "ch", "a__b", "resource1", "x"]), c.free(CNAMES), c.free(CNAMES)
        types = [c.free(CTYPES), c.free(CTYPES[:4])]
        return Doc([d_resource(p, "Microsoft.Storage/storageAccounts", "2021-02-01", chain([("object", False, 1, 1)] * 3, [a, b], types))])

    def versions(c):
        t = c.free(["A.B/c", "Microsoft.Web/sites", "a/b/c", "X", "a.b.c/d", ""])
        v = c.free(["2020-01-01", "1", "2021-06-01-preview", "", "v1.2"])
        d = c.free([1, 2])
        return Doc([d_resource("r", t, v, chain([("object", False, 1, 1)] * (d + 1)))])

    def several(c):
        """several parents with equally named children, mixed with other declarations"""
        n = c.free([2, 3] if not deep else [2, 3, 4])
        out = []
        for i in range(n):
            d = c.free([0, 1, 2])
            w = c.free(["object", "if", "loop"])
            out.append(d_resource(f"r{i}", f"A.B/c{i}", str(i), chain([(w, bool(i % 2), 1, i % 2)] * (d + 1), ["ch", "ch"], ["t", "u"])))
        extra = c.free([None, "param", "module", "var", "import"])
        if extra:
            out.insert(c.free(n + 1), catalogue()[extra][0]("r0"))
        return Doc(out)

    def decorated(c):
        k = c.free(3)
        w = c.free(WRAPS)
        d = c.free([1, 2])
        ds = [[deco("description", string(""))], [deco("batchSize", integer(1)), deco("custom")], [deco("secure")] * 3][k]
        return Doc([d_resource("r", "A.B/c", "1", chain([(w, False, 1, 1)] * (d + 1))).with_decorators(ds), d_var("v", integer(1))])

    def values(c):
        """each kind of value in the parent, before and after the child, and in the child"""
        v = c.free(basic_values())
        where = c.free(["parent_before", "parent_after", "child", "both"])
        w = c.free(["object", "if"])
        cb = Body([("name", string("x"))] + ([("k", v)] if where in ("child", "both") else []), wrap=w)
        pp = [("name", string("p"))]
        at = 1
        if where in ("parent_before", "both"):
            pp.append(("k", v))
            at = 2
        if where == "parent_after":
            pp.append(("k", v))
        return Doc([d_resource("r", "A.B/c", "1", Body(pp, Child("ch", "e", cb), at))])

    def keys(c):
        """keys of the parent that resemble what the implementation adds or uses inside"""
        k = c.free(["resource", "type", "config", "condition", "loop_type", "depends_on", "dependsOn", "existing", "name", "scope", "parent",
                    "ch", "r__ch", "decorators", "api_version", "__attrs__", "__name__", "child_resource", "resources", "'resource'", "'ch'"])
        at = c.free([0, 1, 2])
        d = c.free([0, 1, 2])
        ps = [(k, integer(1)), ("zz", integer(2))]
        if d == 1 and k == "depends_on":
            raise Skip
        # a key 'depends_on' in the child itself would meet the key that hoisting adds; not part of the model
        child = Body([("name", string("x"))] if k == "depends_on" or d == 0 else ps)
        return Doc([d_resource("r", "A.B/c", "1", Body(ps, Child("ch", "e", child), at) if d < 2 else
                               Body([("a", integer(0))], Child("mid", "m", Body([(k, integer(1))] if k != "depends_on" else [], Child("ch", "e", child))), 0))])

    def own_list(c):
        """a child whose body already has a list under the key that gets the dependency: the parent is appended"""
        items = [c.free([string("r"), ident("r"), string("c1"), string(""), ident("x"), NULL, string("r__c1"), array([ident("r")])]) for _ in range(c.free([0, 1, 2]))]
        d = c.free([1, 2])
        inner = Body([("name", string("x")), ("depends_on", array(items))])
        inner.extra = items
        mid = Body([("l", integer(1))], Child("c2", "u", inner), c.free(2)) if d == 2 else inner
        return Doc([d_resource("r", "A.B/c", "1", Body([("k", integer(0))], Child("c1", "t", mid), c.free(2)))])

    def layout(c):
        sep = c.free(["\n", "\n\n", "\n  ", "  \n", " // c\n", "\n\n// c\n", "\r\n", "\n/* c */\n", " # c\n"])
        at = c.free([0, 1, 2])
        d = c.free([1, 2])
        w = c.free(WRAPS)
        inner = Body([("name", string("x")), ("k", array([integer(1)], "\n", "\n", "\n"))], wrap=w, nl=sep)
        if d == 2:
            inner = Body([("l", integer(1))], Child("in", "g", inner), c.free(2), nl=sep)
        return Doc([d_resource("r", "A.B/c", "1", Body(PAIRS[2], Child("ch", "e", inner), at, nl=sep)), d_param("p", t_name("int"))])

    def objects_without(c):
        """property names and nested objects that only look like child resources stay in place"""
        k = c.free(["resource", "resources", "'resource'", "child", "__child_resource__", "resource_x"])
        depth = c.free([0, 1, 2])
        v = obj([(k, c.free([obj([("name", string("x"))]), integer(0), array([]), string("resource a 'b' = {}"[:8])]))], "\n", "\n", "\n")
        for i in range(depth):
            v = obj([(f"p{i}", v)], "\n", "\n", "\n")
        cb = c.free(2)
        b = Body([("a", v)], Child("ch", "e", Body([("a", v)])) if cb else None)
        return Doc([d_resource("r", "A.B/c", "1", b)])

    def siblings(c):
        """the smallest document with two children in one body (a known finding)"""
        text = "resource r 'A.B/c@1' = {\n  resource c1 't1' = {\n    k: 1\n  }\n  resource c2 't2' = {\n    k: 2\n  }\n}\n"
        r = {"decorators": [], "type": "A.B/c", "api_version": "1", "existing": False}
        return Case(text, {**doc_scope(), "resources": {
            "r": {**r, "config": {}}, "r__c1": {**r, "type": "A.B/c/t1", "config": {"k": 1, "depends_on": [I("r")]}},
            "r__c2": {**r, "type": "A.B/c/t2", "config": {"k": 2, "depends_on": [I("r")]}}}})

    def related(c):
        """parents and children whose names are nearly equal"""
        a, b = c.free(NEAR_PAIRS)
        k = c.free(4)
        spec = [("object", False, 1, 1)] * 3
        if k == 0:
            return Doc([d_resource(a, "A.B/c", "1", chain(spec, [b, a], [b, a]))])
        if k == 1:
            return Doc([d_resource(a, "A.B/c", "1", chain(spec, ["ch", "ch"], [a, b])), d_resource(b, "A.B/c", "2", chain(spec[:2], ["ch"], [b]))])
        if k == 2:
            return Doc([d_resource(a, "A.B/c", "1", chain(spec, [b, b], ["t", "t"])), d_param(b, t_name("int")), d_var(a, integer(1))])
        return Doc([d_resource(a, "A.B/c", "1", chain(spec[:2], [b])), d_resource(b, "A.B/c", "1", chain(spec[:2], [a]))])

    J = judge_doc_both
    return [Family("nearly equal names", related, J), *content_families(("resource_property",)), *coincidence_families("child", "resource", judge=J), *long_name_families("resources", judge=J), Family("structure", structure, J), Family("depths", depths, J), Family("names", names, J), Family("types and versions", versions, J),
            Family("several parents", several, J), Family("decorated parents", decorated, J), Family("values", values, J), Family("keys", keys, J),
            Family("layout", layout, J), Family("look-alikes", objects_without, J), Family("own list", own_list, J), Family("siblings", siblings, judge_case)]


def run(check):
    check.assumptions.append("one child resource per body; two siblings in one body are covered by one history only (known finding)")
    check.explore(families(check.tier), warm)
