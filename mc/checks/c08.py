"""C08: loops and deployment conditions."""
from ..common import *
from ..core import Family, Skip, warm

NAMES = ["i", "item", "x1", "_", "type", "name", "index", "itemz", "inx", "in_", "config", "condition", "array_name", "param", "forx", "ifx"]
COND_SP = [" ", "", "  ", "\t"]


def families(tier):
    deep = tier == "thorough"
    values = basic_values()
    body0 = obj([("name", string("n")), ("k", integer(0))], "\n", "\n", "\n")
    t = t_name("array")

    def wrap_decl(host, lp):
        """a declaration that holds the loop"""
        if host == "var":
            return d_var("x", lp)
        if host == "typed_var":
            return d_var("x", lp, t)
        if host == "output":
            return d_output("x", t, lp)
        if host == "resource":
            return Decl(f"resource x 'A.B/c@1' = {lp.src}", [("resources", "x", {"decorators": [], "type": "A.B/c", "api_version": "1",
                                                                                "existing": False, "config": lp.exp}, None)])
        if host == "module":
            return d_module("x", "./m.bicep", lp)
        if host == "property":
            return d_var("x", obj([("p", lp)], "\n", "\n", "\n"))
        if host == "property_mid":
            return d_resource("x", "A.B/c", "1", Body([("a", integer(1)), ("p", lp), ("z", string(""))]))
        if host == "property_comma":
            return d_var("x", obj([("a", integer(1)), ("p", lp), ("z", NULL)]))
        if host == "property_deep":
            return d_var("x", array([obj([("o", obj([("p", lp)], "\n", "\n", "\n"))], "\n", "\n", "\n")]))
        raise AssertionError(host)

    HOSTS = ["var", "typed_var", "output", "resource", "module", "property", "property_mid", "property_comma", "property_deep"]

    def sources(c):
        h = c.free(HOSTS)
        k = c.free(["array", "array_index"])
        s = c.free(values)
        f = c.free([None, ident("c")])
        return Doc([wrap_decl(h, loop(k, ["i", "n"], s, body0, f))])

    def bodies(c):
        h = c.free(["var", "output", "property", "property_mid", "resource"])
        k = c.free(["array", "array_index"])
        return Doc([wrap_decl(h, loop(k, ["i", "n"], ident("s"), c.free(values)))])

    def filters(c):
        h = c.free(["var", "resource", "module", "property_mid"])
        k = c.free(["array", "array_index"])
        sp = c.free(COND_SP[:2])
        return Doc([wrap_decl(h, loop(k, ["i", "n"], ident("s"), body0, c.free(values), sp=sp))])

    def parts(c):
        """source, filter and body from the small values, all combinations"""
        k = c.free(["array", "array_index"])
        s = c.free(SMALL if deep else SMALL[:8])
        f = c.free([None, *(SMALL if deep else SMALL[:6] + SMALL[9:10])])
        b = c.free([body0, obj([]), obj([("k", ident("i"))])] + ([x for x in SMALL if x.src[0] not in "[(-"] if f is not None else SMALL))
        return Doc([wrap_decl("var", loop(k, ["i", "n"], s, b, f))])

    def names(c):
        k = c.free(["array", "array_index"])
        a, b = c.free(NAMES), c.free(NAMES)
        if k == "array" and b != NAMES[0]:
            raise Skip
        h = c.free(["var", "resource"])
        return Doc([wrap_decl(h, loop(k, [a, b], ident("s"), obj([("k", ident(a)), ("l", ident(b))]), c.free([None, ident(a)])))])

    def conditions(c):
        h = c.free(["resource", "module"])
        v = c.free(values)
        b = c.free([body0, obj([]), ident("a"), obj([("p", loop("array", ["i"], ident("s"), ident("i")))], "\n", "\n", "\n")])
        sp = c.free(COND_SP)
        ex = c.free([False, True])
        d = deploy_if(v, b, sp)
        lead = c.free(["", "\n", "\n  "])
        if h == "module":
            if ex:
                raise Skip
            return Doc([d_module("x", "./m.bicep", V(lead + d.src, d.exp))])
        return Doc([Decl(f"resource x 'A.B/c@1' {'existing ' if ex else ''}= {lead}{d.src}",
                         [("resources", "x", {"decorators": [], "type": "A.B/c", "api_version": "1", "existing": ex, "config": d.exp}, None)])])

    def cond_nested(c):
        """operators and falsy values as condition and filter"""
        v = c.free(values)
        p = value_positions()
        q = c.free(list(p))
        h = c.free(["if", "filter"])
        e = p[q](v)
        if h == "if":
            return Doc([wrap_decl("resource", deploy_if(e, body0))])
        return Doc([wrap_decl("resource", loop("array", ["i"], ident("s"), body0, e))])

    def source_nested(c):
        v = c.free(SMALL)
        p = value_positions()
        q = c.free(list(p))
        w = c.free(["source", "body"])
        e = p[q](v)
        if w == "source":
            return Doc([wrap_decl("var", loop("array", ["i"], e, body0))])
        return Doc([wrap_decl("var", loop("array_index", ["i", "n"], ident("s"), e))])

    GAP = {"open": ["", " ", "\n", "// c\n", "\n  ", "/* c */", "\r\n", "\n\n"], "close": ["", " ", "\n", " // c\n", "\n  ", "/* c */", "\r\n", "\n\n"],
           "sp": [" ", "  ", "\t", " /* c */ "], "opt": ["", " ", "/* c */"], "colon": [" ", "", "  ", " /* c */ "], "if": [" ", "", "  ", " /* c */ "]}

    def layout(c):
        k = c.free(["array", "array_index"])
        h = c.free(["var", "resource", "property_mid"])
        f = c.free([None, ident("c"), paren(binary(ident("a"), "==", integer(0)))])
        g = lambda n: c.dev(GAP[n])  # noqa: E731
        head = "i" if k == "array" else f"({g('opt')}i{g('opt')},{g('opt')}n{g('opt')})"
        src = f"[{g('open')}for{g('sp')}{head}{g('sp')}in{g('sp')}s{g('opt')}:{g('colon')}"
        if f is not None:
            src += f"if{g('if')}({g('opt')}{f.src}{g('opt')}){g('colon')}"
        src += body0.src + g("close") + "]"
        return Doc([wrap_decl(h, V(src, loop(k, ["i", "n"], ident("s"), body0, f).exp)), d_var("after", integer(1))])

    def items_calls(c):
        """'items (x)' as source: the object, whatever it is"""
        o = c.free([ident("a"), binary(ident("a"), ".", ident("b")), index(ident("a"), string("k")), call("fn", [integer(0)]), obj([("k", NULL)]),
                    obj([]), string("s"), paren(ident("a")), binary(index(ident("a"), integer(0)), ".", ident("b")), call("union", [ident("a"), obj([])])])
        k = c.free(["array", "array_index"])
        h = c.free(HOSTS)
        lp = loop(k, ["i", "n"], V(f"items{c.free(['', ' '])}({o.src})", None), body0, c.free([None, ident("f")]))
        if "items (" in lp.src:
            d = {"item_name": Text("i"), "object_name": Text("a") if o.src == "a" else o.exp}
            if k != "array":
                raise Skip
            lp.exp["loop_type"] = {"type": "object", "detail": d}
        else:
            lp.exp["loop_type"]["detail"]["array_name"] = call("items", [o]).exp
        return Doc([wrap_decl(h, lp)])

    def filter_lines(c):
        """a filter on its own line, a filter whose body is anything that starts with 'if'"""
        h = c.free(["var", "resource", "property"])
        k = c.free(["array", "array_index"])
        lead = c.free([" ", "", "\n", "\n  ", "\r\n  ", "/* c */"])
        f = c.free([ident("c"), call("if_x", [ident("a")]), binary(ident("a"), "==", integer(0)), ident("iff"), lnot(ident("b"))])
        b = c.free([body0, obj([]), ident("ifx"), ident("a"), call("iffy", [integer(1)]), call("fn", [])])
        x = loop(k, ["i", "n"], ident("s"), b, f)
        return Doc([wrap_decl(h, V(x.src.replace(": if (", f":{lead}if ("), x.exp))])

    def nested_loops(c):
        """loops in objects in bodies of loops"""
        n = c.free([1, 2, 3, 4, 6, 8, 12])
        k = c.free(["array", "array_index", "mixed"])
        f = c.free([None, ident("c")])
        h = c.free(["var", "resource", "property"])
        b = c.free([body0, obj([("k", ident("i"))])])
        for i in range(n):
            kk = ["array", "array_index"][i % 2] if k == "mixed" else k
            lp = loop(kk, [f"i{i}", f"n{i}"], index(ident("s"), integer(i)), b, f)
            b = obj([("a", integer(i)), (f"p{i}", lp), ("z", NULL)], "\n", "\n", "\n")
        return Doc([wrap_decl(h, lp)])

    def several(c):
        """loops and conditions next to each other do not mix"""
        def one(i):
            k = c.free(5)
            nm = f"r{i}"
            b = obj([("name", string(nm))], "\n", "\n", "\n")
            if k == 0:
                v = b
            elif k == 1:
                v = deploy_if(ident(f"c{i}"), b)
            elif k == 2:
                v = loop("array", ["i"], ident(f"s{i}"), b)
            elif k == 3:
                v = loop("array_index", ["i", "n"], ident(f"s{i}"), b)
            else:
                v = loop("array", ["i"], ident(f"s{i}"), b, ident(f"f{i}"))
            return [lambda: d_module(nm, "./m.bicep", v),
                    lambda: Decl(f"resource {nm} 'A.B/c@1' = {v.src}", [("resources", nm, {"decorators": [], "type": "A.B/c", "api_version": "1",
                                                                                         "existing": False, "config": v.exp}, None)])][c.free(2)]()
        return Doc([one(i) for i in range(c.free([2, 3] if not deep else [2, 3, 4]))])

    def shapes(c):
        """user objects that look like the representation of a loop or condition"""
        o = c.free([obj([("condition", ident("a")), ("config", obj([("k", integer(1))]))]),
                    obj([("loop_type", integer(1)), ("condition", NULL), ("config", obj([]))]),
                    obj([("condition", NULL), ("config", string("c"))]), obj([("config", obj([("config", obj([]))]))]),
                    obj([("function", obj([("type", string("if")), ("parameters", obj([("arg_1", integer(1))]))]))]),
                    obj([("type", string("if"))])])
        w = c.free(["plain", "if", "loop", "filtered", "source"])
        h = c.free(["resource", "module"])
        if w == "source":
            return Doc([wrap_decl(h, loop("array", ["i"], o, body0))])
        v = {"plain": o, "if": deploy_if(ident("c"), o), "loop": loop("array", ["i"], ident("s"), o),
             "filtered": loop("array", ["i"], ident("s"), o, ident("f"))}[w]
        return Doc([wrap_decl(h, v)])

    def related(c):
        """variables, sources and keys that are nearly equal"""
        a, b = c.free(NEAR_PAIRS)
        k = c.free(["array", "array_index"])
        f = c.free([None, ident(b)])
        lp = loop(k, [a, b], ident(b), obj([(a, ident(b)), (b, ident(a))]), f)
        return Doc([wrap_decl(c.free(HOSTS), lp)])

    J = judge_doc
    return [Family("nearly equal names", related, J), *content_families(("deploy_condition", "deploy_body", "loop_source", "loop_body", "loop_index_source", "loop_index_body", "loop_filter", "loop_filter_var", "loop_property")), *coincidence_families("loop"), *long_name_families("expressions"), Family("sources", sources, J), Family("bodies", bodies, J), Family("filters", filters, J), Family("all parts", parts, J),
            Family("names", names, J), Family("deployment conditions", conditions, J), Family("nested conditions", cond_nested, J),
            Family("nested sources and bodies", source_nested, J), Family("layout", layout, J, 3 if deep else 2),
            Family("items calls", items_calls, J), Family("filters on lines", filter_lines, J), Family("nested loops", nested_loops, J), Family("several", several, J), Family("look-alikes", shapes, J)]


def run(check):
    check.explore(families(check.tier), warm)
