"""C10: data types and signatures."""
from ..common import *
from ..core import Family, Skip, warm

TNAMES = ["string", "int", "bool", "object", "array", "secureString", "any", "fooType", "_t", "T1", "type", "param", "resourceInput", "null_", "a__b", "union",
          "item_type", "members", "x", "existing", "in", "as", "from", "nullx", "truex", "sysx", "azx", "resourceGroup", "max"]
ANAMES = ["a", "b1", "_x", "type", "args", "name", "string", "foo_bar", "A", "param", "resource", "in", "as", "existing", "max", "__name__", "decorators", "expression"]


def families(tier):
    deep = tier == "thorough"
    base = [t_name("string"), t_name("int"), t_name("fooType")]

    def tree(c, depth, width=3, leaves=base):
        """all type expressions of a depth: names, arrays, unions of 2..width members"""
        k = c.free(width + 1 if depth else 1)
        if k == 0:
            return c.free(leaves)
        if k == 1:
            return t_array(tree(c, depth - 1, width, leaves))
        return t_union([tree(c, depth - 1, width, leaves) for _ in range(k)])

    def hosts():
        v = integer(0)
        return {
            "param": lambda t, q: d_param("x", t, None, q), "param_default": lambda t, q: d_param("x", t, string(""), q),
            "var": lambda t, q: d_var("x", v, t, q), "output": lambda t, q: d_output("x", t, v, q),
            "func_result": lambda t, q: d_func("x", [], t, v), "func_arg": lambda t, q: d_func("x", [("a", t)], t_name("int"), v),
            "func_arg_mid": lambda t, q: d_func("x", [("a", t_name("int")), ("b", t), ("c", t_array(t))], t, v),
            "var_loop": lambda t, q: d_var("x", loop("array", ["i"], ident("s"), ident("i")), t, q),
            "output_loop": lambda t, q: d_output("x", t, loop("array", ["i"], ident("s"), ident("i")), q),
            "decorated": lambda t, q: d_param("x", t, NULL, q).with_decorators([deco("secure"), deco("description", string(""))]),
        }

    H = hosts()
    NULLABLE = ("param", "param_default", "var", "output", "var_loop", "output_loop", "decorated")

    def trees(c):
        h = c.free(list(H))
        q = c.free(["", "?"] if h in NULLABLE else [""])
        return Doc([H[h](tree(c, 2, 3, base[:2]), q), d_param("y", t_name("int"))])

    def trees3(c):
        h = c.free(["param", "func_arg"])
        return Doc([H[h](tree(c, 3, 2, base[:2]), "")])

    def names(c):
        h = c.free(list(H))
        n = t_name(c.free(TNAMES))
        k = c.free(["name", "array", "array2", "union", "union_array"])
        t = {"name": n, "array": t_array(n), "array2": t_array(t_array(n)), "union": t_union([n, base[0]]), "union_array": t_array(t_union([base[1], t_array(n)]))}[k]
        q = c.free(["", "?"] if h in NULLABLE else [""])
        return Doc([H[h](t, q)])

    def suffixes(c):
        h = c.free(list(H))
        n = c.free([*range(0, 13), 15, 16, 17, 20, 24, 31, 32, 33, 40])
        t = c.free([base[0], t_union(base[:2])])
        for _ in range(n):
            t = t_array(t)
        return Doc([H[h](t, c.free(["", "?"]) if h in NULLABLE else "")])

    def wide(c):
        h = c.free(["param", "var", "output", "func_arg", "func_result"])
        n = c.free([*range(2, 24), 31, 32, 33, 50, 64, 65, 100, 101, 128, 200, 256])
        k = c.free(["names", "same", "mixed"])
        ms = {"names": [t_name(f"t{i}") for i in range(n)], "same": [base[0]] * n,
              "mixed": [[t_name(f"t{i}"), t_array(base[0]), t_union(base[:2])][i % 3] for i in range(n)]}[k]
        return Doc([H[h](t_union(ms, c.free([" | ", "|"])), "")])

    def deep_unions(c):
        n = c.free([1, 2, 3, 5, 8, 12, 20, 30])
        side = c.free(2)
        arr = c.free(2)
        t = base[0]
        for i in range(n):
            t = t_union([t, t_name(f"u{i}")] if side else [t_name(f"u{i}"), t])
            if arr and i % 2:
                t = t_array(t)
        return Doc([H[c.free(list(H))](t, "")])

    def layout(c):
        g = lambda o=("", " ", "  ", "\t", "/* c */", " /* c */ "): c.dev(list(o))  # noqa: E731
        h = c.free(["param", "output", "var", "func"])
        q = c.free(["", "?"])
        src = f"({g()}string{g()}[{g()}]{g()}|{g()}int{g()}|{g()}fooType{g()}){g()}[{g()}]"
        t = T(src, t_array(t_union([t_array(base[0]), base[1], base[2]])).exp)
        if h == "func":
            s = f"func x{g()}({g()}a {src}{g()},{g()}b int{g()}){g()} {src}{g()} =>{g()} 0"
            d = Decl(s, d_func("x", [("a", t), ("b", base[1])], t, integer(0)).entries)
        else:
            d = {"param": lambda: d_param("x", t, integer(0), g() + q), "output": lambda: d_output("x", t, integer(0), g() + q),
                 "var": lambda: d_var("x", integer(0), t, g() + q)}[h]()
        return Doc([d])

    def defaults(c):
        """default None only without one; the value of a default never becomes part of the type"""
        t = c.free([base[0], t_array(base[0]), t_union(base[:2]), t_array(t_union(base[:2]))])
        q = c.free(["", "?"])
        v = c.free([None, *basic_values()])
        h = c.free(["param", "output", "var", "untyped"])
        if h == "param":
            return Doc([d_param("x", t, v, q)])
        if v is None or h == "untyped" and (q or t is not base[0]):
            raise Skip
        return Doc([d_var("x", v) if h == "untyped" else d_output("x", t, v, q) if h == "output" else d_var("x", v, t, q)])

    def signatures(c):
        n = c.free([0, 1, 2, 3])
        ts = [base[0], t_array(base[1]), t_union([base[0], t_array(base[2])])]
        ps = [(f"p{i}", c.free(ts)) for i in range(n)]
        return Doc([d_func("f", ps, c.free(ts), c.free(SMALL))])

    def many_params(c):
        n = c.free([*range(0, 34), 50, 63, 64, 65, 100, 101, 128, 200, 256])
        down = c.free(2)
        k = c.free(["same", "mixed"])
        order = range(n, 0, -1) if down else range(n)
        ts = [base[0]] if k == "same" else [base[0], t_array(base[1]), t_union(base[:2]), t_name("object")]
        return Doc([d_func("f", [(f"p{i}", ts[i % len(ts)]) for i in order], t_name("bool"), FALSE)])

    def param_names(c):
        a, b = c.free(ANAMES), c.free(ANAMES)
        if a == b:
            raise Skip
        fn = c.free(["f", "max", "string", "type"])
        return Doc([d_func(fn, [(a, t_name(b)), (b, t_array(t_name(a)))], t_name(fn), ident(a))])

    def bodies(c):
        return Doc([d_func("f", [("a", base[0])], c.free([base[0], t_array(base[0])]), c.free(basic_values())), d_var("y", integer(1))])

    def type_values(c):
        v = c.free(basic_values() + [ident("string"), obj([("k", ident("string")), ("l", ident("int"))], "\n", "\n", "\n")])
        return Doc([d_type(c.free(["x", "type", "string"]), v), d_type("y", ident("int"))])

    MEMBERS = [string("a"), string(""), string("x y"), string("|"), string("it\\'s"), ident("foo"), ident("string"), integer(0), integer(42), string("0")]

    def type_unions(c):
        n = c.free([2, 3] if not deep else [2, 3, 4])
        ms = [c.free(MEMBERS) for _ in range(n)]
        sep = c.free([" | ", "|"])
        return Doc([d_type("x", V(sep.join(m.src for m in ms), " | ".join(str(m.exp) for m in ms)))])

    def type_wide(c):
        n = c.free([*range(1, 24), 31, 32, 33, 64, 65, 100, 128, 200])
        k = c.free(3)
        ms = [[string(f"s{i}"), integer(i), ident(f"t{i}")][k if k < 2 else i % 3] for i in range(n)]
        return Doc([d_type("x", ms[0] if n == 1 else V(" | ".join(m.src for m in ms), " | ".join(str(m.exp) for m in ms)))])

    def nullable_props(c):
        """the nullable mark of properties in object types"""
        n = c.free([1, 2, 3])
        ts = [ident("string"), ident("int"), obj([("z", ident("bool"))], "\n", "\n", "\n"), paren(ident("string"))]
        pairs, src = Ordered(), []
        for i in range(n):
            t = c.free(ts)
            q = c.free(["", "?", " ?"])
            src.append(f"k{i}: {t.src}{q}")
            pairs[f"k{i}"] = t.exp
        return Doc([d_type("x", V("{\n" + "\n".join(src) + "\n}", pairs))])

    def related(c):
        """parameters, types and members that are nearly equal"""
        a, b = c.free(NEAR_PAIRS)
        k = c.free(3)
        if k == 0:
            return Doc([d_func(a, [(a, t_name(b)), (b, t_name(a))], t_name(b), ident(a)), d_func(b, [(b, t_name(b)), (a, t_name(a))], t_name(a), ident(b))])
        if k == 1:
            return Doc([d_param(a, t_union([t_name(a), t_name(b), t_array(t_name(a))]), ident(b)), d_param(b, t_union([t_name(b), t_name(a)]))])
        return Doc([d_type(a, V(f"'{a}' | '{b}' | {a}", f"{a} | {b} | {a}")), d_type(b, ident(a)), d_output(a, t_name(b), string(a)), d_output(b, t_array(t_name(a)), string(b))])

    J = judge_doc
    fams = [Family("nearly equal names", related, J), *content_families(("typed_var", "param_default", "output", "func_body", "type_value")), *coincidence_families("func", "func types", "typed"), *long_name_families("types"), Family("type expressions", trees, J), Family("type names", names, J), Family("array suffixes", suffixes, J), Family("wide unions", wide, J),
            Family("nested unions", deep_unions, J), Family("layout", layout, J, 3 if deep else 2), Family("defaults", defaults, J),
            Family("signatures", signatures, J), Family("many parameters", many_params, J), Family("parameter names", param_names, J),
            Family("function bodies", bodies, J), Family("type values", type_values, J), Family("union values", type_unions, J),
            Family("wide union values", type_wide, J), Family("nullable properties", nullable_props, J)]
    if deep:
        fams.append(Family("type expressions of depth 3", trees3, J))
    return fams


def run(check):
    check.explore(families(check.tier), warm)
