"""C05: function calls."""
from ..common import *
from ..core import Family, Skip, warm

UNKNOWN = ["fn", "foo_bar", "f1", "X", "_f", "toUpperCase", "max1", "concatX", "az.fn", "sys.fn", "az.concat", "sys.resourceGroup", "az.toUpper",
           "sys.listKeys", "listkeys", "ListKeys", "TOUPPER", "ResourceGroup", "resourcegroup", "map", "reduce", "sort", "toObject", "items", "cidrSubnet",
           "parseCidr", "objectKeys", "shallowMerge", "mapValues", "groupBy", "providers", "deployer", "loadDirectoryFileInfo", "readEnvironmentVariable",
           "getSecret", "listSecrets", "list", "listAccountSas", "sys.items", "az.providers", "array_", "int_", "bool2", "args", "type", "param", "existing",
           "unknown_func", "json2", "function", "parameters", "__init__", "nameof", "fail", "buildUri", "tryGet", "externalInput", "az.list"]
ARGS = [ident("a"), string(""), integer(0), NULL, FALSE, array([]), obj([]), string("s"), integer(7), TRUE, neg(integer(1)), lnot(ident("b")),
        call("fn", []), call("toUpper", [ident("q")]), binary(ident("x"), "+", ident("y")), cond(ident("c"), integer(1), string("")), multi("m\n"),
        array([integer(1), NULL]), obj([("k", string(""))]), paren(ident("p")), bang(ident("b")), index(ident("l"), integer(0)), string("a${b}c"),
        lam(["v"], ident("v")), access_call(ident("kv"), "getSecret", [string("n")]), binary(ident("o"), ".", ident("p")), call("resourceGroup", []),
        call("utcNow", []), call("unknown", [string("")])]
FALSY = [string(""), integer(0), NULL, FALSE, array([]), obj([]), ident("a")]
# documented names of the list functions that are no known global function are covered as unknown ones


def names():
    out = []
    for n, (ns, _, ar) in FUNCS.items():
        for w in (n, f"{ns}.{n}"):
            for k in ar:
                out.append((w, k))
    return out


def families(tier):
    deep = tier == "thorough"
    known = names()
    plain = [(n, k) for n, k in known]

    def fresh(n):
        return [[ident(f"a{i}"), string(f"s{i}"), integer(i)][i % 3] for i in range(n)]

    def each(c):
        """every function, namespace and arity; each argument in turn replaced by every kind of value"""
        w, k = c.free(plain)
        vs = fresh(k)
        if k:
            i = c.free(min(k, 10 if deep else 5))
            vs[i] = c.free(ARGS)
        return var_doc(call(w, vs))

    special = contents()

    def particular(c):
        w, k = c.free([(w, k) for w in FUNCS for k in FUNCS[w][2] if k])
        vs = fresh(k)
        vs[c.free(min(k, 10 if deep else 4))] = c.free(special)
        return var_doc(call(w, vs))

    def falsy(c):
        """all combinations of falsy arguments"""
        w, k = c.free(plain)
        if k > (5 if deep else 4):
            raise Skip
        pool = FALSY if k <= 3 or deep else FALSY[:4]
        return var_doc(call(w, [c.free(pool) for _ in range(k)]))

    def same(c):
        """all arguments the same value"""
        w, k = c.free(plain)
        v = c.free(FALSY)
        return var_doc(call(w, [v] * k))

    def unknown(c):
        w = c.free(UNKNOWN)
        k = c.free([0, 1, 2, 3, 4, 5])
        vs = fresh(k)
        if k:
            i = c.free(k)
            vs[i] = c.free(ARGS)
        return var_doc(call(w, vs))

    def unknown_falsy(c):
        k = c.free(5)
        return var_doc(call(c.free(["fn", "az.fn", "union", "az.concat"] if k > 1 else ["fn", "az.fn"]), [c.free(FALSY) for _ in range(k)]))

    VARIADIC = ["concat", "max", "min", "union", "intersection", "format", "guid", "uniqueString", "fn", "sys.concat", "sys.fn", "resourceId"]

    def ladders(c):
        w = c.free(VARIADIC)
        n = c.free([*range(0, 41), 48, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257])
        if n < {"fn": 0, "sys.fn": 0, "union": 2, "intersection": 2, "resourceId": 2}.get(w, 1):
            raise Skip
        vs = [[ident(f"a{i}"), integer(i), NULL, string("")][i % 4] for i in range(n)]
        base = w.removeprefix("sys.")
        e = [v.exp for v in vs]
        if base in ("concat", "max", "min", "union", "intersection"):
            f = {"type": base, "parameters": Ordered({f"arg_{i + 1}": x for i, x in enumerate(e)})}
        elif base == "format":
            f = {"type": "format", "parameters": {"format_string": e[0], **{f"arg_{i}": x for i, x in enumerate(e[1:], 1)}}}
        elif base in ("guid", "uniqueString"):
            f = {"type": FUNCS[base][1], "parameters": {"base_string": e[0], **{f"extra_string_{i}": x for i, x in enumerate(e[1:], 1)}}}
        elif base == "resourceId":
            if n <= 5:
                raise Skip
            f = {"type": "resource_id", "parameters": {"subscription_id": e[0], "resource_group_name": e[1], "resource_type": e[2],
                                                       **{f"resource_name_{i}": x for i, x in enumerate(e[3:], 1)}}}
        else:
            f = {"type": Text(w), "parameters": Ordered({f"arg_{i + 1}": x for i, x in enumerate(e)})}
        sep = c.free([", ", ",\n", ","])
        return var_doc(V(f"{w}({sep.join(v.src for v in vs)})", {"function": f}))

    def pairs(c):
        """two calls next to each other or in each other"""
        w1, k1 = c.free(plain)
        w2 = c.free(["toUpper", "resourceGroup", "fn", "concat", "az.resourceGroup", "utcNow"])
        inner = call(w2, [ident("z")])
        how = c.free(["array", "object", "inside", "plus"] if k1 else ["array", "object", "plus"])
        vs = fresh(k1)
        if how == "inside":
            vs[c.free(min(k1, 5))] = inner
            return var_doc(call(w1, vs))
        one = call(w1, vs)
        if how == "array":
            return var_doc(array([one, inner, one], c.free([", ", "\n"]), "", ""))
        if how == "object":
            return var_doc(obj([("a", inner), ("b", one), ("c", inner)], "\n", "\n", "\n"))
        return var_doc(binary(one, "+", inner))

    SEP = [", ", ",", " , ", ",\n", ", // c\n", ",\n\n  ", ", /* c */ ", ",\r\n", ",\t"]
    EDGE = ["", " ", "\n", " // c\n", "/* c */", "\n  ", "\r\n", "\n\n"]

    def layout(c):
        w, k = c.free([("resourceId", 2), ("resourceId", 4), ("toUpper", 1), ("utcNow", 0), ("fn", 0), ("fn", 1), ("fn", 3), ("az.resourceGroup", 2),
                       ("sys.concat", 4), ("az.fn", 2)])
        first = c.free(4)
        vs = [[obj([("k", NULL)]), string("x"), array([]), integer(0)][(i + first) % 4] for i in range(k)]
        s = c.dev(EDGE)
        e = c.dev(EDGE) if k else ""
        out = s
        for i, v in enumerate(vs):
            if i:
                out += c.dev(SEP)
            out += v.src
        return var_doc(V(f"{w}({out}{e})", x_func(w, [v.exp for v in vs])))

    def nesting(c):
        n = c.free([1, 2, 3, 4, 5, 8, 12, 16, 20, 32, 40])
        w = c.free(["toUpper", "fn", "sys.concat", "resourceId", "mixed"])
        v = c.free(FALSY)
        for i in range(n):
            f = ["toUpper", "fn", "resourceId", "union"][i % 4] if w == "mixed" else w
            v = call(f, [string(f"l{i}"), v] if f in ("resourceId", "union") else [v])
        return var_doc(v)

    def shadows(c):
        """the name of a known function without a call is an identifier, a user function of that name is declared as such"""
        n = c.free(list(FUNCS))
        k = c.free(["ident", "member", "key", "func", "arg", "call"])
        if k == "ident":
            return var_doc(binary(ident(n), "+", ident("b")))
        if k == "member":
            return var_doc(binary(ident("a"), ".", ident(n)))
        if k == "key":
            return var_doc(obj([(n, call(n, [ident("q")] * min(FUNCS[n][2])))]))
        if k == "arg":
            return var_doc(call("fn", [ident(n), call(n, [ident("q")] * min(FUNCS[n][2]))]))
        if k == "call":
            return Doc([d_var(n, call(n, [ident("q")] * max(FUNCS[n][2])))])
        raise Skip

    def hosts(c):
        h = c.free(list(host_positions()))
        w, k = c.free([x for x in plain if x[0] in FUNCS and x[1] == max(FUNCS[x[0]][2])] + [("fn", 2)])
        return host_positions()[h](call(w, fresh(k)))

    J = judge_case

    def any_case(x):
        return judge_doc(x) if isinstance(x, Doc) else judge_case(x)

    def related(c):
        """calls of functions whose names are nearly those of known ones"""
        n = c.free(list(FUNCS))
        alt = [x for x in near(n) if x not in FUNCS]
        w = c.free(alt) if c.free(2) else c.free(["az", "sys"]) + "." + c.free(alt[:4])
        k = c.free([1, min(FUNCS[n][2])])
        return Doc([d_var("x", call(w, [ident("q"), string("")][:k])), d_var(w.rpartition(".")[2], ident(n) if n not in ("array",) else ident("q"))])

    return [Family("particular arguments", particular, J), Family("nearly known functions", related, judge_doc), *content_families((), ("unknown_arg", "unknown_arg_2", "unknown_arg_1of3", "unknown_arg_lines", "known_arg", "known_arg_2", "optional_arg", "variadic_arg")), *coincidence_families("call", "lambda"), *long_name_families("expressions"), Family("functions and arguments", each, J), Family("falsy arguments", falsy, J), Family("equal arguments", same, J),
            Family("unknown functions", unknown, J), Family("unknown functions, falsy", unknown_falsy, J), Family("many arguments", ladders, J),
            Family("two calls", pairs, J), Family("layout", layout, J, 3 if deep else 2), Family("nesting", nesting, J),
            Family("names without call", shadows, any_case), Family("hosts", hosts, judge_doc)]


def run(check):
    check.explore(families(check.tier), warm)
