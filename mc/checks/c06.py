"""C06: decorators."""
from ..common import *
from ..core import Family, Skip, warm

ARGS = basic_values()
NEGATIVES = [neg(integer(n)) for n in ("0", "1", "2", "7", "10", "100", "2147483648", "9223372036854775808", "007")]
UNKNOWN = ["custom", "secure1", "Secure", "Sys", "allow", "discriminator", "waitUntil", "retryOn", "onlyIfNotExists", "deprecated", "az1", "x",
           "sys.custom", "sys.discriminator", "SECURE", "minvalue", "maxlength", "batchsize", "type", "param", "description2", "exports", "a1B2"]


def families(tier):
    deep = tier == "thorough"
    cat = catalogue()
    targets = {k: cat[k] for k in DECORATABLE}
    tnames = list(targets)

    def sample(i):
        """a decorator of each known type, two unknown ones, and falsy arguments"""
        return [lambda: deco("allowed", array([string("a"), integer(i)])), lambda: deco("batchSize", integer(i)), lambda: deco("description", string(f"d{i}")),
                lambda: deco("export"), lambda: deco("minLength", integer(0)), lambda: deco("maxLength", integer(i + 5)),
                lambda: deco("minValue", neg(integer(i)), [-i]), lambda: deco("maxValue", integer(i)), lambda: deco("metadata", obj([("k", integer(i))])),
                lambda: deco("sealed"), lambda: deco("secure"), lambda: deco("sys.secure"), lambda: deco("custom"), lambda: deco("custom", string("")),
                lambda: deco("sys.description", string("")), lambda: deco("metadata", obj([])), lambda: deco("sys.other", NULL),
                lambda: deco("allowed", array([]))]

    base = [lambda n: d_param(n, t_name("string")), lambda n: d_var(n, integer(1)), lambda n: d_output(n, t_name("int"), integer(0)),
            lambda n: d_resource(n, "A.B/c", "1", Body([])), lambda n: d_module(n, "./x.bicep", obj([])), lambda n: d_type(n, ident("int")),
            lambda n: d_func(n, [], t_name("string"), string(""))]

    def seqs(c):
        n = c.free(5 if deep else 4)
        t = c.free(base if n < 3 else base[:1])
        ds = []
        for i in range(n):
            opts = sample(i)
            ds.append(c.free(opts)())
        return Doc([t("x").with_decorators(ds)])

    def targets_all(c):
        k = c.free(tnames)
        f = c.free(targets[k])
        i, j = c.free(18), c.free(18)
        return Doc([f("x").with_decorators([sample(1)[i](), sample(2)[j]()])])

    def args(c):
        n = c.free([x for x in DECOS if DECOS[x][1]] + UNKNOWN[:4] + ["sys.custom"])
        ns = c.free(["", "sys."])
        if ns and n.startswith("sys."):
            raise Skip
        k = c.free([0, 2, 3])
        v = c.free(ARGS)
        exp = None
        if n in ("minValue", "maxValue") and v.src == "-1":
            exp = [-1]
        return Doc([base[k]("x").with_decorators([deco("secure"), deco(ns + n, v, exp), deco("sealed")])])

    special = contents()

    def particular(c):
        n = c.free([x for x in DECOS if DECOS[x][1]] + ["custom", "sys.custom"])
        v = c.free(special)
        if n in ("minValue", "maxValue") and "operator" in v.src:
            raise Skip  # an object that is written like the result of an operator
        return Doc([base[c.free(2)]("x").with_decorators([deco(c.free(["", "sys."]) + n if "." not in n else n, v), deco("secure")])])

    def negative(c):
        n = c.free(["minValue", "maxValue", "sys.minValue", "sys.maxValue", "minLength", "maxLength", "custom", "allowed", "batchSize"])
        v = c.free(NEGATIVES + [neg(ident("a")), neg(paren(integer(1))), paren(neg(integer(3))), neg(binary(integer(1), "+", integer(2))),
                                binary(integer(1), "-", integer(2)), neg(neg(integer(4))), neg(call("fn", [])), lnot(integer(1)), integer(0),
                                neg(string("5")), neg(TRUE), neg(FALSE), array([neg(integer(1)), integer(0)]), neg(index(ident("a"), integer(0)))])
        exp = None
        if "Value" in n:
            e = v.exp
            if type(e) is dict and e["operator"]["type"] == "minus" and type(e["operator"]["operands"]["integer_value"]) is int:
                exp = [-e["operator"]["operands"]["integer_value"]]
        k = c.free([0, 1])
        other = c.free([None, deco("minValue", neg(integer(9)), [-9]), deco("minValue", integer(0))])
        ds = [deco(n, v, exp)]
        if other:
            ds.insert(c.free(2), other)
        return Doc([base[k]("x").with_decorators(ds)])

    def unknown(c):
        n = c.free(UNKNOWN)
        v = c.free([None, *ARGS])
        k = c.free([0, 1, 4])
        return Doc([base[k]("x").with_decorators([deco(n, v)])])

    def neighbours(c):
        """decorators stay on their own declaration"""
        k1, k2 = c.free(len(base)), c.free(len(base))
        a, b, m = c.free(4), c.free(4), c.free(3)
        d1 = [deco("description", string(f"a{i}")) for i in range(a)]
        d2 = [deco(["secure", "custom", "export"][i % 3]) for i in range(b)]
        out = [base[k1]("x").with_decorators(d1)]
        out += [d_metadata("m", "v"), d_import("f.bicep", [("s", None)])][:m]
        out.append(base[k2]("y").with_decorators(d2))
        return Doc(out)

    def ladders(c):
        k = c.free([0, 3])
        n = c.free([*range(0, 41), 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 256, 257])
        kind = c.free(["equal", "mixed", "numbered"])
        ds = [deco("secure") if kind == "equal" else sample(i)[i % 18]() if kind == "mixed" else deco("custom", integer(i)) for i in range(n)]
        return Doc([base[k]("x").with_decorators(ds), base[1]("after")])

    # trivia after and inside decorators
    GAP = ["\n", " ", "", "\n\n", " // c\n", "\n// c\n", "\n// a\n// b\n", "/* c */", "\n/* c */\n", " # c\n", "\r\n", "\n\n// c\n\n"]
    INNER = ["", " ", "\n", "// c\n", "/* c */", "\n  ", "\r\n"]

    def layout(c):
        k = c.free(len(base))
        t = base[k]("x")
        vs = [deco("description", string("d")), deco("secure"), deco("allowed", array([integer(1)])), deco("custom", obj([("k", NULL)]))]
        n = c.free([1, 2, 3])
        r = c.free(4)
        ds = (vs[r:] + vs[:r])[:n]
        src = ""
        for d in ds:
            head, _, rest = d.src.partition("(")
            inner = rest[:-1]
            src += f"{head}({c.dev(INNER)}{inner}{c.dev(INNER) if inner else ''}){c.dev(GAP)}"
        e = Doc([t.with_decorators(ds)]).expected()
        return Case(c.dev(["", "// c\n", "\n"]) + src + t.src + "\n", e)

    def descriptions(c):
        """string contents that resemble other syntax"""
        f = c.free(FRAGMENTS)
        g = c.free(["", "x", "'''"[:0], " ", ")", "@secure()"])
        n = c.free(["description", "custom", "sys.description", "metadata"])
        s = f + g
        if s.endswith("$") or s.endswith("\\"):
            raise Skip
        v = string(s) if n != "metadata" else obj([("description", string(s))])
        if "'" in s.replace("\\'", "") and "${" not in s:
            raise Skip
        return Doc([base[0]("x").with_decorators([deco(n, v), deco("secure")])])

    def related(c):
        """decorators whose names are nearly those of known ones"""
        n = c.free(list(DECOS))
        m = c.free(["", "sys."]) + c.free([x for x in near(n) if x not in DECOS and "_" not in x])
        v = c.free([None, string(""), integer(0), neg(integer(1))])
        a = deco(n, integer(3)) if DECOS[n][1] else deco(n)
        ds = [deco(m, v), a]
        return Doc([base[c.free([0, 1])]("x").with_decorators(ds[::-1] if c.free(2) else ds)])

    J = judge_doc
    return [Family("particular arguments", particular, J), Family("nearly known decorators", related, J), *content_families(("decorator_unknown", "decorator_metadata", "decorator_allowed", "decorator_description")), *coincidence_families("decorator"), *long_name_families("decorators"), Family("sequences", seqs, J), Family("targets", targets_all, J), Family("arguments", args, J), Family("negative numbers", negative, J),
            Family("unknown decorators", unknown, J), Family("neighbours", neighbours, J), Family("many", ladders, J),
            Family("layout", layout, judge_case, 3 if deep else 2), Family("descriptions", descriptions, J)]


def run(check):
    check.explore(families(check.tier), warm)
