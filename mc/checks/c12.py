"""C12: line numbers."""
import importlib

from ..common import *
from ..core import Family, Rejected, Skip, Violation, canon, digest_result, parse, warm
from ..gaps import Gapped
from .c17 import BIG, BORROW
from .c11 import HEAD, INLINE, LINE, OF, TAIL, bases

FEW = {"head": ["\n\n", "// c\n", "\r\n"], "tail": ["", "\n\n// c\n", " // c"], "line": [" // c\n", "\n\n", "\n// c\n\n"],
       "glue": [" /* a\n\nb */ "], "word": ["/* a\nb */"], "blank": ["/* a\n b */"], "free": ["/* a\nb */"]}


def families(tier):
    deep = tier == "thorough"
    small, big = bases()
    docs = [Gapped(d) for d in small + big]
    cat = catalogue()
    kinds = list(cat)
    allv = [f for k in kinds for f in cat[k]]

    def single(c):
        g = docs[c.free(len(docs))]
        i = c.free(len(g.gaps))
        gaps = list(g.gaps)
        gaps[i] = c.free([gaps[i], *OF[g.kinds[i]]])
        return g.variant(gaps)

    def few(c):
        g = docs[c.free(len(docs))]
        return g.variant([c.dev([x, *FEW[y]]) for x, y in zip(g.gaps, g.kinds)])

    def everywhere(c):
        g = docs[c.free(len(docs))]
        a, b = c.free(INLINE if deep else INLINE[3::5]), c.free(LINE if deep else LINE[::2])
        h, t = c.free(["", "\n\n", "// c\n"]), c.free(TAIL[:3] if deep else TAIL[:1])
        return g.variant([h if k == "head" else t if k == "tail" else b if k == "line" else a for k in g.kinds])

    def pairs(c):
        """two declarations; everything before, between and after them"""
        f1, f2 = c.free(allv), c.free(allv)
        sep = c.free(["\n", "\n\n", " // c\n", "\n// c\n\n", "\r\n"])
        return Doc([f1("x1"), f2("y1")], sep, c.free(["", "\n"]), c.free(["\n", ""]))

    def between(c):
        ks = c.free(kinds), c.free(kinds)
        if deep:
            head, sep, tail = c.free(["", *HEAD]), c.free(["\n", *LINE]), c.free(["\n", *TAIL[:3]])
        else:
            # one of the three away from the plain form
            head, sep, tail = c.dev(["", *HEAD]), c.dev(["\n", *LINE]), c.dev(["\n", *TAIL[:3]])
        return Doc([cat[ks[0]][0]("x1"), cat[ks[1]][-1]("y1")], sep, head, tail)

    def children(c):
        """child resources at the end, in the middle and at the start of bodies"""
        depth = c.free([1, 2, 3])
        nl = c.free(["\n", "\n\n", " // c\n", "\n// c\n\n", "\r\n", "\n/* a\n */\n"])
        wraps = ["object", "if", "loop"]
        body = None
        for i in range(depth, -1, -1):
            w = c.free(wraps)
            ps = [("name", string("n")), ("v", array([integer(1), integer(2)], "\n", "\n", "\n"))]
            body = Body(ps, Child(f"c{i}", "t", body) if body else None, c.free([0, 1, 2]) if body else 0, w, nl=nl)
        return Doc([d_resource("r", "A.B/c", "1", body), d_var("v", integer(1))], "\n")

    def decorators(c):
        n = c.free([0, 1, 2, 3])
        k = c.free([k for k in kinds if k in DECORATABLE])
        sep = c.free(["\n", " ", "\n\n", " // c\n", "\n// c\n// d\n", "\r\n", "/* a\nb */\n"])
        d = [deco("secure"), deco("description", string("d")), deco("allowed", array([integer(1), integer(2)], "\n", "\n", "\n")), deco("custom", multi("a\nb\n"))]
        r = c.free(4)
        dec = cat[k][0]("x1").with_decorators((d[r:] + d[:r])[:n])
        return Doc([d_var("before", integer(0)), dec, d_var("after", integer(0))], c.free(["\n", "\n\n", " // c\n"]), "", "\n", sep)

    def inside(c):
        """values with line breaks and things that are no line breaks"""
        v = c.free([multi("\n"), multi("a\nb\n\nc"), multi("a\r\nb\r\n"), multi("x", "\n"), multi("\u2028\u2029\x85"), multi("a\x0bb\x0cc"), string("a\u2028b"), string("a\x85b"),
                    string("\x0b\x0c"), string("\\n\\n"), string("\\r"), string("\x1c\x1d\x1e"), array([multi("a\nb"), multi("\n\n")], "\n", "\n", "\n"),
                    obj([("k", multi("\n\n\n")), ("l", string("\u2028"))], "\n", "\n", "\n"), call("fn", [multi("\n")]), string("${f('''x\ny''')}"[:0] + "a${b}")])
        where = c.free(["var", "decorator", "body", "trivia"])
        if where == "var":
            d = d_var("x", v)
        elif where == "decorator":
            d = d_param("x", t_name("string")).with_decorators([deco("custom", v)])
        elif where == "body":
            d = d_resource("x", "A.B/c", "1", Body([("k", v)], Child("ch", "e", Body([("l", v)])), c.free([0, 1])))
        else:
            t = v.src.replace("\n", " ").replace("*/", "").replace("\r", " ")
            return Doc([d_var("x", integer(1)), d_var("y", integer(2))], f" // {t}\n/* {v.src} */\n")
        return Doc([d_var("before", v), d, d_var("after", v)])

    def broken_strings(c):
        """plain strings that contain a line break (pycep accepts them) in every place where a string can stand"""
        t = c.free(["a\nb", "\n", "a\n\nb\n", "a\r\nb", "a\n${x}\nb"])
        v, ty = string(t), t_name("string")
        ds = {
            "import": lambda: d_import(t, [("a", "b"), ("c", None)]), "import wild": lambda: d_import(t, [("*", "b")], False), "metadata": lambda: d_metadata("m", t),
            "extension": lambda: d_extension("e", obj([("k", v)]), "al"), "extension lines": lambda: d_extension("e", obj([("k", v)], "\n", "\n", "\n")),
            "namespace": lambda: d_namespace(t), "var": lambda: d_var("x", v), "array": lambda: d_var("x", array([v, integer(1), v])),
            "object": lambda: d_var("x", obj([("k", v), ("l", v)], "\n", "\n", "\n")), "param": lambda: d_param("p", ty, v), "output": lambda: d_output("o", ty, v),
            "call": lambda: d_var("x", call("toUpper", [v])), "operator": lambda: d_var("x", binary(v, "+", v)), "func": lambda: d_func("f", [("a", ty)], ty, v),
            "type": lambda: d_type("t", v), "decorator": lambda: d_param("p", ty).with_decorators([deco("description", v), deco("custom", v)]),
            "resource": lambda: d_resource("r", "A.B/c", "1", Body([("k", v)], wrap="if", condition=binary(v, "==", v))),
            "child": lambda: d_resource("r", "A.B/c", "1", Body([("k", v)], Child("ch", "t", Body([("l", v)])), c.free(2))),
            "loop": lambda: d_resource("r", "A.B/c", "1", Body([("k", v)], wrap="loop", source=v)), "module": lambda: d_module("m", "./a.bicep", obj([("k", v)])),
        }
        d = ds[c.free(list(ds))]()
        return Doc([d_var("before", c.free([integer(1), v])), d, d_var("after", integer(2))], c.free(["\n", "\n\n"]))

    def ladder(c):
        n = c.free([1, 2, 3, 5, 8, 9, 10, 11, 16, 33, 64, 99, 100, 101, 127, 128, 129, 200] + ([300, 500] if deep else []))
        k = c.free([None, *kinds])
        sep = c.free(["\n", "\n\n", " // c\n"])
        return Doc([cat[k or kinds[i % len(kinds)]][i % len(cat[k or kinds[i % len(kinds)]])](f"n{i}") for i in range(n)], sep)

    def far(c):
        """declarations far down and long declarations"""
        n = c.free([1, 2, 9, 10, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 1001, 4095, 4096, 9999, 10000, 10001, 32768, 65535, 65536, 65537])
        how = c.free(["blank", "comment", "array", "multi"])
        if how == "blank":
            return Doc([d_var("x", integer(1)), d_param("y", t_name("int"))], "\n", "\n" * n)
        if how == "comment":
            return Doc([d_var("x", integer(1)), d_param("y", t_name("int"))], "\n/*" + "\n" * n + "*/\n")
        if n > (10001 if deep else 1001):
            raise Skip
        v = array([integer(1)] * n, "\n", "\n", "\n") if how == "array" else multi("a\n" * n)
        return Doc([d_var("x", v), d_param("y", t_name("int"))])

    def empty(c):
        t = c.free(["", "\n", "// c", "/* a\nb */\n", "\n\n\n"])
        e = {"globals": {"scope": {"value": "resourceGroup", "__start_line__": 0, "__end_line__": 0}}}
        return Case(t, e, True)

    def scoped(c):
        k = c.free(kinds)
        at = c.free(2)
        ds = [cat[k][0]("x1")]
        ds.insert(at, d_scope(c.free(["tenant", "resourceGroup"])))
        return Doc(ds, c.free(["\n", "\n\n"]), c.free(["", "\n\n", "// c\n"]))

    def both(case):
        """the same result with line numbers on and off, apart from the two keys of each entry"""
        text = case.text if hasattr(case, "text") else case.inputs()
        a, b = parse(text, True), parse(text, False)
        if isinstance(a, Rejected) or isinstance(b, Rejected):
            if not (isinstance(a, Rejected) and isinstance(b, Rejected)):
                raise Violation("accepted only with line numbers on or only with line numbers off", text, b, a)
            return "reject"
        for section, entries in a.items():
            for name, attrs in entries.items():
                for key in ("__start_line__", "__end_line__"):
                    if type(attrs.get(key)) is not int:
                        raise Violation(f"{section}.{name} has no {key}", text, None, a)
                    if key in b.get(section, {}).get(name, {}):
                        raise Violation(f"{section}.{name} has {key} although line numbers are off", text, None, b)
                    del attrs[key]
        if canon(a) != canon(b):
            raise Violation("line numbers change more than the line numbers", text, b, a)
        return digest_result(b)

    borrowed = []
    for name, wanted in BORROW.items():
        mod = importlib.import_module(f"mc.checks.{name}")
        for f in mod.families("quick"):
            if name != "c12" and (deep or f.name in wanted and f.name not in BIG):
                borrowed.append(Family(f"{name}: {f.name}", f.fn, both, f.bound))

    J = judge_doc_both
    return [Family("one gap", single, J), Family("several gaps", few, J if deep else judge_doc_lines, 2), Family("all gaps", everywhere, judge_doc_lines if not deep else J),
            Family("pairs", pairs, J), Family("around declarations", between, J, 1), Family("child resources", children, J), Family("decorators", decorators, J),
            Family("values with lines", inside, J), Family("strings with line breaks", broken_strings, J), Family("many declarations", ladder, J), Family("far down", far, J), Family("empty", empty, judge_case),
            Family("scope", scoped, J), *borrowed]


def run(check):
    check.explore(families(check.tier), warm)
