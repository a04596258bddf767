"""C20: every input is answered in reasonable time; large and deep documents are parsed."""
import signal
import time

from ..common import *
from ..core import Family, Rejected, Violation, diff, digest, digest_result, parse, warm

# code, strings, interpolations, comments and garbage that may repeat
BITS = ["'", "''", "'''", "\\", "\\'", "\\\\", "$", "${", "}", "${'", "'}", "${a}", "${'a'}", "{", "{}", "(", "[", ")", "]", "()", "[]", "a", "a ", "_", "1", "1 ", "a.", ".a", ".?a", "a[", "[0]", "[?", "-", "- ", "!", "!a", "a!", "a ? ", "? 1 : ",
        "a ? b : ", "+ ", "1 + ", "a && ", "a ?? ", "?? ", "::", "a::", "/", "//", "/*", "*/", "/**/", "/* */ ", "*", "**", "#", "#\n", "\n", "\r", "\r\n", " ", "\t", " \n", "\n ", "// c\n", "//\n", "/* */\n", "\n// c", "# c\n", "@a()\n", "@a(\n", "@", ",",
        "a, ", "a\n", "1\n", ",\n", ":", "k: 1\n", "k: {\n", "k: [\n", "| ", "a | ", "(a | ", "[] ", "[", "var x = 1\n", "var x = ", "resource r 'A@1' = {\n", "resource r 'A@1' = {}\n", "f(", "f()", "f(a, ", "f(\n", "a.list(", ".listKeys(", "'a'", "'a' ", "'a\n", "'${a}'",
        "'${", "\\${", "$${", "{'", "'{", "$'", "a => ", "(a, b) => ", "for x in ", "[for x in y: ", "if (", "if (a) {", "as ", "from ", "{a as b}", "'''a'''", "'''\n", "a'", "\"", "`", "%", "=", "==", "=>", "<", ">", "~", "é", "中", "\u2028", "\0", "\ufeff", "sys.", "az.",
        "null ", "true", "existing ", "targetScope = 'tenant'\n", "import 'a'\n", "items(", "br:", "br:a.azurecr.io/", "a/", "a-", "a:", "ts:", "@1", "x@"]
HEADS = ["", "var x = ", "var x = '", "var x = '''", "var x = [", "var x = [\n", "var x = {\n  k: ", "var x = {", "resource r 'A@1' = {\n", "@d(", "@d()\n", "/*", "//", "param x ", "type x = ", "module m '", "module m 'br:", "module m 'br/", "module m 'ts:", "resource r '", "import {", "import '", "func f(",
         "var x = '${", "var x = '${'", "var x = f(", "var x = a ? ", "var x = (", "var x = -", "metadata m = '", "output o string = ", "targetScope = '", "var x = '\\", "param x string = '''\n"]
TAILS = ["", "\n", "'", "}", "'''", "]", ")", "\nvar y = 1\n", "\\", "\0"]

# complete documents around repeated fragments: what is done with the contents of strings after the grammar has accepted them
G = "00000000-0000-0000-0000-000000000000"
FRAMES = [(f"module m '{r}", f"' = {{\n}}\n") for r in ("", "./", "../", "br:", "br:a.azurecr.io/", "br:mcr.microsoft.com/", "br:mcr.microsoft.com/bicep/", "br:a.azurecr.io/b:", "br/", "br/a:", "br/public:", "br/a:b:", "br/a:b/", "ts:", f"ts:{G}/", f"ts:{G}/r/",
          f"ts:{G}/r/n:", "ts/", "ts/a:", "ts/a:b:", "br:A.azurecr.us/", "ts:0")]
FRAMES += [("resource r '", "' = {\n}\n"), ("resource r 'A.B/", "@1' = {\n}\n"), ("resource r 'A.B/c@", "' = {\n}\n"), ("resource r 'A.B/c@1' = {\n  resource s '", "' = {\n  }\n}\n"), ("import {a} from '", "'\n"), ("import * as a from '", "'\n"), ("import '", "'\n"),
           ("import 'a@", "'\n"), ("metadata m = '", "'\n"), ("targetScope = '", "'\n"), ("var x = '", "'\n"), ("var x = '''", "'''\n"), ("var x = '''\n", "'''\n"), ("var x = {\n  '", "': 1\n}\n"), ("var x = a['", "']\n"), ("var x = format('", "', 1)\n"),
           ("@description('", "')\nparam x string\n"), ("@allowed(['", "'])\nparam x string\n"), ("type x = '", "'\n"), ("type x = 'a' | '", "'\n"), ("param x string = '", "'\n"), ("func f(a string) string => '", "'\n"), ("extension e with {\n  k: '", "'\n}\n"),
           ("var x = resourceId('", "')\n"), ("var ", " = 1\n"), ("var x = f", "(1)\n"), ("var x = ", "\n"), ("param x ", "\n"), ("type x = ", "\n"), ("var x = [", "]\n"), ("var x = [\n", "\n]\n"), ("var x = {", "}\n"), ("var x = {\n", "\n}\n"), ("@d(", ")\nparam x string\n")]
LIMIT = 10.0


class Long:
    def __init__(self, head, bits, n, tail, limit=LIMIT):
        self.head, self.bits, self.n, self.tail, self.limit = head, bits, n, tail, limit

    @property
    def text(self):
        return self.head + self.bits * self.n + self.tail

    def inputs(self):
        return f"{self.head!r} + {self.n} * {self.bits!r} + {self.tail!r}"


def judge_time(case):
    t0 = time.process_time()
    r = parse(case.text)
    dt = time.process_time() - t0
    if dt > case.limit:
        raise Violation(f"took {dt:.1f} s of processor time", case.inputs(), f"less than {case.limit} s", "too slow")
    if isinstance(r, Rejected) and isinstance(r.exc, (MemoryError, SystemError, AssertionError)):
        raise Violation(f"answered with {r!r}", case.inputs(), "a result or an error", repr(r))
    return digest_result(r) if not isinstance(r, Rejected) else "reject"


def judge_valid(case):
    """A valid document: the exact result, in time."""
    t0 = time.process_time()
    r = parse(case.text)
    dt = time.process_time() - t0
    if isinstance(r, Rejected):
        raise Violation(f"rejected: {r!r}", case.inputs(), "a result", repr(r))
    if dt > LIMIT:
        raise Violation(f"took {dt:.1f} s of processor time", case.inputs(), f"less than {LIMIT} s", "too slow")
    d = diff(case.expected(), r)
    if d:
        raise Violation(d, case.inputs(), None, d)
    return digest_result(r)


class Big:
    """A large document, described instead of printed."""

    def __init__(self, doc, label):
        self.doc, self.label = doc, label
        self.text = doc.text

    def expected(self):
        return self.doc.expected()

    def inputs(self):
        return self.label


def families(tier):
    deep = tier == "thorough"
    bits = BITS
    few = ["", "var x = ", "var x = '", "var x = '''", "/*", "var x = '${"]

    def single(c):
        return Long(c.free(HEADS), c.free(bits), 40, c.free(TAILS))

    def longer(c):
        return Long(c.free(HEADS if deep else HEADS[:12]), c.free(bits), c.free([200, 400] if deep else [300]), c.free(TAILS if deep else ["", "\n", "'"]))

    core = ["'", "''", "'''", "\\", "\\'", "\\\\", "$", "${", "}", "{", "a", "/", "*", "\n", " ", "#", "(", ")", "[", "]", ",", "1", ".", "?", ":", "!", "-", "=", "|", "@", "f(", "// c\n", "/* */", "\r\n", "_", "\t"]

    def framed(c):
        head, tail = c.free(FRAMES)
        n = c.free([40, 300] if deep else [40])
        return Long(head, c.free(bits), n, c.free(["", "!", ":", "/", ".", "a:"] if deep else ["", "!", ":"]) + tail)

    def framed_pairs(c):
        head, tail = c.free(FRAMES)
        s = ["a", "0", "-", "_", ".", "/", ":", "@", " ", "\\'", "\\\\", "${a}", "$", "{", "}", "''", "\n"]
        return Long(head, c.free(s) + c.free(s), 30, c.free(["", "!", ":"] if deep else ["!"]) + tail)

    def double(c):
        return Long(c.free(HEADS if deep else few), c.free(core) + c.free(core), 30, c.free(TAILS if deep else ["", "'"]))

    def triple(c):
        s = ["'", "\\", "$", "${", "}", "{", "a", "/", "*", "\n", "'''"]
        return Long(c.free(few), c.free(s) + c.free(s) + c.free(s), 24, c.free(["", "'", "\n"] if deep else ["", "'"]))

    def two_runs(c):
        """one run of fragments after another"""
        s = ["'", "''", "'''", "\\", "${", "}", "/*", "*/", "\n", " ", "a", "// c\n", "{", "[", "(", "1,", "a.", "$"]
        return Long(c.free(few) + c.free(s) * 30, c.free(s), 30, c.free(["", "'", "}"] if deep else [""]))

    def gaps(c):
        """long comments, blanks and line breaks at every place of a document"""
        from ..gaps import Gapped
        from .c11 import bases
        small, big = bases()
        docs = [Gapped(d) for d in (small + big if deep else small)]
        g = docs[c.free(len(docs))]
        i = c.free(len(g.gaps))
        b = c.free([" ", "\t", "/**/", "/* a */ ", "// c\n", "\n", "\r\n", "# c\n", "\n\n// c\n", "/*\n*/", " \n"])
        gaps = list(g.gaps)
        gaps[i] = b * 60 + gaps[i]
        return Long(g.variant(gaps).text, "", 0, "")

    v1 = integer(1)

    def wide(c):
        n = c.free([100, 300, 600, 1500] + ([4000] if deep else []))
        kinds = catalogue()
        what = c.free(["array", "array lines", "array rows", "object", "object comma", "arguments", "decorators", "union", "signature", "call arguments", "symbols", "string", "multi", "interpolation", "comment lines", "block comment", "blank lines",
                       "name", "integer", "children", "wrapped children", "decorated", "all kinds", "nested objects", "known calls", "conditional modules", "loops", "operators", "same names", *kinds])
        ids = [ident(f"i{i}") for i in range(n)]
        T = t_name("string")
        d = {
            "array": lambda: Doc([d_var("x", array(ids))]), "array lines": lambda: Doc([d_var("x", array(ids, "\n", "\n", "\n"))]), "array rows": lambda: Doc([d_var("x", array([array(ids[:10]) for _ in range(n // 10)], "\n", "\n", "\n"))]),
            "object": lambda: Doc([d_var("x", obj([(f"k{i}", v1) for i in range(n)], "\n", "\n", "\n"))]), "object comma": lambda: Doc([d_var("x", obj([(f"k{i}", v1) for i in range(n)]))]),
            "arguments": lambda: Doc([d_var("x", call("fn", ids))]), "decorators": lambda: Doc([d_param("x", T).with_decorators([deco("custom", i) for i in ids])]),
            "union": lambda: Doc([d_param("x", t_union([T] * n))]), "signature": lambda: Doc([d_func("f", [(f"p{i}", T) for i in range(n)], T, v1)]), "call arguments": lambda: Doc([d_var("x", access_call(ident("r"), "listX", ids))]),
            "symbols": lambda: Doc([d_import("f", [(f"s{i}", None) for i in range(n)])]), "string": lambda: Doc([d_var("x", string("ab\\'" * n))]), "multi": lambda: Doc([d_var("x", multi("a'\n" * n))]),
            "children": lambda: Doc([d_resource(f"r{i}", "A/b", "1", Body([], Child("c", "t", Body([])))) for i in range(n)]),
            "wrapped children": lambda: Doc([d_resource(f"r{i}", "A/b", "1", Body([], Child("c", "t", Body([], Child("d", "u", Body([])))), None, ("if", "loop")[i % 2])) for i in range(n // 2)]),
            "decorated": lambda: Doc([d_param(f"p{i}", T).with_decorators([deco("description", string("d")), deco("secure"), deco("allowed", array(ids[:3]))]) for i in range(n)]),
            "all kinds": lambda: Doc([kinds[k][i % len(kinds[k])](f"n{i}") for i in range(n // 4) for k in kinds]), "nested objects": lambda: Doc([d_var("x", obj([(f"k{i}", obj([("a", array([v1, v1]))])) for i in range(n)], "\n", "\n", "\n"))]),
            "known calls": lambda: Doc([d_var("x", array([call("concat", [i, call("length", [i])]) for i in ids], "\n", "\n", "\n"))]), "conditional modules": lambda: Doc([d_module(f"m{i}", "./x.bicep", deploy_if(ident("a"), obj([("a", v1)])) if i % 2 else loop("array", ["i"], ident("a"), obj([("a", v1)]))) for i in range(n)]),
            "loops": lambda: Doc([d_var(f"v{i}", loop(("array", "array_index")[i % 2], ["i", "j"], ident("a"), v1, v1)) for i in range(n)]), "operators": lambda: Doc([d_var("x", array([cond(i, binary(i, "+", v1), lnot(i)) for i in ids], "\n", "\n", "\n"))]),
            "same names": lambda: Doc([kinds[k][0](f"n{i}") for i in range(n // 4) for k in kinds]),
            "interpolation": lambda: Doc([d_var("x", string("${a}${f('b')}" * n))]), "comment lines": lambda: Doc([d_var("x", v1), d_var("y", v1)], "\n// c" * n + "\n"), "block comment": lambda: Doc([d_var("x", v1)], "\n", "/*" + "* a\n" * n + "*/\n"),
            "blank lines": lambda: Doc([d_var("x", v1), d_var("y", v1)], "\n" * n), "name": lambda: Doc([d_var("x" * n, v1)]), "integer": lambda: Doc([d_var("x", integer(int("1" * min(n, 4000))))]),
        }
        doc = d[what]() if what in d else Doc([kinds[what][i % len(kinds[what])](f"n{i}") for i in range(n)])
        return Big(doc, f"{what}, {n} times")

    def nested(c):
        depth = c.free([5, 10, 20, 30, 40])
        name, wrap = c.free([
            ("arrays", lambda v: array([v])), ("array lines", lambda v: array([v], "\n", "\n", "\n")), ("objects", lambda v: obj([("k", v)], "\n", "\n", "\n")), ("mixed", lambda v: obj([("k", array([v]))])), ("parentheses", paren),
            ("calls", lambda v: call("fn", [v])), ("known calls", lambda v: call("concat", [v, v1])), ("last arguments", lambda v: call("fn", [v1, v])), ("ternary false", lambda v: cond(ident("a"), v1, v)), ("ternary true", lambda v: cond(ident("a"), paren(v), v1)),
            ("ternary test", lambda v: cond(paren(v), v1, v1)), ("negations", lambda v: lnot(v)), ("minus", lambda v: neg(v)), ("indexes", lambda v: index(ident("a"), v)), ("index chains", lambda v: index(v, v1)), ("lambdas", lambda v: lam(["x"], v)),
            ("right operands", lambda v: binary(v1, "+", v)), ("left operands", lambda v: binary(paren(v), "*", v1)), ("properties", lambda v: binary(ident("a"), ".", v)), ("coalesce", lambda v: binary(ident("a"), "??", v)),
            ("calls of members", lambda v: access_call(v, "listKeys", [])), ("marks", bang)])
        host = c.free(["var", "output", "param_default", "resource_property", "decorator_unknown", "loop_body"])
        v = c.free([v1, string("s"), ident("z")])
        for _ in range(depth):
            v = wrap(v)
        return Big(host_positions()[host](v), f"{depth} nested {name} in {host}: {v.src[:60]}")

    def nested2(c):
        """two kinds of nesting in turn"""
        ws = [("array", lambda v: array([v])), ("object", lambda v: obj([("k", v)])), ("paren", paren), ("call", lambda v: call("fn", [v])), ("cond", lambda v: cond(ident("a"), paren(v), v1)), ("not", lnot), ("index", lambda v: index(ident("a"), v)),
              ("lambda", lambda v: lam(["x"], v)), ("plus", lambda v: binary(v1, "+", v)), ("acall", lambda v: access_call(ident("r"), "listA", [v]))]
        (n1, w1), (n2, w2) = c.free(ws), c.free(ws)
        v = v1
        for _ in range(c.free([5, 15])):
            v = w1(w2(v))
        return Big(host_positions()[c.free(["var", "resource_property"])](v), f"nested {n1} and {n2}: {v.src[:80]}")

    def children(c):
        depth, wrap = c.free([1, 5, 10, 20]), c.free(["object", "if", "loop"])
        body = Body([("k", v1)])
        for i in range(depth):
            body = Body([("k", v1)], Child(f"c{depth - i}", "t", body), None, wrap)
        return Big(Doc([d_resource("r", "A.B/c", "1", body)]), f"{depth} nested child resources ({wrap})")

    def types(c):
        depth = c.free([5, 10, 20, 30])
        how = c.free(["array", "union", "union last", "both"])
        t = t_name("string")
        for _ in range(depth):
            t = t_array(t) if how == "array" else t_union([t, t_name("int")]) if how == "union" else t_union([t_name("int"), t]) if how == "union last" else t_array(t_union([t_name("int"), t]))
        return Big(Doc([d_param("x", t), d_func("f", [("a", t)], t, v1)]), f"{depth} nested types ({how})")

    def strings(c):
        """strings in interpolations in strings"""
        n = c.free([1, 2, 3, 5, 8, 12, 16, 20, 30])
        core_ = c.free(["x", "a.b", "f(1)", "'y'"])
        pre, post = c.free(["", "a"]), c.free(["", "b"])
        s = core_
        for _ in range(n):
            s = f"'{pre}${{{s}}}{post}'"
        return Big(Doc([d_var("x", V(s, s[1:-1]))]), f"{n} nested interpolations: {s[:60]}")

    return [Family("repeated fragments", single, judge_time), Family("often repeated fragments", longer, judge_time), Family("framed fragments", framed, judge_time), Family("framed pairs", framed_pairs, judge_time), Family("repeated pairs", double, judge_time), Family("repeated triples", triple, judge_time), Family("two runs", two_runs, judge_time),
            Family("long gaps", gaps, judge_time), Family("wide documents", wide, judge_valid), Family("deep documents", nested, judge_valid), Family("alternating nesting", nested2, judge_valid), Family("deep children", children, judge_valid),
            Family("deep types", types, judge_valid), Family("nested strings", strings, judge_valid)]


def run(check):
    check.HANG_S = 25.0
    check.assumptions.append("'reasonable' means less than 10 s of processor time where a few milliseconds are usual")
    check.explore(families(check.tier), warm)
