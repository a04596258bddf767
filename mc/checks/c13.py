"""C13: histories of operations on parsers; every answer is compared with that of a fresh parser."""
import copy
import os
import pathlib
import shutil
import tempfile

from ..common import *
from ..core import Family, Skip, Violation, canon, digest, warm
from ..iso import ChildDied, forked, neutral_warm, outcome

STATE = {}


def texts():
    """name -> text; documents with everything a parser could keep, and ways to fail late."""
    child = Body([("k", integer(1))], Child("c1", "t1", Body([("l", integer(2))], Child("c2", "t2", Body([("m", array([integer(3)]))])))))
    full = Doc([d_import("f.bicep", [("imp", "al")]), d_namespace("ns@1.0"), d_extension("ext", obj([("k", integer(1))])),
                d_metadata("md", "v"), d_resource("r", "A.B/c", "1", child),
                d_param("p", t_name("string"), string("d")).with_decorators([deco("description", string("x")), deco("secure")]),
                d_output("o", t_array(t_name("int")), array([integer(1)])), d_func("f", [("a", t_name("int"))], t_name("int"), ident("a")),
                d_type("ty", obj([("k", ident("int"))])), d_module("m", "./m.bicep", obj([("k", obj([]))]))])
    same = full.text.replace("'f.bicep'", "'g.bicep'").replace("(3)", "(4)").replace("[3]", "[4]")
    assert len(same) == len(full.text)
    loops = Doc([d_resource("r", "A.B/c", "2", Body([("k", integer(1))], Child("c1", "t1", Body([("l", integer(2))], wrap="if")), 0, "loop")),
                 d_import("h.bicep", [("imp", None)], False)])
    return {
        "empty": "", "var": "var x = 1\n", "var2": "var x = 2\n", "param": "param x string\n", "full": full.text, "same": same, "loops": loops.text,
        "scope": "targetScope = 'tenant'\nvar x = [1, {k: 2}]\n",
        "syntax": full.text + "var y = \n",            # fails in the grammar, at the very end
        "in_deco": full.text + "@description('z')\n",   # fails at the end of the input
        "semantic": full.text + "targetScope = 'x'\n",  # fails while the result is built
        "semantic2": "import {i2} from 'x'\nresource r2 'A@1' = {\n  resource c9 't9' = {\n  }\n}\nmodule m 'br:x' = {\n}\n",
        "quotes": full.text + "var z = '''open\n",
        "char": "var a = 1\n%%\n",
    }


def look_alikes():
    """Texts that a careless key, normalisation or comparison takes for one another."""
    import unicodedata
    t = "// top\nparam p string = 'Ab  c\u00e9'\nvar v = [\n  7\n  'x'\n  p\n]\nvar w = \'\'\'\n  one\n   two\n\'\'\'\noutput o array = v // end\n"
    n = t.replace
    out = [t, t + "\n", "\n" + t, " " + t, t + " ", t + "\n\n\n", "\n\n" + t, t[:-1], t + "\t", "\r\n" + t, n("\n", "\r\n"), t + "// more\n", n("// top\n", ""), n("// top", "// Top"), n(" // end", ""),
           n("Ab", "ab"), n("Ab", "AB"), n("  c", " c"), n("  c", "   c"), n("  c", "\t c"), unicodedata.normalize("NFD", t), n("\u00e9", "e"), n("7", "07"), n("7", "8"), n("'x'", "x"),
           n("  p\n", "  'p'\n"), n("  p\n", "  P\n"), n("   two", "  two"), n("   two", "   two "), n("  one\n   two", "   one\n  two"), n("var v", "var V"), n("param p", "param P"), n("  7\n  'x'", "  'x'\n  7"),
           n("  7\n", "  7, "), n("string", "String"), n("array", "object"), t + t, n("var w", "var v"), t + "var", t + "}", t + "var u = 1\n", "var u = 1\n" + t, t[:len(t) // 2], t[len(t) // 2:], t[:-2], t.lower(),
           t.upper(), t[::-1], "\ufeff" + t, t + "\x00", t + "\ufeff", n("'Ab", "'Ab\x00"), n("Ab", "bA"), n("v // end", "w // end"), n("'x'", "'x' // x"), n("'x'", "'x' /* x */"), n("= v //", "= (v) //"),
           n("'x'", "'${x}'"), n("'x'", "'$x'"), n("'x'", "'\\u{78}'"), "targetScope = 'tenant'\n" + t, "@secure()\n" + t, n("= 'Ab", "= \n'Ab"), "", "\n", " ", "// top\n"]
    return list(dict.fromkeys(out))


SETTINGS = {"A": False, "B": True, "C": False}


def prepare():
    from pycep import BicepParser
    T = texts()
    # only unused parsers: every history starts in a child process from this state
    STATE["parsers"] = {n: BicepParser(add_line_numbers=s, cache=False) for n, s in SETTINGS.items()}
    for p in STATE["parsers"].values():
        neutral_warm(p, T.values())
    STATE["texts"] = T
    STATE["ref"] = {}
    for name, text in T.items():
        for p in SETTINGS:
            STATE["ref"]["parse", p, name] = forked(lambda: outcome(lambda: STATE["parsers"][p].parse(text=text)))
            STATE["ref"]["tree", p, name] = forked(lambda: outcome(lambda: STATE["parsers"][p].create_tree(text=text)))
    L = STATE["alike"] = look_alikes()
    for p in STATE["parsers"].values():
        neutral_warm(p, L)
    for i, text in enumerate(L):
        for p in "AB":
            STATE["ref"]["parse", p, i] = forked(lambda: outcome(lambda: STATE["parsers"][p].parse(text=text)))
            STATE["ref"]["tree", p, i] = forked(lambda: outcome(lambda: STATE["parsers"][p].create_tree(text=text)))
    with tempfile.TemporaryDirectory(prefix="c13-") as tmp:
        f = pathlib.Path(tmp) / "f.bicep"
        for i, text in enumerate(L):
            f.write_bytes(text.encode())
            for p in "AB":
                r = forked(lambda: outcome(lambda: STATE["parsers"][p].parse(file_path=f)))
                STATE["ref"]["file", p, i] = strip(r, tmp)
    STATE["nothing"] = forked(lambda: outcome(lambda: STATE["parsers"]["A"].parse()))
    STATE["file"] = {}
    tmp = tempfile.mkdtemp(prefix="c13-")
    try:
        f = pathlib.Path(tmp) / "f.bicep"
        for name, text in T.items():
            f.write_bytes(text.encode())
            for p in SETTINGS:
                r = forked(lambda: outcome(lambda: STATE["parsers"][p].parse(file_path=f)))
                STATE["file"][p, name] = strip(r, tmp)
    finally:
        shutil.rmtree(tmp)


def strip(out, tmp):
    return tuple(strip(x, tmp) if isinstance(x, tuple) else x.replace(str(tmp), "TMP") if isinstance(x, str) else x for x in out)


def wreck(v):
    """Destroys everything that is reachable from a result."""
    if isinstance(v, dict):
        for x in list(v.values()):
            wreck(x)
        v.clear()
        v["wrecked"] = 1
    elif isinstance(v, list):
        for x in v:
            wreck(x)
        v[:] = ["wrecked"]


def history(ops):
    """Runs one history; None or a description of the first deviation.  Runs in a child process."""
    ps, T, ref = STATE["parsers"], STATE["texts"], STATE["ref"]
    results = []  # (step, value, canonical text when it was returned)
    tmp = None
    try:
        for i, op in enumerate(ops):
            kind = op[0]
            keep = []

            def call(fn):
                def g():
                    v = fn()
                    keep.append(v)
                    return v
                return outcome(g)

            if kind in ("parse", "tree"):
                _, p, name = op
                text = "".join(T[name])  # a new string object where Python allows it
                got = call(lambda: ps[p].parse(text=text) if kind == "parse" else ps[p].create_tree(text=text))
                want = ref[op]
            elif kind == "file":
                _, p, name = op
                if tmp is None:
                    tmp = tempfile.mkdtemp(prefix="c13-")
                f = pathlib.Path(tmp) / "f.bicep"
                f.write_bytes(T[name].encode())
                os.utime(f, ns=(10**18, 10**18))
                got = strip(call(lambda: ps[p].parse(file_path=f)), tmp)
                want = STATE["file"][p, name]
            elif kind == "wreck":
                if results:
                    wreck(results.pop()[1])
                continue
            elif kind == "nothing":
                got, want = call(lambda: ps["A"].parse()), STATE["nothing"]
            if got != want:
                return f"step {i} {op}: {str(got)[:800]} instead of {str(want)[:800]}"
            if keep and kind != "tree":
                results.append((i, keep[0], canon(keep[0])))
            for j, v, c in results[:-1]:
                if canon(v) != c:
                    return f"the result of step {j} {ops[j]} changed in step {i} {op}"
        return None
    finally:
        if tmp:
            shutil.rmtree(tmp)


def judge(ops):
    try:
        bad = forked(lambda: history(ops))
    except ChildDied as e:
        raise Violation(str(e), str(ops)) from None
    if bad:
        raise Violation(bad, str(ops), "the answer of a fresh parser", bad)
    return digest(str(ops))


class Ops(list):
    def inputs(self):
        return str(list(self))


def families(tier):
    if not STATE:
        prepare()
    deep = tier == "thorough"
    names = list(STATE["texts"])
    every = ([("parse", p, n) for p in "AB" for n in names] + [("parse", "C", n) for n in ("full", "semantic")] +
             [("tree", "A", n) for n in ("full", "syntax")] + [("file", "A", n) for n in ("full", "same", "var", "quotes")] + [("file", "B", "full")] +
             [("wreck",), ("nothing",)])
    core = [("parse", "A", n) for n in ("var", "full", "loops", "semantic", "semantic2", "syntax")] + [("parse", "B", "full"), ("parse", "B", "var"), ("parse", "C", "full"), ("tree", "A", "full"),
            ("file", "A", "full"), ("file", "A", "same"), ("wreck",)]

    def short(c):
        return Ops(c.free(every) for _ in range(2))

    def triples(c):
        if deep:
            return Ops(c.free(every) for _ in range(3))
        return Ops([c.free(core), c.free(every), c.free(core)])

    def quads(c):
        return Ops(c.free(core if deep else core[::2]) for _ in range(4))

    def long(c):
        """many operations on one parser, at every phase of a cycle of operations"""
        n = c.free([8, 16, 32, 64, 128, 129, 256, 257, 300] + ([512, 1024, 1025, 2048] if deep else []))
        cycle = c.free([[("parse", "A", "full")], [("parse", "A", "semantic")], [("parse", "A", "syntax")], [("parse", "A", "full"), ("parse", "B", "full")],
                        [("file", "A", "same"), ("file", "A", "full")], [("parse", "A", "full"), ("wreck",)], [("parse", "A", x) for x in names],
                        [("tree", "A", "full"), ("parse", "B", "loops"), ("parse", "C", "semantic2")]])
        last = c.free([("parse", "A", "full"), ("parse", "B", "loops"), ("parse", "C", "same")])
        ops = []
        while len(ops) < n:
            ops += cycle
        # results are destroyed now and then: otherwise comparing all earlier ones is quadratic
        out = Ops()
        for i, o in enumerate(ops):
            out.append(o)
            if i % 4 == 3:
                out += [("wreck",)] * 4
        return Ops([*out, last, last])

    def many_calls(c):
        """what changes after a thousand calls"""
        n = c.free([500, 999, 1000, 1001, 1023, 1024, 1025] + ([2050, 4100, 10001] if deep else []))
        op = c.free([("parse", "A", "var"), ("parse", "B", "var"), ("parse", "A", "syntax"), ("file", "A", "var"), ("tree", "A", "var")])
        last = c.free([[("parse", "A", "full"), ("parse", "B", "full"), ("parse", "A", "semantic")], [("parse", "B", "full"), ("parse", "C", "full"), ("parse", "A", "full")]])
        out = Ops()
        while n > 0:
            out += [op] * min(n, 8) + [("wreck",)] * 8
            n -= 8
        return Ops([*out, *last, *last])

    def similar(c):
        """two texts that agree in length and almost everywhere, one after the other"""
        size = c.free([1, 10, 100, 1000, 10000])
        at = c.free(["front", "middle", "back", "case", "blank"])
        how = c.free(["parse", "file"])
        p = c.free("AB")
        return Similar(size, at, how, p)

    def judge_similar(s):
        try:
            bad = forked(s.run)
        except ChildDied as e:
            raise Violation(str(e), s.inputs()) from None
        if bad:
            raise Violation(bad, s.inputs(), "", bad)
        return digest(s.inputs())

    def many(c):
        """many different texts of one length on one parser, and the first ones again"""
        n = c.free([3, 10, 33, 65, 129, 257, 600] + ([1025, 3000] if deep else []))
        lead = c.free([0, 40, 100, 300])
        return Many(n, lead, c.free(["parse", "file", "tree"]), c.free("AB"))

    def alike(c):
        """two texts that are nearly the same, one after the other"""
        n = len(STATE["alike"])
        i = c.free(n)
        j = c.free(n) if i == 0 or deep else c.free([0, *range(1, n, 4)])
        if i == j:
            raise Skip
        k1, k2 = c.free(["parse", "file", "tree"]), c.free(["parse", "file", "tree"])
        if "parse" not in (k1, k2) and k1 != k2:
            raise Skip
        return Alike(i, j, k1, k2, c.free("AB"))

    return [Family("look-alikes", alike, judge_similar), Family("many texts", many, judge_similar), Family("pairs", short, judge), Family("triples", triples, judge), Family("quadruples", quads, judge), Family("long histories", long, judge), Family("many calls", many_calls, judge),
            Family("similar texts", similar, judge_similar)]


class Similar:
    def __init__(self, size, at, how, p):
        self.size, self.at, self.how, self.p = size, at, how, p

    def inputs(self):
        return f"similar texts, size {self.size}, different at {self.at}, {self.how}, parser {self.p}"

    def run(self):
        return similar_history(self)

    def docs(self):
        s = ["x"] * self.size
        a, b = list(s), list(s)
        i = {"front": 0, "middle": self.size // 2, "back": -1, "case": self.size // 2, "blank": 0}[self.at]
        a[i], b[i] = ("y", "Y") if self.at == "case" else (" ", "\t") if self.at == "blank" else ("a", "b")
        return [Doc([d_var("v", string("".join(x))), d_param("p", t_name("int"))]) for x in (a, b)]


class Alike:
    def __init__(self, i, j, k1, k2, p):
        self.i, self.j, self.k1, self.k2, self.p = i, j, k1, k2, p

    def inputs(self):
        L = STATE["alike"]
        return f"parser {self.p}: {self.k1} of {L[self.i]!r}, {self.k2} of {L[self.j]!r}, {self.k1} of the first, {self.k2} of the second"

    def run(self):
        L, ref, p = STATE["alike"], STATE["ref"], STATE["parsers"][self.p]
        with tempfile.TemporaryDirectory(prefix="c13-") as tmp:
            f = pathlib.Path(tmp) / "f.bicep"
            for i, k in ((self.i, self.k1), (self.j, self.k2), (self.i, self.k1), (self.j, self.k2)):
                if k == "file":
                    f.write_bytes(L[i].encode())
                    os.utime(f, ns=(10**18, 10**18))
                    got = strip(outcome(lambda: p.parse(file_path=f)), tmp)
                else:
                    got = outcome(lambda: p.parse(text=L[i]) if k == "parse" else p.create_tree(text=L[i]))
                want = ref[k, self.p, i]
                if got != want:
                    return f"{k} of {L[i]!r}: {str(got)[:600]} instead of {str(want)[:600]}"
        return None


class Many:
    def __init__(self, n, lead, how, p):
        self.n, self.lead, self.how, self.p = n, lead, how, p

    def inputs(self):
        return f"{self.n} texts that begin with {self.lead} equal characters, {self.how}, parser {self.p}"

    def run(self):
        from ..core import diff
        p = STATE["parsers"][self.p]
        head = Doc([d_metadata("m", "x" * self.lead)]).text if self.lead else ""
        docs = [Doc(([d_metadata("m", "x" * self.lead)] if self.lead else []) + [d_var("v", integer(100000 + i)), d_param("p", t_name("int"))]) for i in range(self.n)]
        assert all(d.text.startswith(head) for d in docs)
        with tempfile.TemporaryDirectory(prefix="c13-") as tmp:
            f = pathlib.Path(tmp) / "f.bicep"
            order = [*range(self.n), 0, 1, self.n // 2, self.n - 1, 0, 2, *range(min(self.n, 70))]
            for i in order:
                d = docs[i]
                # a text of its own for each call, which is freed afterwards: the next one may get its place in memory
                text = d.text.encode().decode()
                if self.how == "tree":
                    if str(100000 + i) not in (got := p.create_tree(text=text)):
                        return f"the tree of text {i} does not contain {100000 + i}: {got}"
                    continue
                if self.how == "file":
                    f.write_bytes(d.text.encode())
                    os.utime(f, ns=(10**18, 10**18))
                    r = p.parse(file_path=f)
                else:
                    r = p.parse(text=text)
                bad = diff(d.expected(self.p == "B"), r)
                if bad:
                    return f"text {i}: {bad}"
                del text, r
        return None


def similar_history(s):
    from ..core import diff
    ps = STATE["parsers"]
    d1, d2 = s.docs()
    with tempfile.TemporaryDirectory(prefix="c13-") as tmp:
        f = pathlib.Path(tmp) / "f.bicep"
        old = []
        for d in (d1, d2, d1, d1, d2):
            if s.how == "file":
                f.write_bytes(d.text.encode())
                os.utime(f, ns=(10**18, 10**18))
                r = ps[s.p].parse(file_path=f)
            else:
                r = ps[s.p].parse(text=d.text)
            bad = diff(d.expected(s.p == "B"), r)
            if bad:
                return bad
            old.append((r, copy.deepcopy(r)))
            for a, b in old:
                if diff(b, a):
                    return "an earlier result changed: " + diff(b, a)
            if len(old) == 3:
                wreck(old.pop()[0])
    return None


def run(check):
    check.explore(families(check.tier))
    check.assumptions.append("every history runs in a process forked from a state in which the parsers are built and have not parsed anything")
