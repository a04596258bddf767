"""C22: what calls leave behind in the process: nothing."""
import gc
import os
import pathlib
import sys
import tempfile

from ..common import *
from ..core import Family, Skip, Violation, digest
from ..iso import ChildDied, forked, neutral_warm
from ..procstate import Streams, changed, snapshot
from .c01 import BAD_SCOPES
from .c09 import INVALID
from .c18 import sample_texts

STATE = {}


def texts():
    from .c13 import texts as base
    T = dict(base())
    T["deep"] = "var x = " + "(" * 30 + "1" + ")" * 30 + "\n"
    T["deeper"] = "var x = " + "[" * 400 + "1" + "]" * 400 + "\n"
    T["long name"] = Doc([d_var("x" * 3000, ident("y" * 3000))]).text
    T["digits"] = "var x = 1" + "0" * 4400 + "\n"
    T["decorated"] = Doc([d_param("p", t_name("int"), neg(integer(5))).with_decorators([deco("minValue", neg(integer(9)), [-9])]), d_var("f", call("fn", [NULL, call("utcNow", [])]))]).text
    T["modules"] = Doc([d_module("m", "br:mcr.microsoft.com/a/b:1", obj([]), {"type": "bicep_registry", "detail": {}}), d_module("n", "./x.bicep", obj([]))]).text
    T["badref"] = T["modules"] + "module o 'ts:x' = {\n}\n"
    T["characters"] = "var é = '中\U0001f600'\n"
    T["null"] = "var x = '\x00'\n"
    T["surrogate"] = "var x = '\ud800'\n"
    T["comments"] = "// c\n/* d */ # e\n" * 20
    T["unknown"] = Doc([d_param("p", t_name("int")).with_decorators([deco("custom"), deco("sys.custom", integer(1)), deco("secure")]), d_var("x", call("az.fn", [call("map", [ident("a"), lam(["v"], ident("v"))])]))]).text
    T["wide"] = Doc([d_var(f"v{i}", integer(i)) for i in range(120)]).text
    for k, fs in catalogue().items():
        for i, f in enumerate(fs):
            T[f"{k} {i}"] = Doc([f("x")]).text
    return T


def prepare():
    from pycep import BicepParser
    STATE["class"] = BicepParser
    STATE["texts"] = T = texts()
    STATE["parsers"] = {"A": BicepParser(cache=False), "B": BicepParser(add_line_numbers=True, cache=False)}
    for p in STATE["parsers"].values():
        neutral_warm(p, T.values())


FILES = ["full", "syntax", "quotes", "semantic", "char", "empty", "null"]


def operations():
    T = texts()
    return ([("parse", p, n) for p in "AB" for n in T] + [("tree", "A", n) for n in T if " " not in n] + [("file", "A", n) for n in FILES] + [("file", "B", "full")] +
            [("tree file", "A", n) for n in ("full", "syntax", "quotes")] +
            [(k, "A", n) for k in ("file", "tree file") for n in ("no file", "directory", "no utf-8", "not readable")] +
            [("nothing",), ("both",), ("tree nothing",), ("tree both",), ("bytes",), ("positional",), ("str path",)] +
            [("new", c, l) for c in ("off", "cold", "warm", "broken") for l in (False, True)] + [("new", "bad option", False)])


def path(tmp, n):
    f = pathlib.Path(tmp) / "f.bicep"
    if n == "no file":
        return f.with_name("none.bicep")
    if n == "directory":
        return pathlib.Path(tmp)
    f.write_bytes(b"var x = '\xff\xfe'\n" if n == "no utf-8" else STATE["texts"][n].encode() if n in STATE["texts"] else b"var x = 1\n")
    if n == "not readable":
        return f / "below"
    return f


def perform(op, tmp):
    """One operation; whatever it answers is forgotten."""
    k, T = op[0], STATE["texts"]
    p = STATE["parsers"][op[1]] if len(op) == 3 and k != "new" else STATE["parsers"]["A"]
    if k == "new":
        opts = {"add_line_numbers": op[2], "cache": op[1] != "off"}
        if op[1] == "bad option":
            opts = {"unknown": 1}
        if op[1] == "warm":
            STATE["class"](**opts)
        if op[1] == "broken":
            STATE["class"](**opts)
            for f in pathlib.Path(tmp).rglob("*"):
                if f.is_file() and f.name != "f.bicep":
                    f.write_bytes(f.read_bytes()[:100])
    f = path(tmp, op[2]) if k in ("file", "tree file") else None
    before = snapshot()
    with Streams() as s:
        try:
            if k == "parse":
                p.parse(text=T[op[2]])
            elif k == "tree":
                p.create_tree(text=T[op[2]])
            elif k == "file":
                p.parse(file_path=f)
            elif k == "tree file":
                p.create_tree(file_path=f)
            elif k == "nothing":
                p.parse()
            elif k == "both":
                p.parse(text="", file_path=pathlib.Path(tmp))
            elif k == "tree nothing":
                p.create_tree()
            elif k == "tree both":
                p.create_tree(text="", file_path=pathlib.Path(tmp))
            elif k == "bytes":
                p.parse(text=b"var x = 1\n")
            elif k == "positional":
                p.parse("var x = 1\n")
            elif k == "str path":
                p.parse(file_path="f.bicep")
            elif k == "new":
                STATE["class"](**opts)
        except Exception as e:
            error = e  # noqa: F841  what it refers to stays alive until everything is compared
        out = s.written()
    if out and not (k == "new" and op[1] == "broken"):  # the parsing library reports a cache that it cannot read
        return f"{out[:300]!r} was written to the standard streams"
    return changed(before, snapshot())


def history(ops):
    with tempfile.TemporaryDirectory(prefix="c22-") as tmp:
        os.environ["TMPDIR"] = tmp
        tempfile.tempdir = None
        for i, op in enumerate(ops):
            bad = perform(op, tmp)
            if bad:
                return f"step {i} {op}: {bad}"
    return None


class Ops(list):
    def inputs(self):
        return str(list(self))


def judge(ops):
    try:
        bad = forked(lambda: history(ops))
    except ChildDied as e:
        raise Violation(str(e), ops.inputs()) from None
    if bad:
        raise Violation(bad, ops.inputs(), "nothing changes", bad)
    return digest(ops.inputs())


class Text_(str):
    def inputs(self):
        return str(self)


def judge_text(t):
    def both():
        with tempfile.TemporaryDirectory(prefix="c22-") as tmp:
            STATE["texts"]["this"] = str(t)
            return [perform(("parse", p, "this"), tmp) for p in "AB"]
    try:
        bad = next(filter(None, forked(both)), None)
    except ChildDied as e:
        raise Violation(str(e), t.inputs()) from None
    if bad:
        raise Violation(bad, t.inputs(), "nothing changes", bad)
    return digest(t)


class Grow:
    """The same kind of call for a long time, every one with a text of its own."""

    def __init__(self, kind, shape, p, n):
        self.kind, self.shape, self.p, self.n = kind, shape, p, n

    def inputs(self):
        return f"{self.kind} of {self.n} different documents ({self.shape}), parser {self.p}"

    def text(self, i):
        s = self.shape
        if s == "variable":
            return f"var v{i} = 's{i}'\n"
        if s == "values":
            return f"@description('d{i}')\nparam p{i} object = {{\n  k{i}: fn{i}([{i}, a{i}.b{i}], 'x${{y{i}}}')\n}}\n"
        if s == "resource":
            return f"resource r{i} 'A{i}.B/c@{i}' = {{\n  name: 'n{i}'\n  resource c{i} 't{i}' = {{\n    k: {i}\n  }}\n}}\nimport {{i{i} as j{i}}} from 'f{i}.bicep'\n"
        if s == "syntax error":
            return f"var v{i} = 's{i}'\nvar {i} =\n"
        if s == "meaning error":
            return f"var v{i} = 's{i}'\nmodule m{i} 'br:{i}' = {{\n}}\n"
        if s == "quotes error":
            return f"var v{i} = '''{i}\n"
        if s == "character error":
            return f"var v{i} = {i}\n%{i}\n"
        raise ValueError(s)

    def run(self):
        with tempfile.TemporaryDirectory(prefix="c22-") as tmp:
            f = pathlib.Path(tmp) / "f.bicep"
            p = STATE["parsers"].get(self.p)
            marks = [self.n // 2, 3 * self.n // 4, self.n]
            sizes = []
            for i in range(100000, 100000 + self.n + 1):
                if i - 100000 in marks:
                    gc.collect()
                    sizes.append((sys.getallocatedblocks(), len(os.listdir("/proc/self/fd")), threads()))
                if self.kind == "new":
                    q = STATE["class"](cache=False)
                    q.parse(text=self.text(i))
                    del q
                    continue
                t = self.text(i)
                try:
                    if self.kind == "file":
                        f.write_bytes(t.encode())
                        p.parse(file_path=f)
                    elif self.kind == "tree":
                        p.create_tree(text=t)
                    else:
                        p.parse(text=t)
                except Exception:
                    pass
            step = (marks[1] - marks[0])
            a, b, c = sizes
            per = 0.4 if self.kind != "new" else 400
            if b[0] - a[0] > per * step and c[0] - b[0] > per * step:
                return f"memory of every document is kept: {[x[0] for x in sizes]} blocks after {marks} documents"
            if c[1] > a[1] or c[2] > a[2]:
                return f"open files and threads after {marks} documents: {[x[1:] for x in sizes]}"
        return None


def threads():
    import threading
    return threading.active_count()


def judge_growth(g):
    try:
        bad = forked(g.run, timeout=300.0)
    except ChildDied as e:
        raise Violation(str(e), g.inputs()) from None
    if bad:
        raise Violation(bad, g.inputs(), "what a document took is given back", bad)
    return digest(g.inputs())


SHAPES = ["variable", "values", "resource", "syntax error", "meaning error", "quotes error", "character error"]


def families(tier):
    if not STATE:
        prepare()
    deep = tier == "thorough"
    every = operations()
    special = contents()
    pos = value_positions()

    def values(c):
        """every kind of value in every place"""
        p = c.free([None, *pos])
        v = c.free([*basic_values(), *(special if p is None or deep else [])])
        return Text_(Doc([d_var("x", v if p is None else pos[p](v))]).text)

    def calls(c):
        """every function and decorator"""
        if c.free(2):
            w, k = c.free([(w, k) for w in [*FUNCS, "fn", "map", "az.fn"] for k in (FUNCS[w][2] if w in FUNCS else (0, 1, 2))])
            ns = c.free(["", "ns"]) and w in FUNCS and FUNCS[w][0] + "."
            return Text_(Doc([d_var("x", call((ns or "") + w, [ident(f"a{i}") for i in range(k)]))]).text)
        w = c.free([*DECOS, "custom", "discriminator"])
        return Text_(f"@{c.free(['', 'sys.'])}{w}({c.free(['', '1', '-1', 'x'])})\n{c.free(['param x int', 'var x = 1', 'type x = int'])}\n")

    samples = sample_texts()
    samples += [f"{d}module m '{p}' = {{\n}}\n" for d in ("", "@custom()\n") for p in INVALID] + [f"targetScope = '{x}'\n" for x in BAD_SCOPES] + [f"resource r '{x}' = {{\n}}\n" for x in ("A", "", "@", "A@1@2", "A@", "@1", "a b@1")]

    def sampled(c):
        """rejected and accepted texts of other checks"""
        return Text_(c.free(samples))

    core = [o for o in every if o[0] in ("nothing", "both", "tree both") or o[-1] in ("full", "syntax", "semantic", "quotes", "deeper", "no file", "no utf-8")]

    def single(c):
        return Ops([c.free(every)])

    def pairs(c):
        """every operation after every other one"""
        a = c.free(every if deep else core)
        b = c.free(every)
        if "new" in (a[0], b[0]) and not deep:
            raise Skip
        return Ops([a, b])

    def triples(c):
        return Ops([c.free(core) for _ in range(3)])

    def growth(c):
        k = c.free(["parse", "file", "tree"])
        s = c.free(SHAPES)
        return Grow(k, s, c.free("AB") if k == "parse" else "A", 12000 if deep else 3000)

    def parsers(c):
        return Grow("new", c.free(SHAPES[:3]), "-", 80 if deep else 24)

    return [Family("samples", sampled, judge_text), Family("parsers", parsers, judge_growth), Family("growth", growth, judge_growth), Family("values", values, judge_text), Family("functions and decorators", calls, judge_text), Family("single calls", single, judge), Family("pairs", pairs, judge),
            *([Family("triples", triples, judge)] if deep else [])]


def run(check):
    check.explore(families(check.tier))
    check.assumptions.append("every history runs in a process forked from a state in which the parsers are built and have not parsed anything")
