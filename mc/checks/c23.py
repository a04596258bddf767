"""C23: calls that are broken off, at every point; the next ones answer as if nothing had happened."""
import ast
import functools
import os
import pathlib
import sys
import tempfile

from ..common import *
from ..core import REPO, Family, Skip, Violation, canon, digest
from ..iso import ChildDied, forked, neutral_warm, outcome
from ..procstate import changed, snapshot

STATE = {}


class Stop(BaseException):
    """Something that nobody else raises, like KeyboardInterrupt."""


class Timeout(Exception):
    """Raised by a signal handler of the caller, say."""


# no exceptions that code may expect and handle where they are raised
ERRORS = {"stop": Stop, "interrupt": KeyboardInterrupt, "timeout": Timeout, "memory": MemoryError}


def texts():
    child = Body([("k", integer(1))], Child("c1", "t1", Body([("l", string("s"))])))
    full = Doc([d_import("f.bicep", [("imp", "al")]), d_resource("r", "A.B/c", "1", child), d_scope("tenant"),
                d_param("p", t_name("string"), call("fn", [NULL])).with_decorators([deco("description", string("x"))]),
                d_output("o", t_array(t_name("int")), binary(ident("a"), "+", integer(1))), d_module("m", "br/public:a:1", obj([]), MODULE)])
    return {
        "var": "var x = 1\n", "empty": "", "full": full.text, "imports": "import {a as b, c} from 'f.bicep'\nimport * as d from 'g.bicep'\nvar x = [1, {k: 2}]\n",
        "children": "resource r 'A@1' = {\n  resource c 't' = {\n    k: 'v'\n    resource d 'u' = {\n    }\n  }\n}\nresource s 'B@2' = if (true) {\n}\n",
        "values": "@secure()\nparam p object = {\n  a: b.c ? -1 : !d\n  e: toUpper('x')\n  f: '''\nm'''\n}\nvar l = [for x in y: x]\n",
        "syntax": "import {a} from 'f.bicep'\nvar y = \n", "semantic": "resource r 'A@1' = {\n  resource c 't' = {\n  }\n}\nmodule m 'br:x' = {\n}\n", "quotes": "var z = 1\nvar y = '''open\n",
    }


MODULE = {"type": "bicep_registry_alias", "detail": {"full": "public:a:1", "alias": "public", "path": "a", "tag": "1", "public": True}}
AFTER = [("parse", "A", "empty"), ("parse", "A", "full"), ("parse", "A", "semantic"), ("parse", "B", "empty"), ("parse", "B", "children"), ("tree", "A", "var"), ("file", "A", "imports")]
MINE = os.path.join(os.path.realpath(REPO), "pycep") + os.sep


def wanted(scope):
    import lark
    lib = os.path.dirname(os.path.realpath(lark.__file__)) + os.sep
    if scope == "own":
        return lambda f: f.startswith(MINE)
    return lambda f: f.startswith((MINE, lib))


@functools.cache
def guarded(filename):
    """Lines of a file where code enters or leaves a guarded region: a trace function can raise between the end of a
    `with` body and the release of its lock, or before the first line of a `finally`, where CPython itself does not look for signals."""
    lines = set()

    def block(body):
        for s in body:
            lines.update(range(s.lineno, s.end_lineno + 1))

    for n in ast.walk(ast.parse(pathlib.Path(filename).read_text(encoding="utf-8"))):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            lines.update(range(n.lineno, max(n.lineno + 1, n.body[0].lineno)))
        elif isinstance(n, ast.Try):
            lines.add(n.lineno)
            block(n.finalbody)
            for h in n.handlers:
                if h.type is None or getattr(h.type, "id", "") in ("BaseException", "Exception"):
                    block(h.body)
    return frozenset(lines)


def cleaning_up(frame):
    while frame:
        f = frame.f_code.co_filename
        if f.startswith(MINE) and frame.f_lineno in guarded(f):
            return True
        frame = frame.f_back
    return False


def prepare():
    from pycep import BicepParser
    STATE["class"] = BicepParser
    STATE["texts"] = T = texts()
    STATE["parsers"] = {"A": BicepParser(cache=False), "B": BicepParser(add_line_numbers=True, cache=False), "U": BicepParser(cache=False)}
    for n, p in STATE["parsers"].items():
        if n != "U":  # a parser that was never used, its scanners are not built yet
            neutral_warm(p, T.values())
    tmp = tempfile.mkdtemp(prefix="c23-")
    STATE["tmp"] = tmp
    for n, t in T.items():
        (pathlib.Path(tmp) / f"{n}.bicep").write_text(t)
    STATE["ref"] = {(k, p, n): forked(lambda: outcome(lambda: perform((k, p, n)))) for k in ("parse", "tree", "file") for p in "ABU" for n in T}
    STATE["counts"] = {}


def perform(op):
    k, p, n = op
    p = STATE["parsers"][p]
    if k == "parse":
        return p.parse(text=STATE["texts"][n])
    if k == "tree":
        return p.create_tree(text=STATE["texts"][n])
    return p.parse(file_path=pathlib.Path(STATE["tmp"]) / f"{n}.bicep")


def broken(fn, want, at, error):
    """Runs fn and raises `error` at the `at`-th traced line; (what happened, number of lines)."""
    seen = [0]

    def line(frame, event, arg):
        if event == "line" and not (frame.f_code.co_filename.startswith(MINE) and frame.f_lineno in guarded(frame.f_code.co_filename)):
            seen[0] += 1
            if seen[0] == at:
                sys.settrace(None)
                raise error
        return line

    def call(frame, event, arg):
        code = frame.f_code
        # CPython itself discards exceptions of the comparisons that it makes to look up an attribute of a class
        if not want(code.co_filename) or code.co_name in ("__eq__", "__hash__"):
            return None
        return None if cleaning_up(frame.f_back) else line

    sys.settrace(call)
    try:
        try:
            v = fn()
        finally:
            sys.settrace(None)
    except BaseException as e:
        return e, seen[0]
    return ("value", canon(v)), seen[0]


def count(op, scope):
    """How many points a call has; it is measured in a process of its own."""
    k = (op, scope)
    if k not in STATE["counts"]:
        STATE["counts"][k] = forked(lambda: broken(lambda: perform(op), wanted(scope), 0, None)[1])
    return STATE["counts"][k]


class Break:
    def __init__(self, op, scope, at, error, again):
        self.op, self.scope, self.at, self.error, self.again = op, scope, at, error, again

    def inputs(self):
        return f"{self.op} ({STATE['texts'][self.op[2]]!r}) broken off by {self.error} at line event {self.at} ({self.scope} code), then {self.again}"

    def run(self):
        ref = STATE["ref"]
        first = perform(("parse", "B", "full"))
        before_first = canon(first)
        before = snapshot()
        cls = ERRORS[self.error]
        got, _ = broken(lambda: perform(self.op), wanted(self.scope), self.at, cls("broken off"))
        if isinstance(got, tuple):
            if got != ref[self.op]:
                return f"the call was broken off, but answered {str(got)[:500]}"
            if cls in (Stop, KeyboardInterrupt):
                return f"{cls.__name__} was swallowed"
        elif cls in (Stop, KeyboardInterrupt) and type(got) is not cls:
            return f"{cls.__name__} was turned into {got!r}"
        del got
        bad = changed(before, snapshot())
        if bad:
            return bad
        return self.later(first, before_first)

    def later(self, first, before_first):
        for op in self.again:
            r = outcome(lambda: perform(op))
            if r != STATE["ref"][op]:
                return f"afterwards {op}: {str(r)[:600]} instead of {str(STATE['ref'][op])[:600]}"
        if canon(first) != before_first:
            return "an earlier result was changed"
        return None


class Shallow(Break):
    """A call with only so many frames left on the stack."""

    def __init__(self, op, frames, again):
        self.op, self.frames, self.again = op, frames, again

    def inputs(self):
        return f"{self.op} ({STATE['texts'][self.op[2]]!r}) with {self.frames} frames left, then {self.again}"

    def run(self):
        first = perform(("parse", "B", "full"))
        before_first = canon(first)
        before = snapshot()
        old = sys.getrecursionlimit()
        depth = 0
        f = sys._getframe()
        while f:
            depth, f = depth + 1, f.f_back
        value = error = None
        try:
            sys.setrecursionlimit(depth + self.frames)
            try:
                value = perform(self.op)
            except BaseException as e:
                error = type(e)
        finally:
            now = sys.getrecursionlimit()
            sys.setrecursionlimit(old)
        if now != depth + self.frames:
            return f"the recursion limit was changed from {depth + self.frames} to {now}"
        if error is None:
            got = ("value", canon(value))
            if got != STATE["ref"][self.op]:
                return f"an incomplete answer: {str(got)[:500]} instead of {str(STATE['ref'][self.op])[:500]}"
        bad = changed(before, snapshot())
        return bad or self.later(first, before_first)


def judge(b):
    try:
        bad = forked(b.run)
    except ChildDied as e:
        raise Violation(str(e), b.inputs()) from None
    if bad:
        raise Violation(bad, b.inputs(), "the exception is passed on and nothing else changes", bad)
    return digest(b.inputs())


def families(tier):
    if not STATE:
        prepare()
    deep = tier == "thorough"
    T = list(STATE["texts"])
    ops = [("parse", "A", n) for n in T] + [("parse", "B", n) for n in T] + [("tree", "A", n) for n in ("full", "syntax", "quotes")] + [("file", "A", n) for n in ("full", "quotes")]

    def own(c):
        """every line of pycep that a call executes, every kind of exception"""
        op = c.free(ops)
        at = 1 + c.free(count(op, "own"))
        e = c.free(list(ERRORS) if deep else ["interrupt", "timeout", "memory"] if op[2] != "full" else ["interrupt", "timeout"])
        return Break(op, "own", at, e, AFTER)

    def library(c):
        """every line of pycep and of the parsing library"""
        op = c.free(ops if deep else [("parse", "A", n) for n in ("var", "syntax", "imports", "semantic")] + [("parse", "B", "children"), ("tree", "A", "var"), ("tree", "A", "quotes"), ("file", "A", "quotes")])
        at = 1 + c.free(count(op, "all"))
        return Break(op, "all", at, c.free(["interrupt", "timeout"] if deep else ["interrupt"]), AFTER)

    def first_use(c):
        """every line of the first call on a parser"""
        op = c.free([("parse", "U", n) for n in (["var", "full", "quotes"] if deep else ["var"])])
        at = 1 + c.free(count(op, "all"))
        return Break(op, "all", at, c.free(["interrupt", "timeout"] if deep else ["interrupt"]), [("parse", "U", "var"), ("parse", "U", "full"), ("parse", "U", "quotes"), *AFTER])

    def twice(c):
        """broken off, called again, broken off elsewhere"""
        op = c.free([("parse", "A", n) for n in ("imports", "semantic")])
        n = count(op, "own")
        return Twice(op, 1 + c.free(n), 1 + c.free(n))

    def shallow(c):
        """every number of frames left"""
        op = c.free(ops)
        return Shallow(op, c.free(range(1, 160 if deep else 100)), AFTER)

    return [Family("own lines", own, judge), Family("lines of the library", library, judge), Family("first use", first_use, judge), Family("stack", shallow, judge),
            *([Family("twice", twice, judge)] if deep else [])]


class Twice(Break):
    def __init__(self, op, at1, at2):
        self.op, self.at1, self.at2, self.again = op, at1, at2, AFTER

    def inputs(self):
        return f"{self.op} ({STATE['texts'][self.op[2]]!r}) broken off at line event {self.at1}, again at {self.at2}, then {self.again}"

    def run(self):
        first = perform(("parse", "B", "full"))
        before_first = canon(first)
        before = snapshot()
        for at in (self.at1, self.at2):
            got, _ = broken(lambda: perform(self.op), wanted("own"), at, KeyboardInterrupt())
            if isinstance(got, tuple) or type(got) is not KeyboardInterrupt:
                return f"KeyboardInterrupt was turned into {got!r}"
            del got
        return changed(before, snapshot()) or self.later(first, before_first)


def run(check):
    try:
        check.explore(families(check.tier))
    finally:
        if "tmp" in STATE:
            import shutil
            shutil.rmtree(STATE["tmp"], ignore_errors=True)
    check.assumptions.append("every history runs in a process forked from a state in which the parsers are built; exceptions are raised at line events, except where code enters or leaves a with or a try block")
