"""C14: threads on parsers, under every schedule within a preemption bound."""
import os

from ..sched import Deadlock, Scheduler, install

install()  # before the code under test is imported

from ..common import *
from ..core import REPO, Chooser, Diverged, Family, Skip, Violation, digest
from ..iso import ChildDied, forked, neutral_warm, outcome

STATE = {}


def texts():
    child = Body([("k", integer(1))], Child("c1", "t1", Body([("l", integer(2))])))
    return {
        "tiny": "var x = 1\n",
        "tiny2": "param y int\n",
        "imp": "import {a as b} from 'f'\n",
        "child": Doc([d_resource("r", "A.B/c", "1", child)]).text,
        "child2": Doc([d_resource("r", "A.B/d", "2", Body([("k", integer(3))], Child("c1", "t2", Body([]))))]).text,
        "mixed": Doc([d_import("g", [("i", None)]), d_var("v", array([string("s"), ident("z")])).with_decorators([deco("description", string("d"))]), d_scope("tenant")]).text,
        "semantic": "import {q} from 'w'\nresource r 'A@1' = {\n  resource s 't' = {\n  }\n}\ntargetScope = 'x'\n",
        "syntax": "import {q} from 'w'\nvar x = \n",
        "quotes": "import {q} from 'w'\nvar x = '''\n",
        "empty": "",
        # entries of all tables of functions and decorators
        "tables": "@sys.maxLength(1)\n@minValue(-1)\n@sys.minLength(2)\n@maxValue(-2)\nparam p int = any(az.resourceGroup('a', 'b'))\nvar t = [uniqueString(a), concat(b), sys.range(0, 1), toObject(c, d), listKeys(e, 'f'), loadJsonContent('g'), reference(h)]\n",
        "tables2": "@maxValue(-3)\n@sys.minValue(-4)\n@maxLength(1)\nparam q int\nvar u = [sys.uniqueString(a, b), split(c, 'd'), az.subscription('e'), reduce(f, g, h), pickZones(i, j, k)]\n",
        "expr": "var x = a ? f(1, b[0]) : -(2 + c.d)\noutput o string = '${x}'\n",
    }


def prepare():
    from pycep import BicepParser
    STATE["texts"] = texts()
    STATE["parsers"] = {n: BicepParser(add_line_numbers=s, cache=False) for n, s in {"A": False, "B": True}.items()}
    STATE["cold"] = BicepParser(cache=False)
    for p in STATE["parsers"].values():
        neutral_warm(p, STATE["texts"].values())
    STATE["ref"] = {}
    for name in STATE["texts"]:
        for p in "AB":
            for kind in ("parse", "tree"):
                STATE["ref"][kind, p, name] = forked(lambda: outcome(call((kind, p, name))))
    import lark
    STATE["lark"] = os.path.dirname(lark.__file__)


def call(job, cold=False):
    kind, p, name = job
    parser = STATE["cold"] if cold else STATE["parsers"][p]
    text = STATE["texts"][name]
    if kind == "parse":
        return lambda: parser.parse(text=text)
    return lambda: parser.create_tree(text=text)


def pycep_only(fn):
    return fn.startswith(REPO + "/pycep")


def everything(fn):
    return fn.startswith(REPO + "/pycep") or fn.startswith(STATE["lark"])


def execute(prefix, bound, jobs, wanted, bytecodes, cold):
    """One schedule, in a child process: (choices, points, cost, problem or None, steps)."""
    c = Chooser(prefix, bound)
    fns = []
    for thread in jobs:
        calls = [call(j, cold) for j in thread]
        fns.append(lambda calls=calls: [outcome(f) for f in calls])
    s = Scheduler(c, fns, wanted, bytecodes)
    problem = None
    diverged = False
    try:
        s.run()
    except Deadlock as e:
        problem = str(e)
    except Diverged:
        diverged = True
    if problem is None and not diverged:
        for t, thread in zip(s.threads, jobs):
            if t.error is not None:
                problem = f"thread {t.i}: {t.error!r}"
                break
            for job, got in zip(thread, t.value):
                want = STATE["ref"][job]
                if got != want:
                    problem = f"thread {t.i}, {job}: {str(got)[:600]} instead of {str(want)[:600]}"
                    break
            if problem:
                break
    return c.choices, c.points, c.cost, problem, [t.steps for t in s.threads], diverged


class Schedule:
    def __init__(self, jobs, problem, steps, preempt):
        self.jobs, self.problem, self.steps, self.preempt = jobs, problem, steps, preempt

    def inputs(self):
        return f"threads {self.jobs}, scheduling points per thread {self.steps}, preempted {self.preempt} times"


def judge(s):
    if s.problem:
        raise Violation(s.problem, s.inputs(), "the answer of each call when it runs alone", s.problem)
    return digest(s.inputs())


def schedules(jobs_list, wanted, bytecodes=False, cold=False):
    def fn(c):
        jobs = c.free(jobs_list)
        base = len(c.choices)
        prefix = c.prefix[base:]
        try:
            choices, points, cost, problem, steps, diverged = forked(lambda: execute(prefix, c.bound, jobs, wanted, bytecodes, cold), 120)
        except ChildDied as e:
            choices, points, cost, problem, steps, diverged = list(prefix), [(1, False, 0)] * len(prefix), 0, str(e), [], False
        if diverged or len(choices) < len(prefix):
            # the code under test does not take the same steps twice in the same schedule
            c.choices += prefix
            c.points += [(1, False, 0)] * len(prefix)
            raise Skip
        c.choices += choices
        c.points += points
        c.cost += cost
        return Schedule(jobs, problem, steps, cost)
    return fn


def families(tier):
    if not STATE:
        prepare()
    deep = tier == "thorough"
    names = list(STATE["texts"])

    def P(p, *ns):
        return [("parse", p, n) for n in ns]

    tree = [("tree", "A", "child")]
    pairs = [[P("A", a), P("A", b)] for a, b in [("child", "child2"), ("child", "imp"), ("imp", "mixed"), ("mixed", "expr"), ("child", "semantic"), ("imp", "syntax"), ("child2", "quotes"), ("expr", "empty"), ("tables", "tables2"), ("tables2", "tables2")]]
    modes = [[P("A", a), P("B", b)] for a, b in [("child", "child2"), ("imp", "mixed"), ("expr", "tiny2")]]
    mixed = [[P("A", "child"), tree], [P("A", "imp", "tiny"), P("A", "child2")], [P("A", "semantic", "child"), P("A", "imp")]]
    all_pairs = [[P(p, a), P(q, b)] for a in names for b in names for p, q in (("A", "A"), ("A", "B"))]
    small = [[P("A", "imp"), P("A", "tiny")], [P("A", "imp"), P("B", "tiny2")], [P("A", "tiny"), P("A", "tiny2")], [P("A", "child"), P("A", "imp")]]
    triples = [[P("A", "imp"), P("A", "tiny"), P("A", "tiny2")], [P("A", "imp"), P("B", "tiny"), [("tree", "A", "imp")]]]
    inside = [[P("A", "tiny"), P("A", "tiny2")]]

    fams = [Family("two threads", schedules(pairs + modes + mixed, pycep_only), judge, 1),
            Family("three threads", schedules(triples, pycep_only), judge, 1 if not deep else 2),
            Family("two threads, two preemptions", schedules(small[1:3] if not deep else small, pycep_only), judge, 2),
            Family("bytecode steps", schedules(small[:1] if not deep else small, pycep_only, True), judge, 1),
            Family("steps inside the parsing library", schedules(inside, everything), judge, 1)]
    if deep:
        fams.append(Family("all pairs of calls", schedules(all_pairs, pycep_only), judge, 1))
        fams.append(Family("first use of a parser", schedules([[P("A", "tiny"), P("A", "tiny2")], [P("A", "tiny"), P("A", "tiny")]], everything, cold=True), judge, 1))
    return fams


def run(check):
    check.HANG_S = 200.0
    check.assumptions.append("a scheduling point is a source line (or, in 'bytecode steps', a bytecode) of the named files; C code between two of them is atomic, as it is under the interpreter lock")
    check.explore(families(check.tier))
