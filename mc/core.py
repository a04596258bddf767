"""Deviation-bounded exhaustive explorer, strict comparison, worker pool, reporting.

A *family* is a Python generator model: a function `fn(c)` that builds one case by asking the chooser
`c` for every decision.  `c.free(n)` alternatives are always all explored; `c.dev(n)` alternatives other
than 0 cost one deviation and are explored as long as the trace stays within the family's bound.  The
explorer enumerates *all* choice sequences within the bound (stateless search, CHESS style: run a prefix,
take choice 0 at every later point, then branch on every later point).  Model states are the nodes of the
choice tree, transitions its edges; every completed trace is replayed against the real implementation by
the family's `judge` and compared with the expectation that the model computed.
"""
from __future__ import annotations

import hashlib
import json
import mmap
import os
import select
import signal
import struct
import sys
import time
import traceback

MAX_VIOLATIONS = int(os.environ.get("VERIF_MAX_VIOLATIONS", "25"))
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)


class Diverged(Exception):
    """A replayed prefix did not meet the same choice points again: a defect of the harness."""


class Skip(Exception):
    """The model declares this combination of choices meaningless (not a completed trace)."""


class Chooser:
    def __init__(self, prefix, bound):
        self.prefix = prefix
        self.bound = bound
        self.choices = []
        self.points = []  # (number of alternatives, costs)
        self.cost = 0

    def _pick(self, n, costs):
        i = len(self.choices)
        if i < len(self.prefix):
            k = self.prefix[i]
            if k >= n:
                raise Diverged(f"choice {k} of {n} at {i}")
        else:
            k = 0
        self.points.append((n, costs, self.cost))
        self.choices.append(k)
        if costs and k:
            self.cost += 1
        return k

    def free(self, options):
        """Every alternative is always explored."""
        if isinstance(options, int):
            return self._pick(options, False)
        return options[self._pick(len(options), False)]

    def dev(self, options):
        """Alternatives other than the first cost one deviation."""
        if isinstance(options, int):
            return self._pick(options, True)
        return options[self._pick(len(options), True)]

    def flag(self):
        return bool(self.dev(2))


class Family:
    """One generator model with its deviation bound and its judge."""

    def __init__(self, name, fn, judge, bound=0, horizon=100000):
        self.name, self.fn, self.judge, self.bound, self.horizon = name, fn, judge, bound, horizon


class Stats:
    FIELDS = ("states", "transitions", "traces", "skipped", "accepted", "rejected")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.outcomes = set()
        self.capped = False

    def add(self, other):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + other[f])
        if len(self.outcomes) < 200000:
            self.outcomes |= other["outcomes"]
        self.capped |= other["capped"]

    def dump(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["outcomes"] = self.outcomes
        d["capped"] = self.capped
        return d


class Violation(Exception):
    """Raised by a judge: the implementation and the model disagree."""

    def __init__(self, message, inputs=None, expected=None, actual=None):
        super().__init__(message)
        self.message = message
        self.inputs = inputs
        self.expected = expected
        self.actual = actual


def run_prefix(fam, prefix, stats, on_violation, note=None):
    """Runs one trace; returns the child prefixes that are unexplored alternatives of this run."""
    c = Chooser(prefix, fam.bound)
    complete = True
    case = None
    try:
        case = fam.fn(c)
    except Skip:
        complete = False
        stats.skipped += 1
    if len(c.choices) < len(prefix):
        raise Diverged(f"{fam.name}: prefix {prefix} only reached {len(c.choices)} choices")
    new = len(c.choices) - len(prefix) + 1
    stats.states += new
    stats.transitions += new - (0 if prefix else 1)
    if complete:
        stats.traces += 1
        if note:
            note(fam, c.choices, case)
        try:
            out = fam.judge(case)
            if out is not None:
                if len(stats.outcomes) < 200000:
                    stats.outcomes.add(out)
                if out == "reject":
                    stats.rejected += 1
                else:
                    stats.accepted += 1
        except Violation as v:
            on_violation(fam.name, list(c.choices), case, v)
    children = []
    for i in range(len(prefix), len(c.points)):
        n, costs, before = c.points[i]
        if costs and before + 1 > fam.bound:
            continue
        for k in range(1, n):
            children.append(c.choices[:i] + [k])
    return children


# --------------------------------------------------------------------------------------------
# strict comparison
# --------------------------------------------------------------------------------------------

def kind(v):
    """The type that decides equality; an Ordered expectation compares as a dict."""
    t = type(v)
    if t is str:
        return "str"
    if t is Ordered:
        return "dict"
    if t.__name__ == "BicepElement" and isinstance(v, str):
        return "ident"
    return t.__name__


def diff(exp, act, path="$", ordered=False):
    """None, or a description of the first difference.  Types have to match exactly."""
    if isinstance(exp, Any_):
        return exp.check(act, path)
    ke, ka = kind(exp), kind(act)
    if ke != ka:
        return f"{path}: expected {ke} {short(exp)}, got {ka} {short(act)}"
    if ke == "dict":
        if exp.keys() != act.keys():
            missing = [k for k in exp if k not in act]
            extra = [k for k in act if k not in exp]
            return f"{path}: missing keys {missing}, unexpected keys {extra}"
        for k in exp:
            d = diff(exp[k], act[k], f"{path}.{k}")
            if d:
                return d
        for k in act:
            if type(k) is not str and kind(k) != "ident":
                return f"{path}: key {k!r} is a {kind(k)}"
        if isinstance(exp, Ordered) and list(exp) != list(act):
            return f"{path}: keys in order {list(act)}, expected {list(exp)}"
        return None
    if ke == "list" or ke == "tuple":
        if len(exp) != len(act):
            return f"{path}: expected {len(exp)} items, got {len(act)}: {short(exp)} / {short(act)}"
        for i, (a, b) in enumerate(zip(exp, act)):
            d = diff(a, b, f"{path}[{i}]")
            if d:
                return d
        return None
    if ke == "ident":
        return None if str.__eq__(exp, act) is True else f"{path}: expected {exp!s}, got {act!s}"
    return None if exp == act else f"{path}: expected {short(exp)}, got {short(act)}"


class Any_:
    """A wildcard of an expectation."""

    def check(self, act, path):
        return None


class Text(Any_):
    """Text whose exact string type the property leaves open (identifier marker or plain string)."""

    def __init__(self, s):
        self.s = s

    def check(self, act, path):
        if kind(act) not in ("str", "ident") or str(act) != self.s:
            return f"{path}: expected text {self.s!r}, got {kind(act)} {act!r}"
        return None

    def __repr__(self):
        return f"text({self.s!r})"


class Ordered(dict):
    """Expected dictionary whose key order matters (user object keys, entries of a section)."""


def short(v, n=300):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def digest(v):
    """A stable digest of a JSON-like value that distinguishes identifiers from strings."""
    return hashlib.sha256(canon(v).encode("utf-8", "surrogatepass")).hexdigest()[:16]


def canon(v):
    k = kind(v)
    if k == "dict":
        return "{" + ",".join(f"{canon(a)}:{canon(b)}" for a, b in v.items()) + "}"
    if k in ("list", "tuple"):
        return "[" + ",".join(canon(a) for a in v) + "]"
    return f"{k}:{v!r}" if k != "ident" else f"ident:{str(v)!r}"


# --------------------------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------------------------

def load_findings():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)["findings"]


# --------------------------------------------------------------------------------------------
# running a check
# --------------------------------------------------------------------------------------------

class Check:
    """Collects families and direct jobs of one property, runs them, reports."""

    HANG_S = 90.0

    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.stats = Stats()
        self.per_family = {}
        self.samples = []
        self.violations = []
        self.known = []
        self.assumptions = []
        self.extra = {}
        self.t0 = time.time()
        self.deadline = self.t0 + float(os.environ.get("VERIF_BUDGET_S", "600" if tier == "quick" else "3000"))
        self.nproc = int(os.environ.get("VERIF_NPROC", "0")) or min(8, len(os.sched_getaffinity(0)))
        self.findings = [f for f in load_findings() if f["property"] == pid]

    # ---- reporting -------------------------------------------------------------------------

    def report(self, family, choices, inputs, v):
        """Called in the parent process for every disagreement."""
        inp = v["inputs"]
        for f in self.findings:
            if inp == f["input"] and v["actual_digest"] == f["observed"]:
                if f["id"] not in [k["id"] for k in self.known]:
                    self.known.append(f)
                return
        if len(self.violations) >= MAX_VIOLATIONS:
            self.extra["more_violations"] = self.extra.get("more_violations", 0) + 1
            return
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        name = f"{self.pid}-{hashlib.sha256(json.dumps([family, choices, str(inp)]).encode()).hexdigest()[:12]}.json"
        path = os.path.join(rdir, name)
        with open(path, "w") as fh:
            json.dump({"property": self.pid, "tier": self.tier, "family": family, "choices": choices,
                       "message": v["message"], "input": inp, "expected": v["expected"], "actual": v["actual"],
                       "actual_digest": v["actual_digest"],
                       "replay": f"cd {VERIF} && ./run {self.pid} --replay {path}"}, fh, indent=1, default=str)
        self.violations.append(path)
        print(f"VIOLATION property={self.pid} replay={path}")
        print(f"  family {family}, choices {choices}: {v['message'][:600]}")
        if inp is not None:
            print(f"  input {inp!r}"[:900])
        sys.stdout.flush()

    def finish(self):
        s = self.stats
        for f in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {f['id']}: {f['what']}")
        cov = {
            "states": s.states,
            "transitions": s.transitions,
            "traces_validated_against_impl": s.traces,
            "samples": self.samples[:12],
            "distinct_nontrivial": len(s.outcomes),
            "rule": "a trace is a completed choice sequence of a family's generator model; it counts as distinct and "
                    "non-trivial by the digest of what the implementation answered (all rejections are one outcome)",
            "accepted_by_impl": s.accepted,
            "rejected_by_impl": s.rejected,
            "infeasible_combinations": s.skipped,
            "families": self.per_family,
            "exhaustive": not s.capped,
            "capped": s.capped,
            "known_findings_seen": [f["id"] for f in self.known],
        }
        cov.update(self.extra)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{self.pid}.tmp")
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{self.pid}.json"))
        print(f"{self.pid} {self.tier}: states={s.states} transitions={s.transitions} traces={s.traces} "
              f"outcomes={len(s.outcomes)} accepted={s.accepted} rejected={s.rejected} "
              f"violations={len(self.violations)} capped={s.capped} wall={ev['wall_s']}s")
        return 1 if self.violations else 0

    # ---- exploring -------------------------------------------------------------------------

    def explore(self, families, setup=None):
        """Explores all families; every trace is judged in forked worker processes."""
        fams = {f.name: f for f in families}
        assert len(fams) == len(families), "duplicate family names"
        if setup:
            setup()
        tasks = [(f.name, []) for f in families]
        pool = Pool(self, fams)
        pool.run(tasks)


class Pool:
    """Forked workers that pull (family, prefix) tasks, explore the subtree and return statistics.

    A worker splits a large subtree: after `SPLIT_S` seconds it hands its unexplored prefixes back.
    Each worker notes the case it is about to judge in shared memory, so that a hanging or dying
    implementation is reported with its input.
    """

    SPLIT_S = 1.0
    SLOT = 1 << 16

    def __init__(self, check, fams):
        self.check, self.fams = check, fams

    def _worker(self, rfd, wfd, shm, off):
        slot = self.SLOT
        started = time.time()

        def note(fam, choices, case):
            blob = json.dumps([fam.name, choices, _inputs(case)], default=str).encode()[: slot - 16]
            shm[off:off + 12] = struct.pack("<dI", time.time(), len(blob))
            shm[off + 12:off + 12 + len(blob)] = blob

        while True:
            msg = _recv(rfd)
            if msg is None:
                os._exit(0)
            import pickle
            name, prefixes = pickle.loads(msg)
            fam = self.fams[name]
            stats = Stats()
            found, reported = [], set()
            samples = []

            def on_violation(family, choices, case, v):
                inputs, seen = v.inputs if v.inputs is not None else _inputs(case), digest(v.actual)
                known = any(f["input"] == inputs and f["observed"] == seen for f in self.check.findings)
                if known and (inputs, seen) in reported:
                    return
                if known:
                    reported.add((inputs, seen))
                # known findings never crowd out others
                if known or len(found) < 10 + len(reported):
                    found.append((family, choices, {
                        "message": v.message, "inputs": inputs,
                        "expected": short(v.expected, 20000), "actual": short(v.actual, 20000),
                        "actual_digest": seen}))

            def note2(fam, choices, case):
                note(fam, choices, case)
                if len(samples) < 1:
                    samples.append({"family": fam.name, "choices": list(choices), "input": short(_inputs(case), 400)})

            stack = list(prefixes)
            t0 = time.time()
            error = None
            try:
                while stack:
                    if time.time() > self.check.deadline:
                        stats.capped = True
                        stack = []
                        break
                    stack.extend(reversed(run_prefix(fam, stack.pop(), stats, on_violation, note2)))
                    if time.time() - t0 > self.SPLIT_S and len(stack) > 1:
                        break
            except BaseException:
                error = traceback.format_exc()
                stack = []
            shm[off:off + 8] = struct.pack("<d", 0.0)
            _send(wfd, pickle.dumps((name, stats.dump(), found, samples, stack, error)))

    def run(self, tasks):
        import pickle
        check = self.check
        n = check.nproc
        queue = [(name, [p]) for name, p in tasks]
        shm = mmap.mmap(-1, self.SLOT * n)
        workers = {}

        def start(i):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    signal.signal(signal.SIGINT, signal.SIG_DFL)
                    os.close(w1)
                    os.close(r2)
                    for w in workers.values():
                        os.close(w["w"])
                        os.close(w["r"])
                    self._worker(r1, w2, shm, i * self.SLOT)
                finally:
                    os._exit(3)
            os.close(r1)
            os.close(w2)
            workers[i] = {"pid": pid, "w": w1, "r": r2, "busy": None}

        for i in range(n):
            start(i)
        errors = []
        sample_count = {}
        while True:
            for i, w in workers.items():
                if w["busy"] is None and queue:
                    # hand out a chunk of prefixes of one family
                    name, prefixes = queue.pop()
                    if len(prefixes) > 1:
                        share = max(1, len(prefixes) // (2 * n))
                        rest = prefixes[:-share]
                        prefixes = prefixes[-share:]
                        if rest:
                            queue.append((name, rest))
                    w["busy"] = (name, prefixes)
                    shm[i * self.SLOT:i * self.SLOT + 8] = struct.pack("<d", 0.0)
                    _send(w["w"], pickle.dumps((name, prefixes)))
            busy = {w["r"]: i for i, w in workers.items() if w["busy"]}
            if not busy:
                break
            ready, _, _ = select.select(list(busy), [], [], 2.0)
            for r in ready:
                i = busy[r]
                w = workers[i]
                msg = _recv(r)
                if msg is None:
                    self._dead(i, w, shm, "the process died")
                    os.waitpid(w["pid"], 0)
                    os.close(w["w"])
                    os.close(w["r"])
                    del workers[i]
                    start(i)
                    continue
                name, st, found, samples, rest, error = pickle.loads(msg)
                w["busy"] = None
                if error:
                    errors.append((name, error))
                check.stats.add(st)
                pf = check.per_family.setdefault(name, {"bound": self.fams[name].bound, "states": 0, "traces": 0})
                pf["states"] += st["states"]
                pf["traces"] += st["traces"]
                if sample_count.get(name, 0) < 1 and samples:
                    sample_count[name] = 1
                    check.samples.append(samples[0])
                for family, choices, v in found:
                    check.report(family, choices, None, v)
                if rest:
                    queue.append((name, rest))
                if len(check.violations) >= MAX_VIOLATIONS:
                    queue.clear()
            now = time.time()
            for i in list(workers):
                w = workers[i]
                if not w["busy"]:
                    continue
                (t,) = struct.unpack("<d", shm[i * self.SLOT:i * self.SLOT + 8])
                if t and now - t > check.HANG_S:
                    os.kill(w["pid"], signal.SIGKILL)
                    os.waitpid(w["pid"], 0)
                    self._dead(i, w, shm, f"no answer within {check.HANG_S:.0f} s")
                    os.close(w["w"])
                    os.close(w["r"])
                    del workers[i]
                    queue.clear()
                    start(i)
            if errors:
                queue.clear()
        for w in workers.values():
            os.close(w["w"])
            os.close(w["r"])
            try:
                os.waitpid(w["pid"], 0)
            except ChildProcessError:
                pass
        if errors:
            name, error = errors[0]
            print(f"harness error in family {name}:\n{error}", file=sys.stderr)
            sys.exit(3)

    def _dead(self, i, w, shm, what):
        o = i * self.SLOT
        (ln,) = struct.unpack("<I", shm[o + 8:o + 12])
        blob = bytes(shm[o + 12:o + 12 + ln])
        try:
            name, choices, inputs = json.loads(blob)
        except ValueError:
            name, choices, inputs = w["busy"][0], [], blob.decode("utf-8", "replace")
        self.check.report(name, choices, None, {
            "message": what, "inputs": inputs, "expected": "an answer", "actual": what, "actual_digest": digest(what)})


def _inputs(case):
    if hasattr(case, "inputs"):
        return case.inputs()
    return case


def _send(fd, b):
    b = struct.pack("<I", len(b)) + b
    while b:
        k = os.write(fd, b)
        b = b[k:]


def _recv(fd):
    def get(n):
        out = b""
        while len(out) < n:
            k = os.read(fd, n - len(out))
            if not k:
                return None
            out += k
        return out
    h = get(4)
    if h is None:
        return None
    return get(struct.unpack("<I", h)[0])


# --------------------------------------------------------------------------------------------
# the implementation under test
# --------------------------------------------------------------------------------------------

_parsers = {}


def parser(lines=False, cache=False):
    """A parser of this process (built once per setting; never the shared on-disk cache)."""
    key = (lines, cache)
    if key not in _parsers:
        from pycep import BicepParser
        _parsers[key] = BicepParser(add_line_numbers=lines, cache=cache)
    return _parsers[key]


LIMIT_FRAMES = 50  # of the judges, below a call of the implementation


def warm():
    sys.setrecursionlimit(10000)
    parser(False)
    parser(True)


class Rejected:
    def __init__(self, exc):
        self.exc = exc
        self.name = type(exc).__name__

    def __repr__(self):
        return f"rejected({self.name}: {str(self.exc).splitlines()[0][:200] if str(self.exc) else ''})"


def parse(text, lines=False):
    p = parser(lines)
    old = sys.getrecursionlimit()
    # the implementation works under Python's own limit, the judges do not
    sys.setrecursionlimit(1000 + LIMIT_FRAMES)
    try:
        return p.parse(text=text)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return Rejected(e)
    finally:
        sys.setrecursionlimit(old)


def digest_result(r):
    return "reject" if isinstance(r, Rejected) else digest(r)
