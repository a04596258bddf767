"""C18: grammar cache, processes, environment.

Every case runs in processes of its own with a private temporary directory, under an audit hook that records what
the process writes and where.
"""
import hashlib
import json
import os
import pathlib
import pickle
import random
import shutil
import subprocess
import sys
import tempfile

from ..common import *
from ..core import REPO, VERIF, Chooser, Family, Skip, Violation, digest, parser, warm
from ..iso import ChildDied, forked, outcome
from .c15 import PIECES

S = {}

WRITERS = {"os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.utime", "shutil.rmtree", "shutil.move", "shutil.copyfile"}
FORBIDDEN = {"subprocess.Popen", "os.system", "os.posix_spawn", "socket.connect", "socket.bind", "urllib.Request", "os.exec"}


def sample_texts():
    out = [Doc([f("n1")]).text for fs in catalogue().values() for f in fs]
    hosts = host_positions()
    for v in basic_values():
        out.append(hosts["var"](v).text)
        out.append(hosts["resource_property"](v).text)
    out += list(PIECES.values())
    # rejected for their meaning, or odd but accepted
    out += [f"var x = map(a, {v} => 1)\n" for v in ("1", "'s'", "null", "true", "[]", "{}", "(1, b)", "(a, 'b')", "a.b", "f()", "!a", "(a)", "[a]")]
    out += [f"targetScope = '{s}'\n" for s in ("x", "", "Tenant", "tenant ", "resourceGroup")] + ["import 'a'\nmodule m './x' = {\n}\ntargetScope = 'y'\n"]
    out += [f"module m '{r}' = {{\n}}\n" for r in ("br:", "br:x", "br/x", "br/public:a", "ts:1", "ts/a", "br:mcr.microsoft.com/a", "ts:zz/rg/n:1", "br:é.azurecr.io/a:1", "BR:x")]
    out += [f"resource r '{t}' = {{\n}}\n" for t in ("A", "A@1@2", "@", "", "A@")] + ["resource r 'A@1' = {\n  resource c 't' = if (a) b\n}\n", "resource r 'A@1' = {\n  __child_resource__: 1\n}\n"]
    out += [f"var x = {w}({a})\n" for w in ("concat", "union", "resourceId", "listKeys", "any", "range", "deployment", "newGuid", "toLower", "az.toLower", "sys.resourceGroup", "unknown") for a in ("", "a", "a, b", "a, b, c, d, e, f, g, h, i, j, k, l")]
    out += [f"@{w}({a})\nparam x string\n" for w in ("minValue", "allowed", "secure", "description", "export", "custom", "sys.secure", "az.secure") for a in ("", "-1", "0", "''", "!true", "-a")]
    out += ["var x = " + "1" * 4000 + "\n", "var x = 007\n", "var x = " + "(" * 60 + "a" + ")" * 60 + "\n", "var x = " + "(" * 2000 + "\n"]
    out += ["", "var x = a + b * c - d\n", "var x = !a ? b[0].c : d::e ?? f\n", "var x = [\n  a\n  // c\n\n  b, c\n]\n", "var x = a.b(c).listKeys(d)!\n", "var x = y\n", "var x = map(a, (b, c) => b)\n"]
    # lists of many members, with and without repeated ones
    for m in (["a", "b", "c", "d", "e", "f"], ["a", "b", "c", "d", "a", "b"], ["a", "A", "'a'", "b", "'b'", "'a'"], ["1", "2", "1", "3", "true", "1"], ["f", "e", "d", "c", "b", "a"], ["null", "a", "null", "false", "0", "''"]):
        ids = all(x.isidentifier() and x not in ("null", "true", "false") for x in m)
        out += [f"type t = {' | '.join(m)}\n", f"var x = [{', '.join(m)}]\n", "var x = [\n" + "\n".join(m) + "\n]\n", f"var x = f({', '.join(m)})\n", f"var x = union({', '.join(m)})\n", f"var x = {' && '.join(m)}\n", f"var x = {' + '.join(m)}\n",
                f"var x = a.listKeys({', '.join(m)})\n", "".join(f"@custom({x})\n" for x in m) + "param p string\n", "".join(f"var x{i} = {x}\n" for i, x in enumerate(m)), "var x = {" + ", ".join(f"k{i}: {x}" for i, x in enumerate(m)) + "}\n",
                f"@allowed([{', '.join(m)}])\nparam p string\n"]
        if ids:
            out += [f"param p ({' | '.join(m)})\n", f"output o ({' | '.join(m)})[] = x\n", f"import {{{', '.join(m)}}} from 'x'\n", "".join(f"@{x}()\n" for x in m) + "param p string\n", "func f(" + ", ".join(f"{x} {x}" for x in m) + ") " + m[0] + " => 1\n",
                    "var x = {" + ", ".join(f"{x}: {i}" for i, x in enumerate(m)) + "}\n", "".join(f"import {x} as z from 'y'\n" for x in m), "".join(f"param {x} {x}\nvar {x} = {x}\n" for x in m), f"var x = map(a, ({', '.join(m)}) => a)\n"]
    # parts that are equal, written twice
    for fn in coincidences().values():
        docs = [d for d in enumerate_all(fn)]
        out += [d.text for d in docs[::max(1, len(docs) // 12)]]
    return out


def enumerate_all(fn):
    """Everything a generator model can make."""
    out, stack = [], [[]]
    while stack:
        c = Chooser(stack.pop(), 0)
        try:
            out.append(fn(c))
        except Skip:
            pass
        for i in range(len(c.prefix), len(c.points)):
            stack += [[*c.choices[:i], k] for k in range(1, c.points[i][0])]
    return out


FILES = {"letters": "// é 中\nvar x = 'é中\U0001f600'\n".encode(), "crlf": b"var x = 1\r\nvar y = '''\r\na\r\n'''\r\n", "empty": b"", "bytes": b"var x = '\xff'\n", "mark": b"\xef\xbb\xbfvar x = 1\n", "syntax": "var é = \n".encode(),
         "quotes": "var x = '''é\n".encode(), "latin": "var x = 'ü'\n".encode("latin-1")}


def hashed(fn):
    return hashlib.sha256(repr(outcome(fn)).encode("utf-8", "surrogatepass")).hexdigest()[:12]


def answers(cache, texts, files, trees=12):
    """What a parser made now answers for all texts and files (both settings)."""
    from pycep import BicepParser
    return [a for lines in (False, True) for a in answers_of(BicepParser(add_line_numbers=lines, cache=cache), texts, files, trees)]


def answers_of(p, texts, files, trees=12):
    out = []
    for i, t in enumerate(texts):
        out.append(hashed(lambda: p.parse(text=t)))
        if i < trees:
            out.append(hashed(lambda: p.create_tree(text=t)))
    for n in FILES:
        out.append(hashed(lambda: p.parse(file_path=pathlib.Path(files) / f"{n}.bicep")))
        out.append(hashed(lambda: p.create_tree(file_path=pathlib.Path(files) / f"{n}.bicep")))
    return out


def watch(log, gate=None):
    """Records writes of this process from now on; gate(path, mode) is called before a file is opened."""
    def hook(event, args):
        if event == "open":
            path, mode, flags = args
            if isinstance(path, int):
                return
            w = any(ch in mode for ch in "wax+") if isinstance(mode, str) else bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
            path = os.path.abspath(os.fsdecode(path))
            if gate:
                gate(path, w)
            if w:
                log.append(("open", path))
        elif event in WRITERS:
            log.append((event, *[os.path.abspath(os.fsdecode(a)) for a in args if isinstance(a, (str, bytes, os.PathLike))]))
        elif event in FORBIDDEN:
            log.append(("forbidden", event))
    sys.addaudithook(hook)


def outside(log, tmp, allowed):
    tmp = os.path.realpath(tmp)
    bad = []
    for e in log:
        if e[0] == "forbidden" or not allowed or any(not os.path.realpath(p).startswith(tmp + os.sep) for p in e[1:]):
            if e[1:] != ("/dev/null",):
                bad.append(e)
    return bad


def run_here(tmp, cache, gate=None):
    """In a forked child: parse the sample with TMPDIR=tmp; (answers or error, writes)."""
    os.environ["TMPDIR"] = str(tmp)
    tempfile.tempdir = None
    os.chdir(tempfile.mkdtemp(dir=S["base"]))
    log = []
    tempfile.gettempdir()  # its own write test is not the parser's doing
    watch(log, gate)
    try:
        r = answers(cache, S["texts"], S["file_dir"])
    except BaseException as e:  # noqa: BLE001
        return f"{type(e).__name__}: {e}", log
    return r, log


def expect(run, tmp, cache, what, case, may_write=True):
    try:
        got, log = forked(run, 300)
    except ChildDied as e:
        raise Violation(f"{what}: {e}", case.inputs()) from None
    if isinstance(got, str):
        raise Violation(f"{what}: no parser: {got}", case.inputs(), "results", got)
    if got != S["want"]:
        i = [a == b for a, b in zip(got, S["want"])].index(False)
        raise Violation(f"{what}: answer {i} of {len(got)} differs", case.inputs(), S["want"][i], got[i])
    bad = outside(log, tmp, cache and may_write)
    if bad:
        raise Violation(f"{what}: writes {bad[:3]}", case.inputs(), "no such write", bad)
    return log


def snapshot(d):
    return {str(p.relative_to(d)): (hashlib.sha256(p.read_bytes()).hexdigest() if p.is_file() else "link" if p.is_symlink() else "dir") for p in sorted(d.rglob("*"))}


def cache_files(hashseed=None):
    """The files a first parser leaves in its temporary directory: {name: bytes}."""
    d = pathlib.Path(tempfile.mkdtemp(dir=S["base"]))
    env = {**os.environ, "TMPDIR": str(d), "PYTHONPATH": REPO, "PYTHONDONTWRITEBYTECODE": "1"}
    if hashseed is not None:
        env["PYTHONHASHSEED"] = str(hashseed)
    subprocess.run([sys.executable, "-c", "from pycep import BicepParser\nBicepParser()"], env=env, check=True, timeout=300, cwd=d)
    out = {p.name: p.read_bytes() for p in d.rglob("*") if p.is_file()}
    shutil.rmtree(d)
    return out


class State:
    """A content of the temporary directory: {name: bytes or 'dir' or 'dangling'}."""

    def __init__(self, label, make):
        self.label, self.make = label, make

    def inputs(self):
        return f"temporary directory: {self.label}"


def fill(d, content):
    for n, b in content.items():
        p = d / n
        if b == "dir":
            p.mkdir()
        elif b == "dangling":
            p.symlink_to(d / "nowhere")
        else:
            p.write_bytes(b)


def judge_state(case):
    tmp = pathlib.Path(tempfile.mkdtemp(dir=S["base"]))
    try:
        content = case.make()
        fill(tmp, content)
        s0 = snapshot(tmp)
        expect(lambda: run_here(tmp, True), tmp, True, "first run", case)
        s1 = snapshot(tmp)
        log = expect(lambda: run_here(tmp, True), tmp, True, "second run", case)
        if "dir" not in content.values() and (snapshot(tmp) != s1 or log):
            raise Violation(f"the second run cannot use the cache of the first: it writes {log[:3]}", case.inputs(), "no writes", log)
        expect(lambda: run_here(tmp, False), tmp, False, "cache off afterwards", case)
        if any(k not in s1 for k in s0):
            raise Violation("a file of the temporary directory disappeared", case.inputs(), s0, s1)
        return digest([case.label, sorted(s1)])
    finally:
        shutil.rmtree(tmp)


# ---- processes --------------------------------------------------------------------------------

CODE = """
import sys
sys.dont_write_bytecode = True
sys.path[:] = [{repo!r}, {verif!r}, *[p for p in sys.path if p]]
import json, os, pickle, tempfile
from mc.checks import c18
import getpass, pycep
texts = pickle.loads(open({texts!r}, "rb").read())
tempfile.gettempdir()
log = []
c18.watch(log)
try:
    r = c18.answers({cache!r}, texts, {files!r})
except BaseException as e:
    r = f"{{type(e).__name__}}: {{e}}"
sys.stdout.write(json.dumps([r, log]))
"""


class Process:
    def __init__(self, env, flags, cwd, tmp, cache, state):
        self.env, self.flags, self.cwd, self.tmp, self.cache, self.state = env, flags, cwd, tmp, cache, state

    def inputs(self):
        return f"environment {self.env}, options {self.flags}, working directory {self.cwd}, temporary directory {self.tmp}, cache {self.cache}, {self.state}"


def judge_process(case):
    base = pathlib.Path(tempfile.mkdtemp(dir=S["base"]))
    try:
        tmp = base / case.tmp
        tmp.mkdir()
        cwd = {"base": base, "root": pathlib.Path("/"), "repo": pathlib.Path(REPO), "package": pathlib.Path(REPO) / "pycep", "tmp": tmp}[case.cwd]
        if case.state == "warm":
            fill(tmp, S["files"])
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "TMPDIR": str(tmp), "HOME": str(base), "VERIF_REPO": REPO}
        for k, v in case.env.items():
            if v is None:
                env.pop(k, None)
            else:
                env[k] = v.replace("@tmp", str(tmp))
        for i in range(2 if case.cache else 1):
            r = subprocess.run([sys.executable, *case.flags, "-c", CODE.format(repo=REPO, verif=VERIF, texts=S["text_file"], files=S["file_dir"], cache=case.cache)], env=env, cwd=cwd, capture_output=True, timeout=300)
            try:
                got, log = json.loads(r.stdout)
            except ValueError:
                raise Violation(f"run {i}: no answers: {(r.stderr or r.stdout)[-500:]!r}", case.inputs(), "answers", r.stderr[-3000:]) from None
            if isinstance(got, str):
                raise Violation(f"run {i}: no parser: {got}", case.inputs(), "results", got)
            if got != S["want"]:
                k = [a == b for a, b in zip(got, S["want"])].index(False)
                raise Violation(f"run {i}: answer {k} of {len(got)} differs", case.inputs(), S["want"][k], got[k])
            bad = outside(log, tmp, case.cache)
            if bad:
                raise Violation(f"run {i} writes {bad[:3]}", case.inputs(), "no such write", bad)
            if i == 1 and log:
                raise Violation(f"the second process cannot use the cache of the first: it writes {log[:3]}", case.inputs(), "no writes", log)
        extra = [p.name for p in base.iterdir() if p != tmp]
        if extra:
            raise Violation(f"files appeared outside of the temporary directory: {extra}", case.inputs())
        return digest(case.inputs())
    finally:
        shutil.rmtree(base)


# ---- forks ----------------------------------------------------------------------------------------

class Fork:
    def __init__(self, cache, lines, before, depth, how):
        self.cache, self.lines, self.before, self.depth, self.how = cache, lines, before, depth, how

    def inputs(self):
        return f"a parser (cache {self.cache}, line numbers {self.lines}, {'used' if self.before else 'not used'} before) after {self.depth} forks, in {self.how}"

    def run(self):
        tmp = tempfile.mkdtemp(dir=S["base"])
        os.environ["TMPDIR"] = tmp
        tempfile.tempdir = None
        from pycep import BicepParser
        if self.cache == "warm":
            BicepParser()
        p = BicepParser(add_line_numbers=self.lines, cache=self.cache != "off")
        half = len(S["want"]) // 2
        want = S["want"][half:] if self.lines else S["want"][:half]
        if self.before and answers_of(p, S["texts"], S["file_dir"]) != want:
            return "the process that made the parser: an answer differs"

        def go(depth):
            if depth:
                return forked(lambda: go(depth - 1), 300)
            if self.how == "thread":
                import threading
                box = []
                t = threading.Thread(target=lambda: box.append(answers_of(p, S["texts"], S["file_dir"])))
                t.start()
                t.join()
                return box[0]
            return answers_of(p, S["texts"], S["file_dir"])
        got = go(self.depth)
        if got != want:
            return f"answer {[a == b for a, b in zip(got, want)].index(False)} of {len(want)} differs"
        if answers_of(p, S["texts"], S["file_dir"]) != want:
            return "afterwards, the process that made the parser: an answer differs"
        return None


def judge_fork(case):
    try:
        bad = forked(case.run, 300)
    except ChildDied as e:
        raise Violation(str(e), case.inputs()) from None
    if bad:
        raise Violation(bad, case.inputs(), "the same answers as elsewhere", bad)
    return digest(case.inputs())


# ---- interleaved processes ----------------------------------------------------------------------

class Interleaving:
    def __init__(self, label, make, order):
        self.label, self.make, self.order = label, make, order

    def inputs(self):
        return f"temporary directory: {self.label}, processes take turns at opening cache files in the order {self.order}"


def judge_interleaving(case):
    tmp = pathlib.Path(tempfile.mkdtemp(dir=S["base"]))
    procs = {}
    try:
        fill(tmp, case.make())
        for i in sorted(set(case.order)):
            go_r, go_w = os.pipe()
            at_r, at_w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(go_w)
                    os.close(at_r)
                    for q in procs.values():
                        os.close(q["go"])
                        os.close(q["at"])

                    def gate(path, w):
                        if path.startswith(str(tmp)):
                            os.write(at_w, b"o")
                            os.read(go_r, 1)
                    os.read(go_r, 1)
                    got, log = run_here(tmp, True, gate)
                    ok = b"0" if got == S["want"] else b"1"
                    if outside(log, tmp, True):
                        ok = b"2"
                    os.write(at_w, ok)
                finally:
                    os._exit(0)
            os.close(go_r)
            os.close(at_w)
            procs[i] = {"pid": pid, "go": go_w, "at": at_r, "end": None}
        for i in [*case.order, *[j for j in procs for _ in range(12)]]:
            p = procs[i]
            if p["end"] is not None:
                continue
            os.write(p["go"], b"g")
            b = os.read(p["at"], 1)
            if b != b"o":
                p["end"] = b
        for i, p in procs.items():
            if p["end"] != b"0":
                raise Violation(f"process {i}: " + {b"1": "its answers differ", b"2": "it writes outside of the temporary directory"}.get(p["end"], "it died"), case.inputs())
        log = expect(lambda: run_here(tmp, True), tmp, True, "a later process", case)
        if log:
            raise Violation(f"no usable cache is left behind: a later process writes {log[:3]}", case.inputs(), "no writes", log)
        return digest(case.inputs())
    finally:
        for p in procs.values():
            for fd in ("go", "at"):
                os.close(p[fd])
            try:
                os.kill(p["pid"], 9)
            except ProcessLookupError:
                pass
            os.waitpid(p["pid"], 0)
        shutil.rmtree(tmp)


def prepare():
    if S:
        return
    S["base"] = tempfile.mkdtemp(prefix="c18-")
    warm()
    import pycep  # noqa: F401
    S["texts"] = sample_texts()
    S["text_file"] = os.path.join(S["base"], "texts")
    pathlib.Path(S["text_file"]).write_bytes(pickle.dumps(S["texts"]))
    S["file_dir"] = os.path.join(S["base"], "files")
    os.mkdir(S["file_dir"])
    for n, b in FILES.items():
        pathlib.Path(S["file_dir"], f"{n}.bicep").write_bytes(b)
    S["want"] = answers(False, S["texts"], S["file_dir"])
    S["files"] = cache_files()
    # the cache of another grammar and of other versions of this one, under the names of the current one
    S["foreign"] = forked(foreign)


def foreign():
    import lark
    d = tempfile.mkdtemp(dir=S["base"])
    os.environ["TMPDIR"] = d
    tempfile.tempdir = None
    import pycep.main
    g = getattr(pycep.main, "LARK_GRAMMAR", None) or "start: \"x\"\n"
    out = {}
    for name, grammar in (("another grammar", "start: \"x\"\n"), ("an older grammar", g.replace('"targetScope"', '"targetscope"')), ("a newer grammar", g + "\n// comment\n")):
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        lark.Lark(grammar, parser="lalr", propagate_positions=True, regex=True, cache=True)
        (f,) = os.listdir(d)
        out[name] = (f, pathlib.Path(d, f).read_bytes())
    shutil.rmtree(d)
    return out


def families(tier):
    prepare()
    deep = tier == "thorough"
    files = S["files"]
    size = max([len(b) for b in files.values()] or [0])

    def each(fn):
        return lambda: {n: fn(b) for n, b in files.items()}

    rnd = random.Random(1).randbytes(5000)
    plain = {
        "empty": dict, "the cache of an earlier run": each(lambda b: b), "empty cache files": each(lambda b: b""), "directories instead of cache files": each(lambda b: "dir"),
        "dangling links instead of cache files": each(lambda b: "dangling"), "text": each(lambda b: b"hello\nworld\n"), "random bytes": each(lambda b: rnd), "zeros": each(lambda b: bytes(len(b))),
        "first line only": each(lambda b: b.split(b"\n")[0]), "first line with its end": each(lambda b: b.split(b"\n")[0] + b"\n"), "without first line": each(lambda b: b.split(b"\n", 1)[-1]),
        "first line and random bytes": each(lambda b: b.split(b"\n")[0] + b"\n" + rnd), "first byte changed": each(lambda b: b"X" + b[1:]), "more bytes at the end": each(lambda b: b + rnd),
        "doubled": each(lambda b: b + b), "CRLF in the first line": each(lambda b: b.replace(b"\n", b"\r\n", 1)), "unrelated files": lambda: {".lark_cache_x.tmp": b"", "bicep.lark": b"start:", "pycep.tmp": rnd},
    }
    for what, o in {"None": None, "a list": [], "a dict": {}, "a number": 0, "a dict with a parser": {"parser": {}, "options": {}, "rules": []}, "a long list": list(range(1000))}.items():
        plain[f"first line and {what}, pickled"] = each(lambda b, o=o: b.split(b"\n")[0] + b"\n" + pickle.dumps(o))
        plain[f"first line, no used files and {what}, pickled"] = each(lambda b, o=o: b.split(b"\n")[0] + b"\n" + pickle.dumps({}) + pickle.dumps(o))
    for what, (name, b) in S["foreign"].items():
        plain[f"the cache of {what} under its own name"] = lambda name=name, b=b: {name: b}
        plain[f"the cache of {what} under the current name"] = each(lambda _, b=b: b)
        plain[f"the cache of {what} and an empty file"] = lambda name=name, b=b: {**each(lambda _: b"")(), name: b}

    def states(c):
        label = c.free(list(plain))
        return State(label, plain[label])

    step = 2048 if deep else 32768
    cuts = sorted({1, 2, 30, 63, 64, 65, 66, 67, 70, 75, 80, 100, 200, *range(step, size, step), *[size - k for k in (1, 2, 3, 10, 100, 1000, 4096) if size > k]})
    if deep:
        cuts = sorted({*cuts, *range(1, 130), *range(4096, size, 4096), *[size - k for k in range(1, 40)]})

    def torn(c):
        """a process that was killed while it wrote the cache: all prefixes (at the listed lengths), also padded with zeros"""
        n = c.free(cuts)
        how = c.free(["cut", "zeros"] if deep else ["cut"])
        return State(f"cache cut after {n} of {size} bytes" + (", zeros up to its size" if how == "zeros" else ""), each(lambda b: b[:n] + (bytes(max(0, len(b) - n)) if how == "zeros" else b"")))

    def environment(c):
        """one deviation from a plain environment at a time"""
        env = c.dev([{}, {"PYTHONHASHSEED": "0"}, {"LC_ALL": "C"}, {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}, {"LANG": "de_DE.ISO-8859-1"}, {"LC_ALL": "tr_TR.UTF-8"}, {"PYTHONUTF8": "1"},
                     {"HOME": None, "USER": None, "LOGNAME": None}, {"USER": "a b"}, {"TMPDIR": None, "TMP": "@tmp"}, {"TMPDIR": None, "TEMP": "@tmp"}, {"PYTHONOPTIMIZE": "2"}, {"TZ": "Asia/Tokyo"},
                     {"PYTHONINTMAXSTRDIGITS": "0"}, {"PYTHONDEVMODE": "1"}, {"PYTHONMALLOC": "debug"}, {"COLUMNS": "10", "TERM": "dumb", "NO_COLOR": "1", "DEBUG": "1"}, {"PYTHONSAFEPATH": "1"},
                     {"PYTHONIOENCODING": "ascii"}, {"PYTHONIOENCODING": "latin-1:replace", "LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"CI": "true", "PYTEST_CURRENT_TEST": "x"}, {"XDG_CACHE_HOME": "@tmp", "VIRTUAL_ENV": "@tmp"}])
        flags = c.dev([[], ["-O"], ["-OO"], ["-B"], ["-E"], ["-s"], ["-W", "error"], ["-X", "dev"], ["-X", "utf8"], ["-b"], ["-X", "frozen_modules=off"]])
        cwd = c.dev(["base", "root", "repo", "package", "tmp"])
        tmp = c.dev(["tmp", "a b", "x" * 200, "$HOME", "{}", "%s"])
        cache, state = c.free([(True, "cold"), (False, "cold"), (True, "warm")] if deep else [(True, "cold"), (False, "cold")])
        return Process(env, flags, cwd, tmp, cache, state)

    def seeds(c):
        n = c.free(range(64 if deep else 10))
        cache, state = c.free([(False, "cold"), (True, "warm"), (True, "cold")] if deep else [(False, "cold"), (True, "warm")])
        return Process({"PYTHONHASHSEED": str(n)}, [], "base", "tmp", cache, state)

    def forks(c):
        return Fork(c.free(["off", "cold", "warm"]), bool(c.free(2)), bool(c.free(2)), c.free([1, 2]), c.free(["the main thread", "thread"]))

    starts = {"empty": dict, "torn": each(lambda b: b[:5000]), "foreign": each(lambda b: b"x\n" + b[65:]), "warm": each(lambda b: b)}

    def interleavings(c):
        label = c.free(list(starts) if deep else ["empty", "torn"])
        n = 2
        steps = 3
        left = [steps] * n
        order = []
        while any(left):
            alive = [i for i in range(n) if left[i]]
            # the processes are alike: the first one to move is called 0
            i = c.free(alive if order else alive[:1])
            left[i] -= 1
            order.append(i)
        return Interleaving(label, starts[label], order)

    def three(c):
        left = [2, 2, 2]
        order = [0, 1, 2]
        while any(left):
            i = c.free([i for i in range(3) if left[i] and (i == 0 or left[i - 1] < 2)])
            left[i] -= 1
            order.append(i)
        return Interleaving("empty", starts["empty"], order)

    def spliced(c):
        """two processes with different hash seeds wrote the same file at once: the front of one, the rest of the other"""
        a, b = c.free([(0, 1), (1, 0)])
        n = c.free(sorted({*range(8192, size, 8192 if deep else 65536), 65, 130}))
        return State(f"the first {n} bytes of the cache of a process with hash seed {a + 1}, then that of one with {b + 1}",
                     lambda: {k: S["seeded"][a][k][:n] + S["seeded"][b][k][n:] for k in S["seeded"][0]})

    S.setdefault("seeded", [cache_files(1), cache_files(2)])
    fams = [Family("cache states", states, judge_state), Family("torn caches", torn, judge_state), Family("spliced caches", spliced, judge_state), Family("environments", environment, judge_process, 2 if deep else 1),
            Family("hash seeds", seeds, judge_process), Family("forks", forks, judge_fork), Family("interleaved processes", interleavings, judge_interleaving)]
    if deep:
        fams.append(Family("three interleaved processes", three, judge_interleaving))
    return fams


def run(check):
    check.HANG_S = 600.0
    try:
        check.explore(families(check.tier))
    finally:
        shutil.rmtree(S["base"], ignore_errors=True)
