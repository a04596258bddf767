"""C15: text input, file input, tree rendering, and the requirement on the inputs."""
import hashlib
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

from ..common import *
from ..core import REPO, Family, Rejected, Skip, Violation, canon, digest, parser, warm
from ..iso import outcome
from .c11 import bases

LINES = ["\n", "\r\n", "\r", "\u2028", "\x85", "\x0b", "\x0c", "\n\r", "\r\r\n", ""]
PIECES = {
    "blank": "", "space": " ", "tab": "\t", "comment": "// c", "hash": "# c", "block": "/* a */", "var": "var x = 1", "string": "var s = 'é中\U0001f600'", "name": "var é = 1",
    "multi": "var m = '''a\nb'''", "array": "var a = [\n  1\n  2\n]", "object": "var o = {\n  k: 'v'\n}", "param": "@description('ü')\nparam p string = '\u00a0'", "res": "resource r 'A.B/c@1' = {\n  k: 1\n}",
    "import": "import {a as b} from 'f.bicep'", "scope": "targetScope = 'tenant'", "ls": "var s = '\u2028'", "nul": "var s = '\x00'", "bom": "\ufeff", "badscope": "targetScope = 'x'",
    "badsyntax": "var = 1", "open": "var x = '''", "openstr": "var x = '", "badref": "module m 'br:x' = {\n}", "cr": "var s = 'a\rb'", "crlf": "var m = '''a\r\nb'''", "char": "%", "eof": "var x =",
}

DIR = {}


def scratch():
    """A scratch directory of this process (workers are forked)."""
    if DIR.get("pid") != os.getpid():
        DIR["pid"] = os.getpid()
        DIR["dir"] = pathlib.Path(tempfile.mkdtemp(prefix=f"w{os.getpid()}-", dir=DIR["base"]))
    return DIR["dir"]


def mask(out, path):
    return tuple(mask(x, path) if isinstance(x, tuple) else x.replace(f"{path} file content", "Text") if isinstance(x, str) else x for x in out)


def decode(data):
    """What a text file with these bytes contains: UTF-8 with universal newlines."""
    return data.decode("utf-8").replace("\r\n", "\n").replace("\r", "\n")


class Bytes:
    def __init__(self, data, name="f.bicep", newlines=True):
        self.data, self.name = data, name

    def inputs(self):
        return repr(self.data)


def judge_file(case):
    f = scratch() / case.name
    f.write_bytes(case.data)
    os.utime(f, ns=(10**18, 10**18))
    out = []
    try:
        text = decode(case.data)
    except UnicodeDecodeError:
        text = None
    for lines in (False, True):
        p = parser(lines)
        for call in ("parse", "create_tree"):
            fn = getattr(p, call)
            got = mask(outcome(lambda: fn(file_path=f)), f)
            if text is None:
                if got[0] != "error":
                    raise Violation(f"{call}: a file that is not UTF-8 is accepted", case.inputs(), "rejected", got)
            else:
                want = outcome(lambda: fn(text=text))
                if got != want:
                    raise Violation(f"{call} of the file: {str(got)[:300]}, of its text: {str(want)[:300]}", case.inputs(), want, got)
            if f.read_bytes() != case.data or f.stat().st_mtime_ns != 10**18:
                raise Violation(f"{call} modified the file", case.inputs())
            out.append(got)
    left = [x.name for x in scratch().iterdir() if x != f]
    if left:
        raise Violation(f"files appeared next to the input: {left}", case.inputs())
    f.unlink()
    return digest(str(out))


# ---- accepted by the tree <=> accepted by the grammar --------------------------------------

SEMANTIC = ("VisitError", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError")


def judge_tree(case):
    """A document the model knows: both accept it.  Whatever it is: if the tree is refused so is the document, with the same
    error; if only the document is refused then for its meaning (a scope, reference or argument), not for its syntax."""
    text = case if isinstance(case, str) else case.text
    out = []
    for lines in (False, True):
        p = parser(lines)
        tree = outcome(lambda: p.create_tree(text=text))
        res = outcome(lambda: p.parse(text=text))
        if tree[0] == "error" and tree != res:
            raise Violation(f"create_tree: {tree}, parse: {str(res)[:300]}", text, tree, res)
        if tree[0] == "value" and res[0] == "error" and res[1].startswith("Unexpected"):
            raise Violation(f"create_tree accepts a text that the grammar of parse refuses: {res}", text, tree, res)
        if tree[0] == "value" and not tree[1].startswith("str:"):
            raise Violation("create_tree does not return a string", text, "str", tree)
        out.append((tree, res))
    if out[0][0] != out[1][0]:
        raise Violation("the tree depends on the line number setting", text, out[0][0], out[1][0])
    return "reject" if out[0][1][0] == "error" else digest(str(out))


def judge_valid(doc):
    judge_tree(doc)
    text = doc.text
    t = outcome(lambda: parser(False).create_tree(text=text))
    if t[0] == "error":
        raise Violation(f"a valid document has no tree: {t}", text, "a tree", t)
    return digest(t)


# ---- the calls themselves -------------------------------------------------------------------

class Call:
    def __init__(self, lines, call, kwargs, want):
        self.lines, self.call, self.kwargs, self.want = lines, call, kwargs, want

    def inputs(self):
        return f"{self.call}({self.kwargs}), line numbers {self.lines}"


def judge_call(case):
    d = scratch()
    (d / "g.bicep").write_bytes(b"var x = 1\n")
    (d / "e.bicep").write_bytes(b"")
    real = {k: (d / v[1:] if isinstance(v, str) and v.startswith("@") else v) for k, v in case.kwargs.items()}
    fn = getattr(parser(case.lines), case.call)
    got = outcome(lambda: fn(**real))
    ok = got[0] == "value" if case.want == "value" else got[0] == "error" and got[1] == case.want
    for n in ("g.bicep", "e.bicep"):
        (d / n).unlink()
    if not ok:
        raise Violation(f"expected {case.want}, got {str(got)[:300]}", case.inputs(), case.want, got)
    return digest(str(got))


class Path_:
    """A file of some name, given by some path, next to other files."""

    def __init__(self, data, name, form, others, cwd):
        self.data, self.name, self.form, self.others, self.cwd = data, name, form, others, cwd

    def inputs(self):
        return f"{self.data!r} in {self.name!r} given as {self.form} path from {self.cwd}, next to {self.others}"


def judge_path(case):
    d = pathlib.Path(tempfile.mkdtemp(dir=scratch()))
    old = os.getcwd()
    home = os.environ.get("HOME")
    try:
        (d / "in").mkdir()
        (d / "home").mkdir()
        os.environ["HOME"] = str(d / "home")
        f = d / "in" / case.name
        f.parent.mkdir(parents=True, exist_ok=True)
        f.write_bytes(case.data)
        (d / "home" / "f.bicep").write_bytes(b"var home = 1\n")
        for n in case.others:
            o = f.parent / n
            if not o.exists():
                o.write_bytes(b"param other int\n" if not n.endswith(".json") else b'{"cache": true, "other": 1}')
        os.chdir({"its directory": f.parent, "the directory above": d / "in", "another directory": d / "home", "/": "/"}[case.cwd])
        if case.form == "absolute":
            path = f
        elif case.form == "relative":
            path = pathlib.Path(os.path.relpath(f))
        elif case.form == "dotted":
            path = pathlib.Path(os.path.join(os.path.relpath(f.parent), "..", f.parent.name, f.name))
        else:
            path = d / "home" / "link.bicep"
            path.symlink_to(f)
        before = {str(x): x.read_bytes() for x in sorted(d.rglob("*")) if x.is_file()}
        out = []
        for lines in (False, True):
            p = parser(lines)
            for call in ("parse", "create_tree"):
                fn = getattr(p, call)
                got = mask(outcome(lambda: fn(file_path=path)), path)
                want = outcome(lambda: fn(text=decode(case.data)))
                if got != want:
                    raise Violation(f"{call} of the file: {str(got)[:300]}, of its text: {str(want)[:300]}", case.inputs(), want, got)
                out.append(got)
        after = {str(x): x.read_bytes() for x in sorted(d.rglob("*")) if x.is_file()}
        if before != after:
            raise Violation("files were changed or added", case.inputs(), sorted(before), sorted(after))
        return digest(str(out).replace(str(d), ""))
    finally:
        os.chdir(old)
        if home is not None:
            os.environ["HOME"] = home
        shutil.rmtree(d)


class Named:
    """A text that is the name of something that exists."""

    def __init__(self, text, name, relative):
        self.text, self.name, self.relative = text, name, relative

    def inputs(self):
        return f"{self.text!r} while a file or directory {self.name!r} exists"


def judge_named(case):
    d = pathlib.Path(tempfile.mkdtemp(dir=scratch()))
    old = os.getcwd()
    os.chdir(d)
    text = case.text.replace("@dir", str(d))
    try:
        calls = [(lines, call) for lines in (False, True) for call in ("parse", "create_tree")]
        want = [outcome(lambda: getattr(parser(lines), call)(text=text)) for lines, call in calls]
        p = d / case.name
        p.parent.mkdir(parents=True, exist_ok=True)
        if not p.exists():
            p.write_text("var fromfile = 1\n")
        got = [outcome(lambda: getattr(parser(lines), call)(text=text)) for lines, call in calls]
        if got != want:
            raise Violation(f"a text is answered by the file of that name: {got}", case.inputs(), want, got)
        return digest(str(got))
    finally:
        os.chdir(old)
        shutil.rmtree(d)


# ---- environments ---------------------------------------------------------------------------

WORKER = """
import hashlib, json, os, pathlib, sys
sys.dont_write_bytecode = True
sys.path[:0] = [{repo!r}, {verif!r}]
from mc.iso import outcome
from pycep import BicepParser
os.chdir({cwd!r})
out = []
for lines in (False, True):
    p = BicepParser(add_line_numbers=lines, cache=False)
    for f in {files!r}:
        for call in ("parse", "create_tree"):
            r = outcome(lambda: getattr(p, call)(file_path=pathlib.Path(f)))
            out.append(hashlib.sha256(repr(r).encode("utf-8", "surrogatepass")).hexdigest())
print(json.dumps(out))
"""


class Env:
    def __init__(self, env, flags, style):
        self.env, self.flags, self.style = env, flags, style

    def inputs(self):
        return f"environment {self.env}, interpreter options {self.flags}, {self.style} paths"


ENV_FILES = {}


def judge_env(case):
    base = pathlib.Path(DIR["base"]) / "env"
    names = sorted(ENV_FILES)
    files = [str(base / n) if case.style == "absolute" else n if case.style == "relative" else f"../env/./{n}" for n in names]
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "TMPDIR": str(scratch()), **case.env}
    r = subprocess.run([sys.executable, *case.flags, "-c", WORKER.format(repo=REPO, verif=os.path.dirname(os.path.dirname(os.path.dirname(__file__))), cwd=str(base), files=files)],
                       env=env, capture_output=True, text=True, timeout=300)
    if r.returncode:
        raise Violation(f"parsing files fails: {r.stderr[-600:]}", case.inputs(), "results", r.stderr[-2000:])
    got = json.loads(r.stdout)
    want = []
    for lines in (False, True):
        for n, f in zip(names, files):
            text = decode(ENV_FILES[n])
            for call in ("parse", "create_tree"):
                o = outcome(lambda: getattr(parser(lines), call)(text=text))
                # the message of a file names it
                o = tuple(x.replace("Text is invalid", f"{pathlib.Path(f)} file content is invalid") if isinstance(x, str) else x for x in o)
                want.append(hashlib.sha256(repr(o).encode("utf-8", "surrogatepass")).hexdigest())
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            n = names[i // 2 % len(names)]
            raise Violation(f"the file with {ENV_FILES[n]!r} is not answered like its text ({'parse' if i % 2 == 0 else 'create_tree'})", case.inputs() + f", file {ENV_FILES[n]!r}", b, a)
    return digest(str(got))


def prepare():
    if "base" in DIR:
        return
    warm()
    DIR["base"] = tempfile.mkdtemp(prefix="c15-")
    e = pathlib.Path(DIR["base"]) / "env"
    e.mkdir()
    for i, t in enumerate(PIECES.values()):
        ENV_FILES[f"f{i:02}.bicep"] = (t + "\n").encode()
    ENV_FILES["g.bicep"] = "\r\n".join([PIECES[k] for k in ("comment", "string", "multi", "array", "param")]).encode()
    ENV_FILES["empty.bicep"] = b""
    for n, b in ENV_FILES.items():
        (e / n).write_bytes(b)


def families(tier):
    prepare()
    deep = tier == "thorough"
    small, big = bases()
    docs = small + big
    pieces = list(PIECES.values())

    def files(c):
        """every sequence of pieces with every kind of line break"""
        n = c.free([0, 1, 2])
        nl = c.free(LINES)
        end = c.free([True, False])
        ps = [c.free(pieces) for _ in range(n)]
        return Bytes((nl.join(ps) + (nl if end else "")).encode("utf-8"))

    def files3(c):
        nl = c.free(LINES[:3])
        ps = [c.free(pieces) for _ in range(3)]
        return Bytes((nl.join(ps) + nl).encode("utf-8"))

    def documents(c):
        d = c.free(docs)
        nl = c.free(LINES[:3])
        return Bytes(d.text.replace("\n", nl).encode("utf-8"))

    def names(c):
        d = docs[0].text
        return Bytes(d.encode(), c.free(["f.bicep", "f", "f.txt", "ü中.bicep", "a b.bicep", "-x.bicep", ".bicep", "f.bicep.json", "${x}.bicep", "%s.bicep", "{0}", "x" * 200]))

    def undecodable(c):
        d = c.free(["var x = 1\n", "var x = 'a'\n", "// c\n", "/* c */", "var m = '''a\n'''\n"])
        i = c.free(len(d) + 1)
        bad = c.free([b"\xff", b"\xe9", b"\xc3", b"\x80", b"\xed\xa0\x80", b"\xc0\xaf", b"\xf5\x80\x80\x80"])
        return Bytes(d[:i].encode() + bad + d[i:].encode())

    def sizes(c):
        """contents around buffer sizes; characters of several bytes across the boundary"""
        n = c.free([4095, 4096, 4097, 8190, 8191, 8192, 8193, 16384, 65535, 65536, 65537] + ([1 << 20] if deep else []))
        ch = c.free(["a", "é", "中", "\U0001f600", "\r\n"])
        pre = c.free(["// ", "/* a", "var s = '"])
        body = "x" * (n - len(pre)) + ch * 3
        return Bytes((pre + body + {"// ": "\n", "/* a": "*/\n", "var s = '": "'\n"}[pre] + "var y = 1\n").encode())

    def valid(c):
        return c.free(docs)

    def pair_texts(c):
        n = c.free([1, 2] + ([3] if deep else []))
        return Case("\n".join(c.free(pieces) for _ in range(n)) + c.free(["", "\n"]), None)

    def prefixes(c):
        d = c.free(docs if deep else docs[::2])
        return Case(d.text[:c.free(len(d.text) + 1)], None)

    def calls(c):
        lines, call = c.free([False, True]), c.free(["parse", "create_tree"])
        good = ["", " ", "var x = 1\n", "// c"]
        bad = ["var", "'", "targetScope"]
        text = c.free([("none", None), ("missing", None), *[("good", t) for t in good], *[("bad", t) for t in bad]])
        file = c.free([("none", None), ("missing", None), ("good", "@g.bicep"), ("good", "@e.bicep"), ("absent", "@no.bicep")])
        kw = {}
        if text[0] != "missing":
            kw["text"] = text[1]
        if file[0] != "missing":
            kw["file_path"] = file[1]
        given = [text[1] is not None, file[1] is not None]
        if sum(given) != 1:
            want = "TypeError"
        elif given[0]:
            want = "value" if text[0] == "good" else None
        else:
            want = "value" if file[0] == "good" else "FileNotFoundError"
        if want is None:
            raise Skip
        return Call(lines, call, kw, want)

    def named(c):
        name = c.free(["f.bicep", "x", "a b", "#c", "# c", "main.bicep", "é.bicep", "sub/f.bicep", "var x = 1", "targetScope = 'tenant'", "f.json", "f.txt", "~", "-", "{}", "@f.bicep"])
        text = c.free([name, "./" + name, "@dir/" + name, name + "\n", "@dir", ".", "", "@dir/" + name + "\n", "file://@dir/" + name, "'@dir/" + name + "'", "@" + name, "// " + name])
        return Named(text, name, True)

    def paths(c):
        data = c.free([b"", b"\n", b"// c\n", b"var x = 1\n", b"var x = '''a'''\r\nvar y = \n", b"var x = '''\n"])
        name = c.free(["f.bicep", "~", "~root", "~/f.bicep", "$HOME", "%41.bicep", "*.bicep", "?", "[a].bicep", "a b", "f.bicep~", "-", "--", "con", "f.bicep.lnk", "f.gz", "f.json", "main.bicep", "F.BICEP", "\n", "é", "e\u0301", "sub/f.bicep", "a\\b",
                       "file:f.bicep", "http:f", "x#y", "x?y", "{f}", "f.bicep "])
        form, cwd = c.free([("relative", "its directory"), ("absolute", "another directory"), ("relative", "the directory above"), ("relative", "another directory"), ("dotted", "its directory"), ("link", "another directory"), ("relative", "/")])
        others = c.free([[], ["main.bicep", "bicepconfig.json", "f.bicep", "other.bicep", "f.json", "f", "f.bicepparam", "__init__.bicep", ".env", "link.bicep"]])
        return Path_(data, name, form, others, cwd)

    def environments(c):
        env = c.free([{"LC_ALL": "C"}, {"LC_ALL": "POSIX"}, {"LC_ALL": "C.UTF-8"}, {"LANG": "en_US.ISO-8859-1"}, {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"},
                      {"PYTHONIOENCODING": "ascii"}, {"PYTHONUTF8": "1"}, {}] if deep else [{"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}, {"LANG": "en_US.ISO-8859-1"}, {"LC_ALL": "C.UTF-8"}, {"PYTHONUTF8": "1"}])
        flags = c.free([[], ["-O"], ["-X", "dev"], ["-I", "-S"][:1], ["-W", "error::EncodingWarning", "-X", "warn_default_encoding"]] if deep else [[], ["-OO"]])
        if flags == ["-I"]:
            raise Skip
        return Env(env, flags, c.free(["absolute", "relative", "dotted"] if deep else ["absolute", "relative"]))

    fams = [Family("files", files, judge_file), Family("documents in files", documents, judge_file), Family("file names", names, judge_file), Family("undecodable files", undecodable, judge_file),
            Family("file sizes", sizes, judge_file), Family("trees of valid documents", valid, judge_valid), Family("trees of texts", pair_texts, judge_tree),
            Family("trees of cut documents", prefixes, judge_tree), Family("calls", calls, judge_call), Family("texts that name files", named, judge_named), Family("names and surroundings", paths, judge_path), Family("environments", environments, judge_env)]
    if deep:
        fams.append(Family("longer files", files3, judge_file))
    return fams


def run(check):
    try:
        check.explore(families(check.tier))
    finally:
        shutil.rmtree(DIR["base"], ignore_errors=True)
