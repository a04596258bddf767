"""C24: rejections of texts that are no documents say where the fault is."""
import os
import pathlib
import shutil
import tempfile

from ..common import *
from ..core import Family, Skip, Violation, digest, parser, warm
from ..gaps import join, kind, split
from .c11 import FEW, OF, bases

# characters that no token begins with or contains (outside strings and comments)
NEVER = [";", "^", "~", "`", '"', "\\", "$", "\u00a7", "\x00", "\x7f", "\x1a", "\u20ac", "\ufeff", "\u2013", "\U0001f600", "\u201c", "\u037e", "\u2212", "\x1b"]
# contents of strings and comments
CONTENTS = ["", "a", "\\'", "\\'\\'", "a\\'", "\\'\\'\\'", "\\\\", "\\\\\\'", "//", "/*", "*/", "#", "${a}", "${'b'}", "${''}", "\\${", "{", "}", "[", "(", ")", "\"", "\"\"\"", ";", "\u00e9", "\U0001f600", "e\u0301", "\t", "\\n", "\\r\\n", "\u2028", "\x85", "\x0b", "\x0c", "\x1c", "\x00", " ", "@secure()", "%s", "\u200b", "\u6f22\u5b57"]
CLOSE = {"(": ")", "[": "]", "{": "}"}

DIR = {}


class Fault:
    """A text with a fault at an offset; exact: the error has to point there, otherwise there or behind it."""

    def __init__(self, text, at, exact=True, file=None):
        if text.count("'''") % 2:
            raise Skip  # rejected as a whole
        self.text, self.at, self.exact, self.file = text, at, exact, file

    def inputs(self):
        return self.text if self.file is None else f"file with line breaks {self.file!r}: {self.text!r}"


def place(text, at):
    """Line and column, counted from one, of an offset."""
    return text.count("\n", 0, at) + 1, at - text.rfind("\n", 0, at)


def calls(case):
    if case.file is None:
        yield "parse", lambda: parser(False).parse(text=case.text)
        yield "parse with line numbers", lambda: parser(True).parse(text=case.text)
        yield "create_tree", lambda: parser(False).create_tree(text=case.text)
        return
    if DIR.get("pid") != os.getpid():
        DIR["pid"] = os.getpid()
        DIR["dir"] = pathlib.Path(tempfile.mkdtemp(prefix=f"w{os.getpid()}-", dir=DIR["base"]))
    f = DIR["dir"] / "f.bicep"
    f.write_bytes(case.text.replace("\n", case.file).encode("utf-8"))
    yield "parse of the file", lambda: parser(False).parse(file_path=f)
    yield "create_tree of the file", lambda: parser(True).create_tree(file_path=f)


def rejection(fn, name, case):
    try:
        r = fn()
    except Exception as e:
        return e
    if case.exact:
        raise Violation(f"{name}: accepted, although there is a fault at {place(case.text, case.at)}", case.inputs(), "rejected", r)
    return None


def judge(case):
    out = "accepted"
    for name, fn in calls(case):
        e = rejection(fn, name, case)
        if e is None:
            continue
        line, column = getattr(e, "line", None), getattr(e, "column", None)
        if not case.exact and line is None:
            continue  # another kind of fault, of a document that can be read as such
        want = place(case.text, case.at)
        told = f"{name}: the error tells line {line} and column {column}, the fault is at line {want[0]} and column {want[1]}"
        if not isinstance(line, int) or not isinstance(column, int):
            raise Violation(f"{told} ({type(e).__name__}: {str(e)[:200]})", case.inputs(), want, (line, column))
        if (line, column) != want if case.exact else (line, column) < want:
            raise Violation(told, case.inputs(), want, (line, column))
        text = str(e).replace(case.text, "")
        if case.exact and not (f"line {line}" in text and f"col {column}" in text.replace("column", "col")):
            raise Violation(f"{name}: the text of the error does not tell line {line} and column {column}", case.inputs(), want, text[:500])
        lines = case.text.split("\n")
        if line > len(lines) or column > len(lines[line - 1]) + 1:
            raise Violation(f"{name}: the error tells line {line} and column {column}, which the text does not have", case.inputs(), want, (line, column))
        out = digest(f"{name} {line} {column} {type(e).__name__}")
    return out


class Open:
    """A text that ends inside a multi-line string."""

    def __init__(self, text, file):
        self.text, self.file = text, "\n" if file else None

    def inputs(self):
        return self.text


def judge_open(case):
    for name, fn in calls(case):
        try:
            r = fn()
        except ValueError as e:
            if "invalid" not in str(e) or case.file and str(DIR["dir"] / "f.bicep") not in str(e):
                raise Violation(f"{name}: the error does not tell that the content (of the file) is invalid", case.text, "content is invalid", str(e))
        except Exception as e:
            raise Violation(f"{name}: an unclosed multi-line string is {type(e).__name__}", case.text, "ValueError", repr(e))
        else:
            raise Violation(f"{name}: an unclosed multi-line string is accepted", case.text, "ValueError", r)
    return "reject"


def starts(tokens, gaps):
    pos, out = 0, []
    for g, t in zip(gaps, tokens):
        pos += len(g)
        out.append(pos)
        pos += len(t)
    out.append(pos + len(gaps[-1]))
    return out


def insert(t, g, i, fault, where):
    """The fault at the end or the beginning of gap i, alone or with blanks; and its offset."""
    g = list(g)
    if fault == "~" and i and t[i - 1][-1] in "!=":
        raise Skip  # an operator
    before = {"end": g[i], "end, blank": g[i] + " ", "end, blank after": g[i], "begin": "", "begin, blank": " "}[where]
    if where.startswith("end"):
        g[i] = before + fault + (" " if where == "end, blank after" else "")
    else:
        g[i] = before + fault + g[i]
    return g, sum(len(g[k]) + len(t[k]) for k in range(i)) + len(before)


WHERE = ["end", "end, blank", "end, blank after", "begin", "begin, blank"]


def families(tier):
    deep = tier == "thorough"
    if "base" not in DIR:
        DIR["base"] = tempfile.mkdtemp(prefix="c24-")
    small, big = bases()
    docs = small + big + [
        Doc([d_var("x", multi("\na\n  b\n")), d_var("y", multi("c")), d_param("z", t_name("int"))]),
        Doc([d_var("x", string("${a['${b}']}")), d_var("y", array([string("'${c}'".strip("'")), multi("")]))]),
    ]
    parts = [split(d.text) for d in docs]
    kinds = [[kind(t, g, i) for i in range(len(g))] for t, g in parts]
    some = range(len(docs)) if deep else range(0, len(docs), 3)

    def one(c):
        k = c.free(len(docs))
        t, g = parts[k]
        i = c.free(len(g))
        x = c.free(NEVER)
        g, at = insert(t, g, i, x, c.free(WHERE if deep else WHERE[1:4]))
        return Fault(join(t, g), at)

    def trivia(c):
        """what stands before the fault is counted as it is written"""
        k = c.free(some)
        t, g = parts[k]
        i = c.free(len(g))
        g = list(g)
        g[i] = c.free([*OF[kinds[k][i]], *(["\n\r\n", " // c\r\n\t", "/* a\r\nb */\n"] if kinds[k][i] == "line" else [])])
        if kinds[k][i] == "tail" and ("//" in g[i] or "#" in g[i]) and not g[i].endswith("\n"):
            raise Skip
        j = c.free([i, len(g) - 1] if not deep else [i, min(i + 1, len(g) - 1), len(g) - 1])
        if j == len(g) - 1 and j != i:
            g[j] = "\n"
        h, at = insert(t, g, j, c.free([";", "\u20ac"]), "end")
        return Fault(join(t, h), at)

    def trivia_everywhere(c):
        k = c.free(len(docs))
        t, g = parts[k]
        crlf, gap = c.free(2), c.free(2)
        g = [x if not gap else {"line": "/* a\n\n*/ // c\n\t", "head": "// c\n\n", "tail": "\n"}.get(y, " /* b\n */ ") for x, y in zip(g, kinds[k])]
        if crlf:
            g = [x.replace("\n", "\r\n") for x in g]
        i = c.free(len(g))
        h, at = insert(t, g, i, ";", "end")
        return Fault(join(t, h), at)

    def two(c):
        """the first fault is the one"""
        k = c.free(some)
        t, g = parts[k]
        i = c.free(len(g))
        j = c.free(range(i, len(g)))
        x, y = c.free([";", '"']), c.free(["^", ")", "}", "'"])
        g, _ = insert(t, g, j, y, "end")
        if i == j:
            g = list(parts[k][1])
            h, at = insert(t, g, i, x + y, "end")
        else:
            h, at = insert(t, g, i, x, "end")
        return Fault(join(t, h), at)

    def brackets(c):
        """a closing bracket that does not close the innermost open one"""
        k = c.free(len(docs))
        t, g = parts[k]
        i = c.free(len(g))
        stack = []
        for x in t[:i]:
            if x[-1] in CLOSE and x[0] != "'":
                stack.append(CLOSE[x[-1]])
            elif x in (")", "]", "}"):
                stack.pop()
        x = c.free([")", "]", "}"])
        if stack and stack[-1] == x:
            raise Skip
        g, at = insert(t, g, i, x, c.free(["end, blank", "end", "begin"]))
        return Fault(join(t, g), at)

    def down(c):
        """far down and far to the right"""
        n = c.free([0, 1, 2, 9, 10, 99, 100, 255, 256, 999, 1000, 4095, 4096, 9999, 10000, *([65535, 65536, 100000] if deep else [])])
        how = c.free(["blank", "comment", "crlf", "block", "declarations", "multi", "array", "right string", "right name", "right blank", "right wide", "right tabs", "right block", "right array"])
        x = c.free(NEVER if deep else NEVER[:3])
        pre = {"blank": "\n" * n, "comment": "// c\n" * n, "crlf": "\r\n" * n, "block": "/*" + "\n" * n + "*/\n", "declarations": "".join(f"var v{i} = 1\n" for i in range(min(n, 1000))), "multi": "var x = '''" + "\n" * n + "'''\n",
               "array": "var x = [\n" + "  1\n" * min(n, 1000) + "]\n", "right string": "var x = '" + "s" * n + "' ", "right name": "var x = " + "n" * (n + 1) + " ", "right blank": "var x = 1" + " " * n, "right wide": "var x = '" + "\U0001f600" * n + "' ",
               "right tabs": "var x = 1" + "\t" * n, "right block": "var x = 1 /*" + "\u4e2d" * n + "*/", "right array": "var x = [" + "1, " * min(n, 1000)}[how]
        return Fault(pre + x + c.free(["", "\n", "1\nvar y = 2\n"]), len(pre))

    def files(c):
        k = c.free(some)
        t, g = parts[k]
        i = c.free(len(g))
        g, at = insert(t, g, i, c.free([";", '"', "\u20ac"]), "end")
        return Fault(join(t, g), at, file=c.free(["\n", "\r\n", "\r"]))

    def edits(c):
        """any edit: not before the last token that was not touched"""
        k = c.free(len(docs))
        t, g = parts[k]
        i = c.free(len(t))
        what = c.free(["delete", "double", "swap", "cut", "word", "number", "string", "join", "symbol"])
        t, g = list(t), list(g)
        if what == "delete":
            del t[i], g[i]
        elif what == "double":
            t.insert(i, t[i])
            g.insert(i + 1, " ")
        elif what == "swap":
            if i + 1 == len(t):
                raise Skip
            t[i], t[i + 1] = t[i + 1], t[i]
        elif what == "cut":
            t, g = t[:i], g[:i + 1]
        elif what == "join":
            if not 0 < i:
                raise Skip
            g[i] = ""
        else:
            t[i] = c.free({"word": ["a", "null", "for", "resource", "param"], "number": ["1", "-1"], "string": ["'s'", "''"], "symbol": ["=", ":", ",", "?", ".", "@", "=>", "!", "-", "*", "|"]}[what])
        text = join(t, g)
        at = starts(t, g)[i - 1] if i else 0
        return Fault(text, at, False)

    def ends(c):
        """what follows does not move the fault"""
        k = c.free(some)
        t, g = parts[k]
        i = c.free(len(g))
        h, at = insert(t, g, i, ";", "end")
        rest = c.free(["", "\n", "'", "\"", "}", "\n\n// c", "'${", " '''\n'''", "\nvar y = (\n", "/*", ";;;;", "\r", "\x00", "x" * 3000, "(" * 60])
        return Fault(join(t[:i], h[:i + 1]) + rest, at)

    def strings_before(c):
        """strings and comments of every content before the fault"""
        a, b = c.free(CONTENTS), c.free(CONTENTS)
        how = c.free(["two strings", "array", "string and comment", "comment and string", "block", "multi", "multi lines", "interpolated"])
        pre = {"two strings": f"var x = '{a}'\nvar y = '{b}'\n", "array": f"var x = ['{a}', '{b}']\n", "string and comment": f"var x = '{a}' // {b}\n", "comment and string": f"// {a}\nvar x = '{b}'\n", "block": f"/* {a} */ var x = '{b}'\n",
               "multi": f"var x = '''{a}'''\nvar y = '{b}'\n", "multi lines": f"var x = '''\n{a}\n\n{b}\n'''\n", "interpolated": f"var x = '{a}${{f('{b}')}}{a}'\n"}[how]
        if how == "block" and "*/" in a or how == "multi" and (a.endswith("'") or "'''" in a) or how == "multi lines" and "'''" in a + b:
            raise Skip
        return Fault(pre + "var z = ;\n", len(pre) + 8)

    def unclosed(c):
        """cut inside a multi-line string"""
        n = c.free(4)
        content = c.free(["", "a", "\n", "\na\nb\n", "it's", "''", " // c", "${x}", ")"])
        pre = "".join(d.text for d in [Doc([d_var(f"a{i}", multi("\nb"))]) for i in range(n)])
        host = c.free(["var x = {}", "param x string = {}", "var x = [\n  1\n  {}", "var x = fn({}", "@description({}", "resource r 'A@1' = {{\n  k: {}", "var x = a ? {}", "metadata m = {}", "output o string = {}"])
        return Open(pre + host.format("'''" + content), bool(c.free(2)))

    return [Family("unclosed multi-line strings", unclosed, judge_open), Family("far away", down, judge), Family("what follows", ends, judge), Family("files", files, judge), Family("strings before", strings_before, judge), Family("brackets", brackets, judge),
            Family("trivia everywhere", trivia_everywhere, judge), Family("one fault", one, judge), Family("trivia before", trivia, judge), Family("two faults", two, judge), Family("edits", edits, judge)]


def run(check):
    try:
        check.explore(families(check.tier), warm)
    finally:
        shutil.rmtree(DIR["base"], ignore_errors=True)
