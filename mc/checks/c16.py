"""C16: nothing of an accepted text is lost.

The states of the search are token sequences; the transition function is the real parser: a sequence is extended
only if the parser does not already reject it before its end.  Every state is also a trace: its answer has to
account for every token.
"""
from ..common import *
from ..core import Family, Rejected, Skip, Violation, digest_result, parse, warm
from ..leaves import accounted, repeats, tokens


class Seq:
    def __init__(self, text, result=None):
        self.text, self.result = text, result

    def inputs(self):
        return self.text


def dead(r):
    """Whether a rejection happened strictly before the end of the text, so that no continuation is accepted."""
    if not isinstance(r, Rejected):
        return False
    if r.name == "UnexpectedCharacters":
        return True
    return r.name == "UnexpectedToken" and r.exc.token.type != "$END"


def judge(case):
    r = case.result if case.result is not None else parse(case.text, True)
    if isinstance(r, Rejected):
        return "reject"
    ts = tokens(case.text)
    if ts is None:
        raise Violation("accepted, although it cannot be split into tokens", case.text, "rejected", r)
    why = accounted(r, ts)
    if why:
        if repeats(ts):
            return "repeated"
        raise Violation(f"accepted without accounting for everything: {why}", case.text, "rejected, or everything in the result", r)
    return digest_result(r)


def render(t, i):
    """Names and literals are numbered by their position, so that each can be told from all others."""
    return t.replace("$", str(i))


# token alphabets; '$' is the position of the token
EXPR = ["a$", "'s$'", "1$", "(", ")", "[", "]", "-", "!", "?", ":", "+", ".", "=>", ",", "fn$(", "."]
OPER = ["a$", "1$", "(", ")", "-", "!", "?", ":", "==", "&&", "??", "::", ".", "=>"]
CALL = ["a$", "'s$'", "null", "(", ")", ",", "fn$(", "toLower(", "resourceGroup(", "substring(", ".listKeys(", ".", "sys.concat(", "\n", "[", "]"]
CONT = ["a$", "'s$'", "1$", "null", "[", "]", "{", "}", "k$:", "'q$':", ",", "\n", "resource", "?"]
DECL = ["param", "var", "output", "a$", "=", "'s$'", "1$", "string", "\n", "?", "[", "]", "(", ")", "|"]
DECL2 = ["resource", "module", "type", "metadata", "targetScope", "func", "a$", "=", "'t$@v'", "'tenant'", "existing", "{", "}", "\n", "=>", "(", ")", "string"]
DECO = ["@", "@d$(", "@secure(", "@minValue(", "@sys.allowed(", ")", "a$", "'s$'", "1$", "-", "param", "string", "[", "]", "\n", ",", "metadata", "="]
RES = ["{", "}", "if(", "if", "(", ")", "a$", "k$:", "\n", "resource", "'t$'", "existing", "=", "[", "for", "in", ":", "]"]
LOOP = ["a$", "in", ":", "(", ")", ",", "if(", "if", "items(", "items", "{", "}", "k$:", "]", "\n", "[", "for", "null"]
FUNC = ["(", ")", "a$", ",", "=>", "[", "]", "|", "?", "\n", "'s$'", "string", "func"]
TYPE = ["a$", "(", ")", "|", "[", "]", "?", "=", "1$", "'s$'", "\n", "{", "}", "k$:", ",", "null"]
IMP = ["{", "}", "a$", "as", ",", "from", "'s$'", "*", "\n", "import", "var", "="]
EXT = ["a$", "with", "as", "{", "}", "k$:", "'s$'", "\n", "extension", ",", "1$", "import"]

# name, text before, alphabet, text after (and closing text that is only there for the answer), depth quick / thorough
ROOTS = [
    ("value", "var x = ", EXPR, "", 5, 6),
    ("operators", "var x = ", OPER, "", 6, 7),
    ("operators in brackets", "var x = [\na0 ", OPER, "\n]", 5, 6),
    ("calls", "var x = fn0(", CALL, "", 5, 6),
    ("calls of calls", "output x string = toLower(a0", CALL, ")", 5, 6),
    ("accessors", "var x = a0", CALL, "", 5, 6),
    ("array", "var x = [", CONT, "", 5, 6),
    ("object", "var x = {", CONT, "", 5, 6),
    ("object on lines", "var x = {\nk0: a0", CONT, "\n}", 5, 6),
    ("array on lines", "var x = [\na0", CONT, "\n]", 5, 6),
    ("declarations", "", DECL, "", 6, 7),
    ("declarations 2", "", DECL2, "", 6, 7),
    ("after a declaration", "var x = a0", DECL, "", 5, 6),
    ("after an object", "var x = {}", DECL2, "", 5, 6),
    ("decorators", "", DECO, "\nvar x = 0", 5, 6),
    ("decorator arguments", "@d0(", DECO, "param x string", 5, 6),
    ("resource", "resource x 'A.B/c@1' ", RES, "", 6, 7),
    ("resource body", "resource x 'A.B/c@1' = {\n", RES, "\n}", 5, 6),
    ("conditional resource", "resource x 'A.B/c@1' = if (", RES, "", 5, 6),
    ("module", "module x './m.bicep' = ", RES, "", 6, 7),
    ("loop", "var x = [for ", LOOP, "", 6, 7),
    ("loop source", "var x = [for a0 in ", LOOP, "", 5, 6),
    ("loop filter", "var x = [for a0 in b0: ", LOOP, "", 5, 6),
    ("loop filter on lines", "resource x 'A.B/c@1' = [for a0 in b0:\n", LOOP, "{}]", 4, 5),
    ("loop body", "var x = [for a0 in b0: if (c0) ", LOOP, "", 4, 5),
    ("indexed loop", "output x array = [for (", LOOP, " a: b]", 6, 7),
    ("function declaration", "func f", FUNC, "", 7, 8),
    ("function result", "func f(p0 q0) ", FUNC, "", 6, 7),
    ("parameter type", "param x ", TYPE, "", 6, 7),
    ("variable type", "var x ", TYPE, " = 0", 6, 7),
    ("type declaration", "type x = ", TYPE, "", 5, 6),
    ("type union", "type x = 's0' | ", TYPE, "", 5, 6),
    ("imports", "import ", IMP, "", 7, 8),
    ("braced imports", "import {a0", IMP, " from 'p'", 6, 7),
    ("extensions", "extension ", EXT, "", 6, 7),
    ("extension configuration", "extension e with {", EXT, "}", 6, 7),
    ("lambda", "var x = map(a0, ", OPER + [",", "{", "}", "k$:"], ")", 5, 6),
]

JUNK = ["zz$", "'zs$'", "77", "null", "+", "-", "!", "?", ":", ",", "(", ")", "[", "]", "{", "}", "=", "=>", ".", "::", "@", "|", "\n", "if", "for", "in",
        "param", "var", "existing", "as", "'", "`", ";", "$", "\\", "==", "zf$(", "resource", "\x00", "\x1a", "\x04", "\x0c", "\x1b", "\u2028", "\ufeff", "\u200b", "\xa0", '"', "&", "<", "%",
        "~", "^", "...", "//", "/*", "*/", "#", "'''", "\n\n", "${", "}'"]


CS = [", ", ","]
NL = ["\n", "\n\n  "]
# name -> text before, a part ('$' is its number), separators, text after
WIDE = {
    "array": ("var x = [", "'a$'", CS, "]"),
    "array on lines": ("var x = [\n", "a$", NL, "\n]\n"),
    "object": ("var x = {", "k$: a$", CS, "}"),
    "object on lines": ("var x = {\n", "'k$': $", NL, "\n}\n"),
    "arguments": ("var x = fn(", "a$", [*CS, ",\n"], ")"),
    "known": ("var x = concat(", "a$", [*CS, ",\n"], ")"),
    "format": ("var x = format(", "'a$'", CS, ")"),
    "resource id": ("var x = resourceId(", "'a$'", CS, ")"),
    "accessor": ("var x = v.listKeys(", "a$", CS, ")"),
    "lambda": ("var x = reduce(v, 0, (", "a$", CS, ") => b)"),
    "parameters": ("func f(", "a$ t$", CS, ") string => 1"),
    "union": ("param x ", "a$", [" | "], "\n"),
    "union of literals": ("type x = ", "'a$'", [" | ", "\n| "], "\n"),
    "union of numbers": ("output x ", "a$[]", [" | "], " = 1"),
    "imports": ("import {", "a$ as b$", [*CS, "\n"], "} from 'f'"),
    "decorators": ("", "@d$(a$)", ["\n", " "], "\nparam x int"),
    "decorators without arguments": ("", "@d$()", ["\n", " "], "\nresource x 'A/b@1' = {}"),
    "decorator arguments": ("@d(", "a$", CS, ")\nparam x int"),
    "sum": ("var x = ", "a$", [" + "], "\n"), "difference": ("var x = ", "a$", [" - "], "\n"), "product": ("var x = ", "a$", [" * "], "\n"),
    "and": ("var x = ", "a$", [" && "], "\n"), "or": ("var x = ", "a$", [" || "], "\n"), "coalesce": ("var x = ", "a$", [" ?? "], "\n"),
    "equal": ("var x = ", "a$", [" == "], "\n"), "less": ("var x = ", "a$", [" < "], "\n"), "mixed": ("var x = ", "a$ + b$ * c$", [" == ", " && "], "\n"),
    "dots": ("var x = ", "a$", ["."], "\n"), "colons": ("var x = ", "a$", ["::"], "\n"), "index": ("var x = v", "[a$]", [""], "\n"),
    "index and dot": ("var x = v", "[a$].b$", [""], "\n"), "accessors": ("var x = v", ".list$(a$)", [""], "\n"), "bangs": ("var x = v", "!", [""], ".a\n"),
    "minus": ("var x = ", "-", ["", " "], "a\n"), "not": ("var x = ", "!", ["", " "], "a\n"),
    "variables": ("", "var x$ = a$", NL, "\n"), "parameters of a file": ("", "param x$ t$ = 'a$'", NL, "\n"), "outputs": ("", "output x$ t$ = a$", NL, "\n"),
    "types": ("", "type x$ = a$", NL, "\n"), "functions": ("", "func f$(a$ b$) c$ => d$", NL, "\n"), "metadata": ("", "metadata m$ = 's$'", NL, "\n"),
    "resources": ("", "resource r$ 'T.U/v$@$' = {\n  k$: a$\n  resource c$ 't$' = {\n    l$: b$\n  }\n}", NL, "\n"), "modules": ("", "module m$ './f$.bicep' = {\n  k$: a$\n}", NL, "\n"),
    "import statements": ("", "import {a$} from 'f$'", NL, "\n"), "extensions": ("", "extension e$ with {\n  k$: a$\n} as b$", NL, "\n"),
    "body": ("resource r 'A/b@1' = {\n", "  k$: a$", NL, "\n}\n"),
    "interpolations": ("var x = '", "${a$}", [""], "'\n"), "characters": ("var x = '", "c$", [""], "'\n"), "lines of a string": ("var x = '''", "a$", ["\n"], "'''\n"),
    "path": ("module m 'br:h/", "a$", ["/"], ":1' = {}\n"), "type path": ("resource r 'A.B/", "a$", ["/"], "@1' = {}\n"), "array suffixes": ("param x a", "[]", [""], "\n"),
}
CHAINS = ("sum", "difference", "product", "and", "or", "coalesce", "equal", "less", "mixed", "dots", "colons", "index", "index and dot", "accessors", "bangs", "minus", "not", "array suffixes")
# name -> text before, opening part, innermost text, closing part, text after
DEEP = {
    "round": ("var x = ", "(", "a", ")", "\n"), "square": ("var x = ", "[", "a", "]", "\n"), "square and more": ("var x = ", "[b$, ", "a", ", c$]", "\n"),
    "square on lines": ("var x = ", "[\n", "a", "\n]", "\n"), "curly": ("var x = ", "{k$: ", "a", "}", "\n"), "curly on lines": ("var x = ", "{\nk$: ", "a", "\nl$: b$\n}", "\n"),
    "calls": ("var x = ", "f$(", "a", ")", "\n"), "known calls": ("var x = ", "toLower(", "a", ")", "\n"), "concat": ("var x = ", "concat(a$, ", "a", ", b$)", "\n"),
    "index": ("var x = ", "a$[", "a", "]", "\n"), "accessor": ("var x = ", "v$.list$(", "a", ")", "\n"), "ternary": ("var x = ", "a$ ? b$ : ", "c", "", "\n"),
    "ternary middle": ("var x = ", "a$ ? ", "c", " : b$", "\n"), "ternary round": ("var x = ", "(a$ ? ", "c", " : b$)", "\n"), "not": ("var x = ", "!(", "a", ")", "\n"), "minus": ("var x = ", "-(", "a", ")", "\n"),
    "sums": ("var x = ", "(a$ + ", "a", ")", "\n"), "left": ("var x = ", "(", "a", " * a$)", "\n"), "lambda": ("var x = ", "map(a$, b$ => ", "c", ")", "\n"), "lambdas": ("var x = ", "a$ => ", "c", "", "\n"),
    "loops": ("var x = ", "[for a$ in b$: ", "c", "]", "\n"), "loops of objects": ("var x = ", "[for a$ in b$: {\nk$: ", "c", "\n}]", "\n"), "indexed loops": ("var x = ", "[for (a$, b$) in c$: ", "d", "]", "\n"),
    "loop sources": ("var x = ", "[for a$ in ", "c", ": d$]", "\n"), "conditions": ("var x = [for a in b: ", "if (a$) {k$: ", "c", "}", "]\n"),
    "children": ("resource r 'A/b@1' = {\n", "resource c$ 't$' = {\nk$: a$\n", "z: 0\n", "}\n", "}\n"), "conditional children": ("resource r 'A/b@1' = {\n", "resource c$ 't$' = if (b$) {\nk$: a$\n", "z: 0\n", "}\n", "}\n"),
    "repeated children": ("resource r 'A/b@1' = {\n", "resource c$ 't$' = [for i$ in b$: {\nk$: a$\n", "z: 0\n", "}]\n", "}\n"),
    "round in a type": ("param x ", "(", "a", ")[]", "\n"), "strings": ("var x = ", "'p$${", "a", "}q$'", "\n"),
}


def families(tier):
    deep = tier == "thorough"

    def search(root):
        name, head, alphabet, tail, dq, dt = root
        depth = dt if deep else dq

        def fn(c):
            parts = [head]
            for i in range(1, depth + 1):
                # a sequence that the parser rejects before its end has no continuations
                if len(c.choices) >= len(c.prefix):
                    text = " ".join(parts) if len(parts) > 1 else head
                    r = parse(text, True)
                    if dead(r):
                        return Seq(text, r)
                k = c.free(len(alphabet) + 1)
                if not k:
                    break
                parts.append(render(alphabet[k - 1], i))
            text = " ".join(parts) + tail
            return Seq(text)
        return Family(f"search: {name}", fn, judge)

    cat = catalogue()
    docs = []
    for k, fs in cat.items():
        for f in fs:
            docs.append(Doc([d_var("before", integer(1)), f("x1"), d_var("after", string("e"))]))
    docs += [Doc([d_var("v", x), d_param("after", t_name("int"))]) for x in basic_values()]
    docs += [h(binary(ident("a"), "+", string("b"))) for h in host_positions().values()]
    split = []
    for d in docs:
        ts, gs = gaps_split(d.text)
        split.append((ts, gs))

    def edits(c):
        """one token missing, doubled, swapped with the next, replaced or preceded by another; or everything from it on missing"""
        ts, gs = split[c.free(len(split))]
        i = c.free(len(ts))
        how = c.free(["delete", "double", "swap", "cut", "replace", "insert", "glue"])
        ts, gs = list(ts), list(gs)
        if how == "delete":
            ts[i] = ""
        elif how == "double":
            ts[i] = ts[i] + " " + ts[i]
        elif how == "swap":
            if i + 1 == len(ts):
                raise Skip
            ts[i], ts[i + 1] = ts[i + 1], ts[i]
        elif how == "cut":
            del ts[i:], gs[i + 1:]
        elif how == "replace":
            ts[i] = render(c.free(JUNK), i)
        elif how == "insert":
            ts[i] = render(c.free(JUNK), i) + " " + ts[i]
        else:
            if not gs[i]:
                raise Skip
            gs[i] = ""
        return Seq("".join(a + b for a, b in zip(gs, ts)) + (gs[-1] if len(gs) > len(ts) else ""))

    def characters(c):
        """one character missing or doubled"""
        d = docs[c.free(len(docs))].text
        i = c.free(len(d))
        return Seq(d[:i] + (d[i] * 2 if c.free(2) else "") + d[i + 1:])

    def cuts(c):
        """the text cut after each character, and without its first characters"""
        d = docs[c.free(len(docs))].text
        i = c.free(len(d))
        return Seq([d[:i], d[i:]][c.free(2)])

    def ranges(c):
        """any run of tokens missing"""
        ts, gs = split[c.free(len(split))]
        i = c.free(len(ts))
        n = c.free(len(ts) - i)
        if not deep and n > 7:
            raise Skip
        ts = list(ts)
        ts[i:i + n + 1] = [""] * (n + 1)
        return Seq("".join(a + b for a, b in zip(gs, ts)) + gs[-1])

    def two_edits(c):
        """two tokens missing or replaced"""
        ts, gs = split[c.free(len(split))]
        i = c.free(len(ts) - 1)
        j = i + 1 + c.free(min(len(ts) - i - 1, 100 if deep else 4))
        ts = list(ts)
        for p in (i, j):
            ts[p] = render(c.free(["", "zz$", ",", "]", "(", "'zs'"] if deep else ["", "zz$", ","]), p)
        return Seq("".join(a + " " + b for a, b in zip(gs, ts)) + gs[-1])

    def keywords(c):
        """a word replaced by a similar or any other one"""
        ts, gs = split[c.free(len(split))]
        at = [i for i, t in enumerate(ts) if t.isidentifier()]
        i = c.free(at)
        w = ts[i]
        ts = list(ts)
        ts[i] = c.free([w + "s", w + "ing", w[:-1], w[1:], w[:3], w.upper(), w.capitalize(), w + "_", w + "1", "exists", "existing", "new", "in", "of", "as", "with", "from", "for",
                        "if", "else", "when", "let", "const", "def", "parameter", "variable", "function", "using", "assert", "provider", "test", "null", "none", "this"])
        return Seq("".join(a + b for a, b in zip(gs, ts)) + gs[-1])

    def arity(c):
        """known functions and decorators with any number of arguments"""
        n = c.free(8)
        xs = ", ".join(f"z{i}" for i in range(n))
        if c.free(2):
            w = c.free([*DECOS, "custom"])
            return Seq(f"@{c.free(['', 'sys.'])}{w}({xs})\nparam x int\n")
        w = c.free([*FUNCS, "fn"])
        ns = c.free(["", "ns"]) and (FUNCS[w][0] if w in FUNCS else "sys") + "."
        return Seq(f"var x = {ns}{w}({xs})\n")

    def wide(c):
        """every construct that repeats, with any number of parts"""
        name = c.free(list(WIDE))
        head, part, seps, tail = WIDE[name]
        sep = c.free(seps)
        n = c.free([*range(70), 100, 127, 128, 129, 255, 256, 257, 300] + ([511, 512, 513, 1023, 1024, 1025] if deep else []))
        if n > 100 and name in CHAINS:
            raise Skip  # near Python's recursion limit, answers depend on how the code is written
        return Seq(head + sep.join(part.replace("$", str(i)) for i in range(n)) + tail)

    def deeper(c):
        """every construct that nests, at any depth"""
        name = c.free(list(DEEP))
        head, left, mid, right, tail = DEEP[name]
        n = c.free([*range(26), 32, 33, 48] + ([64, 65] if deep else []))
        return Seq(head + "".join(left.replace("$", str(i)) for i in range(n)) + mid + "".join(right.replace("$", str(i)) for i in reversed(range(n))) + tail)

    return [Family("wide", wide, judge), Family("deep", deeper, judge), *map(search, ROOTS), Family("edits", edits, judge), Family("characters", characters, judge), Family("cuts", cuts, judge),
            Family("ranges", ranges, judge), Family("two edits", two_edits, judge), Family("arity", arity, judge), Family("words", keywords, judge)]


from ..gaps import split as gaps_split  # noqa: E402


def run(check):
    check.explore(families(check.tier), warm)
