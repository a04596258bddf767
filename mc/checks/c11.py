"""C11: trivia."""
from ..common import *
from ..core import Family, Skip, warm
from ..gaps import join, kind, split

# the first alternative of each gap is the text the model wrote
INLINE = ["  ", "\t", " \t ", "/* c */", " /* c */ ", "/**/", "/***/", "/* ' */", "/* // */", " /* a\n b */ ", "/* ''' */", "/* { */", "/* é\u2028 */", "/* * / */",
          " /* a */ /* b */ "]
LINE = ["\n\n", "\n\n\n", " \n", "\t\n", "\n  ", "\n\t", "\r\n", "\r\n\r\n", " // c\n", "// c\n", "\n// c\n", " // c\r\n", "\n  // c\n\n  // d\n", "\n#disable-next-line no-unused-params\n", " // TODO: x\n", "\n/// c\n", "\n#restore x y\n", "\n/** c\n * d\n */\n", " # c\n", "\n# c\n",
        " /* c */\n", "\n/* c */\n", "/* a\nb */\n", " // it's\n", " // '''\n", " // {\n", " /* ''' */\n", "\n// var z = 1\n", " //\n", " /**/\n", " /* // */\n",
        " // /* \n", "# //\n", " // é 中\n", " // a\n // b\n // c\n", "\n\n  \n\n", " // ${\n", " // ]})\n", "\n/* @secure()\n var b = 2 */\n", "\n  \n  ", " \r\n"]
HEAD = ["\n", "\n\n", " ", "\t", "  \n", "// c\n", "// c\n// d\n", "\n// c\n", "/* c */", "/* c */\n", "# c\n", "#disable-diagnostics a b\n", "/** c\n * d\n */\n", "#!shebang\n", "\r\n", "// c\r\n", "/* a\nb */\n", "\n\n\n  // c\n\n", "// '''\n",
        "// it's\n", "/* ''' */ "]
TAIL = ["", "\n\n", " ", "  \n", " // c", "\n// c", "// c\n", "\n// c\n", " /* c */", "\n/* c */", "\r\n", " # c", "\n# c\n", "\n\n// c\n// d", "\t", "\n  ", "// it's", "\n/* a\nb */\n",
        "\n// '''\n", "\r\n\r\n", "\n\n\n"]
OF = {"head": HEAD, "tail": TAIL, "line": LINE, "glue": [" ", *INLINE], "word": INLINE, "blank": INLINE, "free": ["", *INLINE]}
FEW = {"head": ["// c\n", "\n"], "tail": ["", " // c"], "line": [" // c\n", "\n\n", "\n// c\n"], "glue": ["/* c */"], "word": ["/* c */"], "blank": ["/* c */"],
       "free": [""]}


def bases():
    """The documents whose gaps are varied: every variant of every declaration, every kind of value, and the usual shapes on several lines."""
    out = []
    for k, fs in catalogue().items():
        for f in fs:
            out.append(Doc([f("x1")]))
    for v in basic_values():
        out.append(Doc([d_var("x1", v)]))
    e = "\n  "
    n1, s = integer(1), string("a // b /* c */ # d")
    o = obj([("k", s), ("type", n1), ("'q.r'", NULL)], e, e, "\n")
    a = array([n1, ident("b"), string("#")], e, e, "\n")
    big = [
        Doc([d_var("x", obj([("o", o), ("a", a), ("z", obj([]))], e, e, "\n"))]),
        Doc([d_var("x", array([o, a, o], e, e, "\n"))]),
        Doc([d_var("x", call("fn", [n1, s, ident("b")], ",\n", "\n", "\n"))]),
        Doc([d_var("x", call("concat", [a, o], ",\n", "\n", "\n"))]),
        Doc([d_var("x", obj([("k", call("union", [o, o], ",\n  ", "\n  ", "\n"))], e, e, "\n"))]),
        Doc([d_var("x", loop("array", ["i"], a, o, None, "\n", "\n"))]),
        Doc([d_output("x", t_array(t_name("string")), loop("array_index", ["i", "n"], ident("s"), o, binary(ident("n"), ">", n1), "\n", "\n"))]),
        Doc([d_resource("r", "A.B/c", "1", Body([("name", s), ("p", o)], Child("ch", "e", Body([("k", a)], Child("dh", "f", Body([]))), True), 1))]),
        Doc([d_resource("r", "A.B/c", "1", Body([("name", s)], Child("ch", "e", Body([("k", a)], wrap="loop"), True), 0, "if"))]),
        Doc([d_resource("r", "A.B/c", "1", Body([("name", s)], Child("ch", "e", Body([("k", n1)], wrap="if")), 1, "loop_if"))]),
        Doc([d_param("p", t_name("string"), string("x")).with_decorators([deco("description", s), deco("secure"), deco("allowed", a)]), d_var("v", n1)]),
        Doc([d_func("f", [("a", t_name("int"))], t_name("int"), ident("a")).with_decorators([deco("export"), deco("metadata", o)])]),
        Doc([d_type("t", V("'a' | 'b'", "a | b")), d_type("u", o), d_scope("tenant")]),
        Doc([d_metadata("m", "// x"), d_import("f.bicep", [("s", "t"), ("u", None)]), d_namespace("az@1.0.0"), d_extension("e", o, "al")]),
        Doc([d_var("x", multi("// no comment\n/* neither */ # nor\n")), d_var("y", string("//"))]),
        Doc([d_module("m", "br/public:a/b:1", obj([("name", s), ("params", o)], e, e, "\n"), {
            "type": "bicep_registry_alias", "detail": {"full": "public:a/b:1", "alias": "public", "path": "a/b", "tag": "1", "public": True}}),
            d_output("o", t_name("int"), binary(ident("m"), ".", ident("out")))]),
    ]
    return out, big


def families(tier):
    deep = tier == "thorough"
    small, big = bases()
    docs = small + big
    parts = [split(d.text) for d in docs]
    kinds = [[kind(t, g, i) for i in range(len(g))] for t, g in parts]
    expected = [d.expected() for d in docs]
    for (t, g), d in zip(parts, docs):
        assert join(t, g) == d.text, d.text

    def single(c):
        """each gap, each trivia"""
        k = c.free(len(docs))
        t, g = parts[k]
        i = c.free(len(g))
        g = list(g)
        g[i] = c.free([g[i], *OF[kinds[k][i]]])
        return Case(join(t, g), expected[k])

    def few(c):
        """combinations of gaps with few trivia"""
        k = c.free(len(docs))
        t, g = parts[k]
        g = [c.dev([x, *FEW[y]]) for x, y in zip(g, kinds[k])]
        return Case(join(t, g), expected[k])

    def adjacent(c):
        """two gaps around one token, each with every trivia"""
        k = c.free(len(docs) if deep else range(0, len(docs), 3))
        t, g = parts[k]
        i = c.free(len(t))
        g = list(g)
        a, b = OF[kinds[k][i]], OF[kinds[k][i + 1]]
        g[i] = c.free(a if deep else a[::3])
        g[i + 1] = c.free(b if deep else b[1::3])
        return Case(join(t, g), expected[k])

    def everywhere(c):
        """one trivia in all gaps of a kind"""
        k = c.free(len(docs))
        t, g = parts[k]
        which = c.free(["line", "glue", "blank", "free", "word", "inline", "crlf", "tabs", "trail", "all"])
        ks = kinds[k]
        if which == "crlf":
            return Case(join(t, [x.replace("\n", "\r\n") for x in g]), expected[k])
        if which == "tabs":
            return Case(join(t, [x.replace(" ", "\t") for x in g]), expected[k])
        if which == "trail":
            x = c.free([" \n", "\t\n", " // c\n", " // c\r\n", " # c\n", "\n\n"])
            return Case(join(t, [y.replace("\n", x, 1) if ks[i] == "line" else y for i, y in enumerate(g)]), expected[k])
        if which == "all":
            a, b = c.free(INLINE), c.free(LINE)
            return Case(join(t, [y if ks[i] in ("head", "tail") else b if ks[i] == "line" else a for i, y in enumerate(g)]), expected[k])
        sel = ("glue", "blank", "free", "word") if which == "inline" else (which,)
        x = c.free(LINE if which == "line" else INLINE)
        return Case(join(t, [x if ks[i] in sel else y for i, y in enumerate(g)]), expected[k])

    def long_trivia(c):
        """many comments or blank lines in one gap"""
        k = c.free(len(docs) if deep else range(0, len(docs), 4))
        t, g = parts[k]
        i = c.free(len(g))
        n = c.free([2, 3, 7, 40, 200])
        x = c.free(["\n", " // c\n", "/* c */", " ", "\r\n", "\n// c\n\n", "# c\n"])
        if kinds[k][i] not in ("line", "head", "tail") and x not in ("/* c */", " "):
            raise Skip
        g = list(g)
        g[i] = x * n + ("\n" if kinds[k][i] == "line" and x in (" ", "/* c */") else "")
        return Case(join(t, g), expected[k])

    def separators(c):
        """what stands between two declarations"""
        cat = catalogue()
        ks = list(cat)
        a, b = c.free(ks), c.free(ks)
        sep = c.free(["\n", *LINE])
        return Doc([cat[a][0]("x1"), cat[b][len(cat[b]) - 1]("y1")], sep)

    def lookalikes(c):
        """text in strings that looks like trivia"""
        x = c.free(["//", "/*", "*/", "/* a */", "#", "// a", " // ", "http://a.b/c", "a#b", "/**/", "# a", "//*", "*//", "\\n//", "\\t#", "/", "/ /", "a /* b", "c */ d", "#disable-next-line x", "#restore", "// TODO", "/** d */", "  //  "])
        y = c.free(["//", "/*", "*/", "x", "", "#"])
        how = c.free(["two strings", "one line", "multi", "multi2", "multi lines", "multi only", "key", "interpolated", "decorator", "nested", "comment between", "array lines"])
        n1 = integer(1)
        if how == "two strings":
            return Doc([d_var("a", string(x)), d_var("b", string(y))])
        if how == "one line":
            return Doc([d_var("a", array([string(x), string(y), n1]))])
        if how == "multi":
            return Doc([d_var("a", multi(f"{x}\n{y}\n")), d_var("b", string(y))])
        if how == "multi lines":
            i, nl = c.free(["", "  ", "\t"]), c.free(["\n", "\r\n"])
            return Doc([d_var("a", multi(f"p{nl}{i}{x}{nl}{i}{y}{nl}{nl}q", nl)), d_var("b", string(y))])
        if how == "multi only":
            return Doc([d_var("a", multi(f"\n{x}\n", c.free(["", "\n"]))), d_param("b", t_name("int"))])
        if how == "multi2":
            return Doc([d_var("a", array([multi(x), multi(y)], "\n", "\n", "\n"))])
        if how == "key":
            return Doc([d_var("a", obj([(f"'{x}'", string(y)), ("k", n1)], "\n", "\n", "\n"))])
        if how == "interpolated":
            return Doc([d_var("a", string(x + "${b}" + y)), d_var("c", n1)])
        if how == "decorator":
            return Doc([d_param("a", t_name("string"), string(y)).with_decorators([deco("description", string(x)), deco("secure")])])
        if how == "nested":
            return Doc([d_var("a", string("${f('" + x + "')}" + y)), d_var("c", n1)])
        if how == "comment between":
            return Doc([d_var("a", string(x)), d_var("b", string(y))], " // ' " + x.replace("*/", "") + "\n")
        return Doc([d_var("a", array([string(x), string(y), string(x)], "\n", "\n", "\n"))])

    SPECIAL = ["", "#", "/", "*", "!", "'", "''", "<", ">", "?", ":", "@", "$", "\\", "-", "=", "~", "|", ".", "0", "a", " ", "\t", "\r", "\x00", "\x0b", "\x0c", "\x1a", "\x1c", "\x85", "\xa0", "\u2028", "\u2029", "\ufeff", "\ufffe", "\U0001f600"]

    def comment(style, a):
        """the comment, or Skip where the text would end it"""
        if style == "//":
            return "//" + a + "\n"
        if style == "#":
            return "#" + a + "\n"
        if "*/" in a:
            raise Skip
        return "/*" + a + "*/\n"

    def comment_chars(c):
        """every character in every kind of comment"""
        ch = c.free([chr(i) for i in range(0, 0x180) if i != 10] + list("\u2028\u2029\u200b\ufeff\u3000\ufffe\uffff\U0001f600"))
        return commented(c, comment(c.free(["//", "#", "/*"]), c.free(["{}", "{} x", "x {}", " var z = {} "]).replace("{}", ch)))

    def comment_starts(c):
        """every short comment of special characters"""
        a, b = c.free(SPECIAL), c.free(SPECIAL)
        return commented(c, comment(c.free(["//", "#", "/*"]), a + b + c.free(["", " x", "region"])))

    def commented(c, text):
        at = c.free(4)
        if text.startswith("/*/"):
            raise Skip  # the slash belongs to no comment in all tools
        ds = [d_var("x", c.free([string("s"), ident("a")])), d_param("y", t_name("int"), integer(1))]
        a, b = (Doc([d]).text[:-1] for d in ds)
        src = [f"{text}{a}\n{b}\n", f"{a} {text}{b}\n", f"{a}\n{text}{b}\n", f"{a}\n{b} {text}"][at]
        return Case(src, Doc(ds).expected())

    J = judge_case
    return [Family("characters of comments", comment_chars, J), Family("short comments", comment_starts, J), Family("one gap", single, J), Family("several gaps", few, J, 3 if deep else 2), Family("adjacent gaps", adjacent, J),
            Family("all gaps", everywhere, J), Family("long trivia", long_trivia, J), Family("between declarations", separators, judge_doc),
            Family("strings like trivia", lookalikes, judge_doc)]


def run(check):
    check.explore(families(check.tier), warm)
