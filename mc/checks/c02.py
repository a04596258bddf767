"""C02: expressions as token sequences against the reference reading."""
from ..common import *
from ..core import Family, Skip, warm
from ..refexpr import Bad, compact, read, spaced, usual

SYMS = [*BINARY, ".", ".?", "::"]
REP = ["+", "-", "==", "&&", "??", ".", "::"]
FALSY = [("int", 0), ("str", ""), ("kw", None), ("kw", False), ("kw", True), ("int", 1), ("str", "s"), ("id", "w")]
LADDER = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 25, 31, 32, 33, 40, 50]
LAYOUT = [usual, compact, spaced]


def s(x):
    return ("sym", x)


class Expr:
    def __init__(self, tokens, layout=usual):
        self.tokens = tokens
        self.layout = layout

    def inputs(self):
        return f"var x = {self.layout(self.tokens)}\n"


def judge(e):
    return compare(e.inputs(), {**doc_scope(), "variables": {"x": {"decorators": [], "value": read(e.tokens)}}})


class Names:
    def __init__(self):
        self.n = 0

    def new(self):
        self.n += 1
        return ("id", f"n{self.n}")


def grow(c, names, depth, wide):
    """An expression; every departure from a lone identifier costs a deviation."""
    k = c.dev(["id", "(", "-", "!", "call", "int", "str", "[", "{", "lambda"] if wide else ["id", "(", "-", "!", "call"])
    if k == "id":
        out = [names.new()]
    elif k == "int":
        out = [("int", 0)]
    elif k == "str":
        out = [("str", "")]
    elif k in "-!":
        return [s(k), *grow(c, names, depth - 1, wide)]
    elif k == "(":
        out = [s("("), *grow(c, names, depth - 1, wide), s(")")]
    elif k == "call":
        out = [("call", "fn")]
        if depth > 0 and c.dev(2):
            out += grow(c, names, depth - 1, wide)
            if c.dev(2):
                out += [s(","), *grow(c, names, depth - 1, wide)]
        out.append(s(")"))
    elif k == "[":
        out = [s("["), *grow(c, names, depth - 1, wide), s("]")]
    elif k == "{":
        out = [s("{"), ("id", "key"), s(":"), *grow(c, names, depth - 1, wide), s("}")]
    else:
        return [s("("), names.new(), s(","), names.new(), s(")"), s("=>"), *grow(c, names, depth - 1, wide)]
    plain = k == "id"
    while depth > 0:
        p = c.dev(["", "[", "call", "!", "[?"])
        if p == "":
            break
        plain = False
        if p == "!":
            if out[-1] == s("!"):
                raise Skip
            out.append(s("!"))
        elif p == "call":
            out += [s("."), ("call", "listKeys")]
            if c.dev(2):
                out += grow(c, names, depth - 1, wide)
                if c.dev(2):
                    out += [s(","), *grow(c, names, depth - 1, wide)]
            out.append(s(")"))
        else:
            out.append(s("["))
            if p == "[?":
                out.append(s("?"))
            out += [*grow(c, names, depth - 1, wide), s("]")]
    if depth > 0:
        t = c.dev(["", *(REP if wide else ["+", "-", ".", "=="]), "?", "=>"])
        if t == "?":
            out += [s("?"), *grow(c, names, depth - 1, wide), s(":"), *grow(c, names, depth - 1, wide)]
        elif t == "=>":
            if not plain:
                raise Skip
            out += [s("=>"), *grow(c, names, depth - 1, wide)]
        elif t:
            out += [s(t), *grow(c, names, depth - 1, wide)]
    return out


def families(tier):
    deep = tier == "thorough"

    def chain3(c):
        n = c.free([1, 2, 3])
        names = Names()
        out = [names.new()]
        for _ in range(n):
            out += [s(c.free(SYMS)), names.new()]
        return Expr(out, c.free(LAYOUT) if n < 3 else usual)

    def chain4(c):
        names = Names()
        out = [names.new()]
        for _ in range(c.free([4, 5])):
            out += [s(c.free(REP)), names.new()]
        return Expr(out)

    def values(c):
        """Every operator with every operand value on either side."""
        sym = c.free(SYMS)
        a, b = c.free(FALSY), c.free(FALSY)
        lay = c.free(LAYOUT)
        return Expr([a, s(sym), b], lay)

    def ternary(c):
        a, b, d = c.free(FALSY), c.free(FALSY), c.free(FALSY)
        return Expr([a, s("?"), b, s(":"), d], c.free(LAYOUT))

    def ternary_ops(c):
        """Operators and further ternaries in each part of a ternary."""
        names = Names()

        def part():
            o = [names.new()]
            k = c.free(["", "+", "==", ".", "??", "?", "()"])
            if k == "?":
                o += [s("?"), names.new(), s(":"), names.new()]
            elif k == "()":
                o = [s("("), *o, s("?"), names.new(), s(":"), names.new(), s(")")]
            elif k:
                o += [s(k), names.new()]
            return o
        return Expr([*part(), s("?"), *part(), s(":"), *part()], c.free([usual, compact]))

    def unary(c):
        names = Names()
        out = []
        for _ in range(c.free([1, 2, 3])):
            out.append(s(c.free(["-", "!"])))
        k = c.free([0, 1, 2, 3])
        v = c.free(FALSY)
        out += [[v], [s("("), v, s(")")], [v, s("+"), names.new()], [v, s("["), names.new(), s("]")]][k]
        sym = c.free(["", *SYMS])
        if sym:
            out = [names.new(), s(sym), *out]
        return Expr(out, c.free(LAYOUT))

    def index_values(c):
        a, b = c.free(FALSY + [("call", None)]), c.free(FALSY)
        out = [a] if a[0] != "call" else [("call", "fn"), s(")")]
        out += [s("["), *([s("?")] if c.free(2) else []), b, s("]")]
        t = c.free(["", "[", ".", "call", "+"])
        names = Names()
        if t == "[":
            out += [s("["), names.new(), s("]")]
        elif t == "call":
            out += [s("."), ("call", "listKeys"), s(")")]
        elif t:
            out += [s(t), names.new()]
        return Expr(out, c.free(LAYOUT))

    def call_values(c):
        """All argument lists of accessor calls up to four arguments, falsy ones included."""
        n = c.free(5)
        args = []
        for i in range(n):
            if i:
                args.append(s(","))
            args.append(c.free(FALSY if n < 4 else FALSY[:4]))
        name = c.free(["listKeys", "getSecret", "list", "listSecrets", "ListKeys", "listAccountSas"] if n < 3 else ["listKeys", "getSecret"])
        out = [("id", "a"), s("."), ("call", name), *args, s(")")]
        t = c.dev(["", ".", "[", "call", "+", "prefix"])
        names = Names()
        if t == ".":
            out += [s("."), names.new()]
        elif t == "[":
            out += [s("["), names.new(), s("]")]
        elif t == "call":
            out += [s("."), ("call", "getSecret"), ("int", 0), s(")")]
        elif t == "+":
            out += [s("+"), names.new()]
        elif t == "prefix":
            out = [names.new(), s("."), *out]
        return Expr(out)

    def shapes(c):
        return Expr(grow(c, Names(), 3, True))

    def shapes_deep(c):
        return Expr(grow(c, Names(), 5, False), usual)

    def parens(c):
        """Three operators with every way of putting one or two pairs of parentheses."""
        ops = [c.free(["+", "*", "-", "==", "&&", "."]) for _ in range(3)]
        names = Names()
        toks = [names.new()]
        for o in ops:
            toks += [s(o), names.new()]
        spans = [(i, j) for i in range(4) for j in range(i, 4)]
        a = c.free(spans)
        b = c.free([None, *spans])
        opens, closes = {}, {}
        for sp in [a] + ([b] if b else []):
            opens[sp[0]] = opens.get(sp[0], 0) + 1
            closes[sp[1]] = closes.get(sp[1], 0) + 1
        if b and not (a[1] < b[0] or b[1] < a[0] or a[0] <= b[0] <= b[1] <= a[1] or b[0] <= a[0] <= a[1] <= b[1]):
            raise Skip
        out = []
        for i in range(4):
            if i:
                out.append(toks[2 * i - 1])
            out += [s("(")] * opens.get(i, 0) + [toks[2 * i]] + [s(")")] * closes.get(i, 0)
        return Expr(out)

    def long_chain(c):
        n = c.free(LADDER)
        k = c.free([*SYMS, "index", "call", "ternary", "-", "!", "(", "args", "mixed", "indexed paths"])
        names = Names()
        if k in SYMS:
            out = [names.new()]
            for _ in range(n):
                out += [s(k), names.new()]
        elif k == "index":
            out = [names.new()]
            for _ in range(n):
                out += [s("["), names.new(), s("]")]
        elif k == "call":
            out = [names.new()]
            for _ in range(n):
                out += [s("."), ("call", "listKeys"), names.new(), s(")")]
        elif k == "ternary":
            out = []
            for _ in range(n // 2):
                out += [names.new(), s("?"), names.new(), s(":")]
            out.append(names.new())
        elif k in "-!":
            out = [s(k)] * (n // 2) + [names.new()]
        elif k == "(":
            out = [s("(")] * n + [names.new()] + [s(")")] * n
        elif k == "args":
            out = [names.new(), s("."), ("call", "listKeys")]
            for i in range(n):
                out += ([s(",")] if i else []) + [names.new() if i % 2 else ("int", 0)]
            out.append(s(")"))
        elif k == "mixed":
            out = [names.new()]
            for i in range(n):
                out += [s(SYMS[i % len(SYMS)]), names.new()]
        else:
            out = [names.new()]
            for i in range(n):
                out += [s("."), names.new(), s("["), ("int", i), s("]")]
        return Expr(out)

    return [*content_families((), ("paren", "bang", "index_of", "indexed", "call_owner", "call_arg", "call_arg_2", "left_add", "left_eq", "left_sub", "left_coalesce", "left_dot", "right_add", "right_sub", "right_and", "right_coalesce", "cond_test", "cond_true", "cond_false", "minus", "not")), Family("binary chains", chain3, judge), Family("operand values", values, judge), Family("ternary values", ternary, judge),
            Family("ternary parts", ternary_ops, judge), Family("unary", unary, judge), Family("index values", index_values, judge),
            Family("accessor calls", call_values, judge, 1), Family("parentheses", parens, judge),
            Family("shapes", shapes, judge, 4 if deep else 3), Family("deep shapes", shapes_deep, judge, 6 if deep else 4),
            Family("long chains", long_chain, judge)] + ([Family("binary chains of 4 and 5", chain4, judge)] if deep else [])


def run(check):
    check.explore(families(check.tier), warm)
