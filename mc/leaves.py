"""The leaves of a result (names, literals, operators, brackets) and of a text, in order, for comparison.

Leaves are tuples: ("w", word) identifiers, keywords and function names; ("s", content) strings;
("n", value) integers; ("o", symbol) operators; ("b", bracket) opening brackets and braces of values and array
types.  ("opt", [leaves]) is a group that may be missing, ("text", t) the text of a union declaration.
Round brackets, commas, colons and '=' only have to be in a possible place (`misplaced`); question marks and the
null-forgiving '!' are not accounted for.
"""
from __future__ import annotations

import re

from .core import kind
from .model import DECOS, FUNCS, BINARY
from .refstring import scan

OPS = {t: s for s, t in BINARY.items()}
FUNC_OF = {t: n for n, (_, t, _a) in FUNCS.items() if n != "listKeys"}
DECO_OF = {t: n for n, (t, _) in DECOS.items()}
ORDER = ["subscription_id", "resource_group_name", "resource_type"]
ORDERED = ("resource_id", "subscription_resource_id", "resource_group")
PREFIX = {"local": "", "bicep_registry": "br:", "bicep_registry_alias": "br/", "template_spec": "ts:", "template_spec_alias": "ts/"}
NULL = ("opt", [("w", "null")])


class Strange(Exception):
    """A result that has no meaning."""


def word(v):
    if kind(v) not in ("str", "ident"):
        raise Strange(f"a name is {v!r}")
    return ("w", str(v))


def value(v, out):
    k = kind(v)
    if k == "ident":
        out.append(("w", str(v)))
    elif k == "str":
        out.append(("s", v))
    elif k == "int":
        if v < 0:
            out.append(("o", "-"))
        out.append(("n", abs(v)))
    elif k == "bool":
        out.append(("w", "true" if v else "false"))
    elif v is None:
        out.append(("w", "null"))
    elif k == "list":
        out.append(("b", "["))
        for x in v:
            value(x, out)
    elif k == "dict":
        mapping(v, out)
    else:
        raise Strange(f"a value is a {k}")
    return out


def key(k_, out):
    t = str(k_)
    out.append(("s", t[1:-1]) if t.startswith("'") else ("w", t))


def mapping(v, out):
    ks = set(v)
    if ks == {"operator"} and isinstance(v["operator"], dict) and "operands" in v["operator"]:
        operator(v["operator"], out)
    elif ks == {"function"} and isinstance(v["function"], dict) and "type" in v["function"]:
        function(v["function"], out)
    elif ks == {"type", "detail"} and v["type"] == "lambda_expression":
        *names, _ = [k for k in v["detail"]]
        for n in names:
            out.append(word(v["detail"][n]))
        out.append(("o", "=>"))
        value(v["detail"]["expression"], out)
    elif ks >= {"loop_type", "condition", "config"} and ks <= {"loop_type", "condition", "config", "depends_on"}:
        loop(v, out)
    else:
        out.append(("b", "{"))
        for a, b in v.items():
            key(a, out)
            value(b, out)


def operator(o, out):
    t, x = o["type"], o["operands"]
    if t == "conditional":
        value(x["condition"], out), value(x["true_value"], out), value(x["false_value"], out)
    elif t == "not":
        out.append(("o", "!"))
        value(x["bool_value"], out)
    elif t == "minus":
        out.append(("o", "-"))
        value(x["integer_value"], out)
    elif t == "index_accessor":
        value(x["operand_1"], out)
        out.append(("b", "["))
        value(x["operand_2"], out)
    elif t == "function_accessor":
        value(x["operand_1"], out)
        out += [("o", "."), word(x["func_name"])]
        for k, v in x.items():
            if k not in ("operand_1", "func_name"):
                value(v, out)
    else:
        s = {"property_accessor": ".", "nested_resource_accessor": "::"}.get(t) or OPS.get(t)
        if s is None:
            raise Strange(f"unknown operator {t}")
        value(x["operand_1"], out)
        out.append(("o", s))
        value(x["operand_2"], out)


def function(f, out):
    t, ps = f["type"], dict(f.get("parameters") or {})
    if t == "list_func" and "func_name" in ps:
        out.append(word(ps.pop("func_name")))
        vs, known = list(ps.values()), True
    else:
        known = t in FUNC_OF and kind(t) == "str"
        out.append(("w", FUNC_OF[t]) if known else word(t))
        vs = [ps.pop(k) for k in ORDER if k in ps] + list(ps.values()) if known and t in ORDERED else list(ps.values())
    for v in vs:
        if v is None and known:
            out.append(NULL)
        else:
            value(v, out)


def loop(v, out):
    t, d = v["loop_type"]["type"], v["loop_type"]["detail"]
    out += [("b", "["), ("w", "for"), word(d["item_name"])]
    if t == "array_index":
        out.append(word(d["index_name"]))
    out.append(("w", "in"))
    if t == "object":
        out.append(("w", "items"))
        value(d["object_name"], out)
    else:
        value(d["array_name"], out)
    if v["condition"] is None:
        out.append(("opt", [("w", "if"), ("w", "null")]))
    else:
        out.append(("w", "if"))
        value(v["condition"], out)
    value(v["config"], out)


def config(v, out):
    """the value of a resource or module"""
    if isinstance(v, dict) and set(v) == {"condition", "config"}:
        out.append(("w", "if"))
        value(v["condition"], out)
        value(v["config"], out)
    else:
        value(v, out)


def data_type(t, out):
    if isinstance(t, dict) and t.get("type") == "array":
        data_type(t["item_type"], out)
        out.append(("b", "["))
    elif isinstance(t, dict) and t.get("type") == "union":
        for i, m in enumerate(t["members"]):
            if i:
                out.append(("o", "|"))
            data_type(m, out)
    else:
        out.append(word(t))


def decorators(ds, out):
    for d in ds:
        out.append(("o", "@"))
        t = d["type"]
        out.append(("w", DECO_OF[t]) if t in DECO_OF else word(t))
        if "argument" in d:
            value(d["argument"], out)


def string(t):
    if kind(t) != "str":
        raise Strange(f"a string is {t!r}")
    return ("s", t)


def entry(section, name, e, parent=None):
    out = []
    decorators(e.get("decorators", ()), out)
    if section == "parameters":
        out += [("w", "param"), word(name)]
        data_type(e["type"], out)
        if e["default"] is None:
            out.append(NULL)
        else:
            value(e["default"], out)
    elif section == "variables":
        out += [("w", "var"), word(name)]
        if "type" in e:
            data_type(e["type"], out)
        value(e["value"], out)
    elif section == "outputs":
        out += [("w", "output"), word(name)]
        data_type(e["type"], out)
        value(e["value"], out)
    elif section == "metadata":
        out += [("w", "metadata"), word(name), string(e["value"])]
    elif section == "globals":
        out += [("w", "targetScope"), string(e["value"])]
    elif section == "resources":
        cfg = e["config"]
        if parent:
            pname, pe = parent
            out += [("w", "resource"), ("w", name[len(pname) + 2:]), ("s", e["type"].removeprefix(pe["type"] + "/"))]
            cfg = dict(cfg)
            if cfg.get("depends_on") == [pname]:
                del cfg["depends_on"]
        else:
            out += [("w", "resource"), word(name), ("s", f"{e['type']}@{e['api_version']}")]
        if e["existing"]:
            out.append(("w", "existing"))
        config(cfg, out)
    elif section == "modules":
        out += [("w", "module"), word(name), ("s", PREFIX[e["type"]] + e["detail"]["full"])]
        config(e["config"], out)
    elif section == "types":
        out += [("w", "type"), word(name)]
        v = e["value"]
        if kind(v) == "str":
            out.append(("text", v))
        else:
            value(v, out)
    elif section == "functions":
        out += [("w", "func"), word(name)]
        for n, t in e["args"].items():
            out.append(word(n))
            data_type(t, out)
        data_type(e["type"], out)
        out.append(("o", "=>"))
        value(e["expression"], out)
    elif section == "extensions":
        out += [("w", "extension"), word(name)]
        if "config" in e:
            out.append(("w", "with"))
            value(e["config"], out)
        if "alias" in e:
            out += [("w", "as"), word(e["alias"])]
    else:
        raise Strange(f"unknown section {section}")
    return out


def entries(result):
    """[(start line, leaves)] of a result with line numbers, and whether child resources are among them."""
    out, imports, children = [], {}, False
    for section, es in result.items():
        for name, e in es.items():
            line = e["__start_line__"]
            if section == "globals" and line == 0:
                continue
            if section == "imports":
                if "file_path" in e:
                    imports.setdefault((line, e["file_path"]), []).append((name, e))
                else:
                    out.append((line, [("w", "import"), ("s", name)]))
                continue
            parent = None
            if section == "resources" and "__" in name:
                p = name
                while parent is None and "__" in p:
                    p = p[:p.rindex("__")]
                    if p in es:
                        parent = (p, es[p])
                        children = True
            out.append((line, entry(section, str(name), e, parent)))
    for (line, path), es in imports.items():
        ls = [("w", "import"), ("opt", [("b", "{")])]
        for n, e in es:
            ls.append(("o", "*") if str(n) == "*" else word(n))
            if "alias" in e:
                ls += [("w", "as"), word(e["alias"])]
        out.append((line, [*ls, ("w", "from"), ("s", path)]))
    out.sort(key=lambda x: x[0])
    return out, children


# ---- the leaves of a text -----------------------------------------------------------------

TOKEN = re.compile(r"(?:(?:sys|az)\.)?[A-Za-z0-9_]+(?=\()|\d+|[A-Za-z_]\w*|=>|==|!=|>=|<=|=~|!~|&&|\|\||\?\?|::|[^\s\w]")
SKIP = re.compile(r"(?:\s+|//[^\n]*|#[^\n]*|/\*(?:[^*]|\*(?!/))*\*/)+")
IGNORED = set("(),:=?)]}")


def tokens(text):
    """The tokens of a text, or None if it cannot be split."""
    out, i, n = [], 0, len(text)
    while i < n:
        m = SKIP.match(text, i)
        if m:
            i = m.end()
            continue
        if text.startswith("'''", i):
            j = text.find("'''", i + 3)
            if j < 0:
                return None
            j += 3
        elif text[i] == "'":
            j = scan(text, i + 1)
            if j is None:
                # an interpolation that is never closed is plain text
                m = re.compile(r"(?:[^'\\]|\\.)*'", re.S).match(text, i + 1)
                if not m:
                    return None
                j = m.end() - 1
            j += 1
        else:
            m = TOKEN.match(text, i)
            if not m:
                return None
            j = m.end()
            if m[0].isdigit() and text[j:j + 1] == "(":
                j += 1  # the name of a function, however strange
        out.append(text[i:j])
        i = j
    return out


def leaves(toks):
    """The leaves that a sequence of tokens has to be accounted for by."""
    out = []
    for i, t in enumerate(toks):
        if i and toks[i - 1] == "@" and t.startswith("sys.") and t[4:] in DECOS:
            t = t[4:]
        if t.startswith("'''"):
            c = t[3:-3]
            out.append(("s", c[2:] if c.startswith("\r\n") else c.removeprefix("\n")))
        elif t[0] == "'":
            out.append(("s", t[1:-1]))
        elif len(t) > 1 and t[-1] == "(":
            out.append(("w", t[:-1]))
        elif t.isdigit():
            out.append(("n", int(t)))
        elif t[0].isalnum() or t[0] == "_":
            ns, _, base = t.rpartition(".")
            out.append(("w", base if ns and base in FUNCS and FUNCS[base][0] == ns else t))
        elif t in IGNORED:
            continue
        elif t in "[{":
            out.append(("b", t))
        elif t == "!":
            out.append(("bang", t))
        else:
            out.append(("o", t))
    return out


# ---- comparison ---------------------------------------------------------------------------

def matches(want, have, i):
    """All positions in `have` (leaves of the text) at which the leaves `want` that start at i can end.

    A position is (index, characters used of that word): the lexer may split 'varx' into 'var' and 'x'.
    """
    ends = {i}
    for w in want:
        nxt = set()
        for p in ends:
            if w[0] == "opt":
                nxt.add(p)
                nxt |= matches(w[1], have, p)
            elif w[0] == "text":
                nxt |= text_ends(w[1], have, p)
            else:
                nxt |= step(w, have, p)
        ends = nxt
        if not ends:
            break
    return ends


def step(w, have, at):
    p, off = at
    out = set()
    while p < len(have):
        h = have[p]
        if h[0] == "w":
            rest = h[1][off:]
            n = 0
            if w[0] == "w" and rest.startswith(w[1]):
                n = len(w[1])
            elif w[0] == "n" and off and (m := re.match(r"\d+", rest)) and int(m[0]) == w[1]:
                n = m.end()
            if n:
                out.add((p, off + n) if n < len(rest) else (p + 1, 0))
        elif h == w or h[0] == "bang" and w == ("o", "!"):
            out.add((p + 1, 0))
        if h[0] != "bang":
            break
        p += 1
    return out


def text_ends(t, have, at):
    """The text of a union, or a plain string."""
    p, off = at
    ends = set()
    if off:
        return ends
    if p < len(have) and have[p] == ("s", t):
        ends.add((p + 1, 0))
    if " | " in t:
        at, q = 0, p
        # members that are more than a name or literal are a rendering of their own: only their leaves count, in order
        while q < len(have):
            k, v = have[q]
            if k in "wsn":
                v = {"true": "True", "false": "False", "null": "None"}.get(v, str(v)) if k == "w" else str(v)
                j = t.find(v, at)
                if j < 0:
                    break
                at = j + len(v)
            q += 1
            ends.add((q, 0))
    return ends


def skip_bangs(have, p):
    p, off = p
    while p < len(have) and have[p][0] == "bang":
        p += 1
    return p if not off else -1


CLOSE = {"(": ")", "[": "]", "{": "}"}
SEPARATORS = {",", ":", "=", "=>", "|"}


def misplaced(toks):
    """Brackets without partner and separators that separate nothing, which no result can account for."""
    stack = []
    last = "("
    for t in toks:
        if t[-1] in CLOSE and t[0] != "'":
            stack.append(CLOSE[t[-1]])
        elif t in (")", "]", "}"):
            if not stack or stack.pop() != t:
                return f"{t!r} without its partner"
            if last in SEPARATORS:
                return f"{last!r} before {t!r}"
        elif t in SEPARATORS and (last in SEPARATORS or last[-1] in CLOSE and last[0] != "'"):
            return f"{t!r} after {last!r}"
        last = t
    if stack:
        return f"{stack[-1]!r} is missing"
    return f"{last!r} at the end" if last in SEPARATORS else None


def accounted(result, toks):
    """None if the result accounts for every token, once and in order; otherwise what is wrong."""
    why = misplaced(toks)
    if why:
        return why
    have = leaves(toks)
    try:
        es, children = entries(result)
    except (Strange, KeyError, TypeError, AttributeError, ValueError) as e:
        return f"the result has no meaning: {type(e).__name__} {e}"
    if children:
        return bag(es, have)
    used = [False] * len(es)

    def rec(p):
        if all(used):
            return skip_bangs(have, p) == len(have)
        line = min(e[0] for e, u in zip(es, used) if not u)
        for i, (ln, ls) in enumerate(es):
            if not used[i] and ln == line:
                used[i] = True
                for q in matches(ls, have, p):
                    if rec(q):
                        return True
                used[i] = False
        return False

    if rec((0, 0)):
        return None
    return f"text {show(have)} / result {' ; '.join(show(e[1]) for e in es)}"


def bag(es, have):
    """Documents with child resources: a child stands somewhere in its parent, so only the bags are compared."""
    from collections import Counter
    a, opt = Counter(), Counter()
    for _, ls in es:
        for w in ls:
            if w[0] == "opt":
                opt.update(w[1])
            else:
                a[w] += 1
    b = Counter(h for h in have if h[0] != "bang")
    a.pop(("o", "!"), None)
    missing, extra = b - a - opt, a - b
    if any(k[0] == "w" for k in missing):
        # words may be written together
        def chars(c):
            r = Counter()
            for (k, v), n in c.items():
                r.update({(k, v): n} if k != "w" else {("c", x): v.count(x) * n for x in set(v)})
            return r
        missing, extra = chars(b) - chars(a) - chars(opt), chars(a) - chars(b)
    if any(k[0] == "text" for k in extra):
        return None
    return f"not in the result: {dict(missing)}, not in the text: {dict(extra)}" if missing or extra else None


def show(ls):
    return " ".join("(" + show(x[1]) + ")?" if x[0] == "opt" else repr(x[1]) if x[0] == "s" else str(x[1]) for x in ls)


DECLARE = {"param", "var", "output", "resource", "module", "type", "func", "metadata", "extension", "import", "targetScope"}


def repeats(toks):
    """Whether a name is declared, or a key given, twice: the last one counts, the text is not accounted for."""
    seen = set()
    for i, t in enumerate(toks):
        nxt = toks[i + 1] if i + 1 < len(toks) else ""
        if t == "targetScope":
            k = ("scope",)
        elif t in DECLARE:
            k = (t, nxt)
        elif nxt == ":":
            k = ("key", t)
        else:
            continue
        if k in seen:
            return True
        seen.add(k)
    for i, t in enumerate(toks):
        if t == "import":
            # names of all imports up to their paths
            names, j = [], i + 1
            while j < len(toks) and toks[j][0] != "'":
                if toks[j][0].isalpha() or toks[j] in "_*":
                    if toks[j - 1] != "as" or toks[j - 2] in "{,":
                        names.append(toks[j])
                j += 1
            if len(set(names)) < len(names):
                return True
        if t == "func":
            j, names = i + 3, []
            while j < len(toks) and toks[j] != "=>":
                if toks[j - 1] in "(,":
                    names.append(toks[j])
                j += 1
            if len(set(names)) < len(names):
                return True
    return False
