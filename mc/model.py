"""The reference model: what every Bicep construct means to a user of pycep.

Written from the documentation, the typing stubs and the examples; it never imports pycep's parser,
grammar or transformer.  A value is a `V(src, exp, closed)`: how it is written, what has to be
reported for it, and whether it can be followed by an operator without changing its extent.
"""
from __future__ import annotations

from .core import Ordered, Text  # noqa: F401
from pycep.models import BicepElement


class V:
    __slots__ = ("src", "exp", "closed", "tag")

    def __init__(self, src, exp, closed=True, tag=""):
        self.src, self.exp, self.closed, self.tag = src, exp, closed, tag

    def __repr__(self):
        return f"V({self.src!r})"

    def inputs(self):
        return self.src


def I(name):  # noqa: E743
    return BicepElement(name)


def ident(name):
    return V(name, I(name), tag="ident")


def string(content):
    return V(f"'{content}'", content, tag="str")


def integer(n):
    return V(str(n), int(n), tag="int")


NULL = V("null", None, tag="null")
TRUE = V("true", True, tag="true")
FALSE = V("false", False, tag="false")


def multi(content, lead=""):
    exp = content
    if not lead:
        exp = content.removeprefix("\r\n" if content.startswith("\r\n") else "\n")
    return V(f"'''{lead}{content}'''", exp, tag="multi")


def paren(v):
    return V(f"({v.src})", v.exp, tag="paren")


def closed(v):
    return v if v.closed else paren(v)


# ---- operators ----------------------------------------------------------------------------

BINARY = {
    ">=": "greater_than_or_equals", ">": "greater_than", "<=": "less_than_or_equals", "<": "less_than",
    "==": "equals", "!=": "not_equals", "=~": "equals_case_insensitive", "!~": "not_equals_case_insensitive",
    "&&": "and", "||": "or", "??": "coalesce",
    "+": "add", "-": "substract", "*": "multiply", "/": "divide", "%": "modulo",
}
ACCESS = {".": "property_accessor", "::": "nested_resource_accessor"}


def op(type_, **operands):
    return {"operator": {"type": type_, "operands": operands}}


def x_binary(sym, a, b):
    t = BINARY.get(sym) or ACCESS[sym[:1] if sym == ".?" else sym]
    return op(t, operand_1=a, operand_2=b)


def x_index(a, b):
    return op("index_accessor", operand_1=a, operand_2=b)


def x_call(a, name, args):
    return op("function_accessor", operand_1=a, func_name=Text(name),
              **{f"operand_{i + 2}": x for i, x in enumerate(args)})


def x_cond(c, a, b):
    return op("conditional", condition=c, true_value=a, false_value=b)


def x_not(a):
    return op("not", bool_value=a)


def x_minus(a):
    return op("minus", integer_value=a)


def x_lambda(names, body):
    return {"type": "lambda_expression",
            "detail": {**{f"var_{i + 1}": Text(n) for i, n in enumerate(names)}, "expression": body}}


def binary(a, sym, b, sp=" "):
    a = closed(a)
    s = "" if sym in ACCESS or sym == ".?" else sp
    return V(f"{a.src}{s}{sym}{s}{b.src}", x_binary(sym, a.exp, b.exp), False, sym)


def index(a, b, q=""):
    a = closed(a)
    return V(f"{a.src}[{q}{b.src}]", x_index(a.exp, b.exp), True, "index")


def access_call(a, name, args):
    a = closed(a)
    return V(f"{a.src}.{name}({', '.join(x.src for x in args)})", x_call(a.exp, name, [x.exp for x in args]),
             True, "acall")


def cond(c, a, b):
    return V(f"{closed(c).src} ? {closed(a).src} : {b.src}", x_cond(c.exp, a.exp, b.exp), False, "cond")


def neg(a):
    return V(f"-{a.src}", x_minus(a.exp), False, "minus")


def lnot(a):
    return V(f"!{a.src}", x_not(a.exp), False, "not")


def bang(a):
    a = paren(a) if a.tag == "bang" else closed(a)
    return V(f"{a.src}!", a.exp, True, "bang")


def lam(names, body):
    head = names[0] if len(names) == 1 else "(" + ", ".join(names) + ")"
    return V(f"{head} => {body.src}", x_lambda(names, body.exp), False, "lambda")


# ---- containers ---------------------------------------------------------------------------

def array(items, sep=", ", start="", end=""):
    return V(f"[{start}{sep.join(i.src for i in items)}{end}]", [i.exp for i in items], True, "array")


def obj(pairs, sep=", ", start="", end=""):
    """pairs: list of (key source, value)."""
    exp = Ordered()
    for k, v in pairs:
        exp[k] = v.exp
    return V("{" + start + sep.join(f"{k}: {v.src}" for k, v in pairs) + end + "}", exp, True, "object")


# ---- functions ----------------------------------------------------------------------------

def _named(*names, optional=0):
    """Mappers for the arities len(names)-optional .. len(names); omitted parameters are None."""
    def make(n):
        return lambda a: {k: (a[i] if i < n else None) for i, k in enumerate(names)}
    return {n: make(n) for n in range(len(names) - optional, len(names) + 1)}


def _variadic(first, rest, at_least, upto=9):
    def make(n):
        return lambda a: {**{k: a[i] for i, k in enumerate(first)},
                          **{rest.format(i + 1): x for i, x in enumerate(a[len(first):])}}
    return {n: make(n) for n in range(at_least, upto)}


def _args(at_least, upto=9):
    return {n: (lambda a: {f"arg_{i + 1}": x for i, x in enumerate(a)}) for n in range(at_least, upto)}


def _bare():
    return {0: None}


def _ids(*layouts):
    """layouts[i]: parameter names of the arity len(layout); all names of all layouts are reported."""
    every = []
    for lay in layouts:
        for k in lay:
            if k not in every:
                every.append(k)
    out = {}
    for lay in layouts:
        def m(a, lay=lay):
            r = dict.fromkeys(every)
            r.update(zip(lay, a))
            return r
        out[len(lay)] = m
    return out


RID = "resource_type resource_name_1 resource_name_2".split()
_rid = _ids(RID[:2], RID, ["resource_group_name", *RID], ["subscription_id", "resource_group_name", *RID])
for _n in range(6, 11):
    def _m(a, n=_n):
        return {"subscription_id": a[0], "resource_group_name": a[1], "resource_type": a[2],
                **{f"resource_name_{i}": x for i, x in enumerate(a[3:], start=1)}}
    _rid[_n] = _m



def _more_names(table, upto=5):
    """Further resource names after the second, reported under their numbers."""
    top = max(table)
    def make(n):
        return lambda a: {**table[top](a[:top]), **{f"resource_name_{i}": x for i, x in enumerate(a[top:n], start=3)}}
    for n in range(top + 1, top + upto):
        table[n] = make(n)
    return table


# name -> (namespace, reported type, {arity: mapper or None})
FUNCS = {
    "any": ("sys", "any", _named("value")),
    "array": ("sys", "array", _named("convert_to_array")),
    "concat": ("sys", "concat", _args(1)),
    "contains": ("sys", "contains", _named("container", "item_to_find")),
    "empty": ("sys", "empty", _named("item_to_test")),
    "first": ("sys", "first", _named("arg_1")),
    "flatten": ("sys", "flatten", _named("array_to_flattern")),
    "intersection": ("sys", "intersection", _args(2)),
    "last": ("sys", "last", _named("arg_1")),
    "length": ("sys", "length", _named("arg_1")),
    "max": ("sys", "max", _args(1)),
    "min": ("sys", "min", _args(1)),
    "range": ("sys", "range", _named("start_index", "count")),
    "skip": ("sys", "skip", _named("original_value", "number_to_skip")),
    "take": ("sys", "take", _named("original_value", "number_to_take")),
    "union": ("sys", "union", _args(2)),
    "dateTimeAdd": ("sys", "date_time_add", _named("base", "duration", "format", optional=1)),
    "dateTimeFromEpoch": ("sys", "date_time_from_epoch", _named("epoch_time")),
    "dateTimeToEpoch": ("sys", "date_time_to_epoch", _named("date_time")),
    "utcNow": ("sys", "utc_now", _named("format", optional=1)),
    "deployment": ("az", "deployment", _bare()),
    "environment": ("az", "environment", _bare()),
    "loadFileAsBase64": ("sys", "load_file_as_base64", _named("file_path")),
    "loadJsonContent": ("sys", "load_json_content", _named("file_path", "json_path", "encoding", optional=2)),
    "loadTextContent": ("sys", "load_text_content", _named("file_path", "encoding", optional=1)),
    "loadYamlContent": ("sys", "load_yaml_content", _named("file_path", "path_filter", "encoding", optional=2)),
    "filter": ("sys", "filter", _named("input_array", "expression")),
    "bool": ("sys", "bool", _named("arg_1")),
    "int": ("sys", "int", _named("value_to_convert")),
    "json": ("sys", "json", _named("arg_1")),
    "extensionResourceId": ("az", "extension_resource_id",
                            _more_names(_named("resource_id", "resource_type", "resource_name_1", "resource_name_2", optional=1))),
    "listKeys": ("az", "list_func",
                 {2: lambda a: {"func_name": Text("listKeys"), "resource_identifier": a[0], "api_version": a[1]}}),
    "managementGroupResourceId": ("az", "management_group_resource_id", _more_names(_named(*RID, optional=1))),
    "pickZones": ("az", "pick_zones", _named("provider_namespace", "resource_type", "location", "number_of_zones",
                                             "offset", optional=2)),
    "reference": ("az", "reference", _named("resource_identifier", "api_version", "full", optional=2)),
    "resourceId": ("az", "resource_id", _rid),
    "subscriptionResourceId": ("az", "subscription_resource_id",
                               _more_names(_ids(RID[:2], RID, ["subscription_id", *RID]))),
    "tenantResourceId": ("az", "tenant_resource_id", _more_names(_named(*RID, optional=1))),
    "managementGroup": ("az", "management_group", _named("identifier", optional=1)),
    "resourceGroup": ("az", "resource_group", {
        0: lambda a: {"resource_group_name": None, "subscription_id": None},
        1: lambda a: {"resource_group_name": a[0], "subscription_id": None},
        2: lambda a: {"subscription_id": a[0], "resource_group_name": a[1]}}),
    "subscription": ("az", "subscription", _named("subscription_id", optional=1)),
    "tenant": ("az", "tenant", _bare()),
    "base64": ("sys", "base64", _named("input_string")),
    "base64ToJson": ("sys", "base64_to_json", _named("base64_value")),
    "base64ToString": ("sys", "base64_to_string", _named("base64_value")),
    "dataUri": ("sys", "data_uri", _named("string_to_convert")),
    "dataUriToString": ("sys", "data_uri_to_string", _named("data_uri_to_convert")),
    "endsWith": ("sys", "ends_with", _named("string_to_search", "string_to_find")),
    "format": ("sys", "format", _variadic(["format_string"], "arg_{}", 1)),
    "guid": ("sys", "guid", _variadic(["base_string"], "extra_string_{}", 1)),
    "indexOf": ("sys", "index_of", _named("string_to_search", "string_to_find")),
    "join": ("sys", "join", _named("input_array", "delimiter")),
    "lastIndexOf": ("sys", "last_index_of", _named("string_to_search", "string_to_find")),
    "newGuid": ("sys", "new_guid", _bare()),
    "padLeft": ("sys", "pad_left", _named("value_to_pad", "total_length", "padding_character", optional=1)),
    "replace": ("sys", "replace", _named("original_string", "old_string", "new_string")),
    "split": ("sys", "split", _named("input_string", "delimiter")),
    "startsWith": ("sys", "starts_with", _named("string_to_search", "string_to_find")),
    "string": ("sys", "string", _named("value_to_convert")),
    "substring": ("sys", "substring", _named("string_to_parse", "start_index", "length", optional=1)),
    "toLower": ("sys", "to_lower", _named("string_to_change")),
    "toUpper": ("sys", "to_upper", _named("string_to_change")),
    "trim": ("sys", "trim", _named("string_to_trim")),
    "uniqueString": ("sys", "unique_string", _variadic(["base_string"], "extra_string_{}", 1)),
    "uri": ("sys", "uri", _named("base_uri", "relative_uri")),
    "uriComponent": ("sys", "uri_component", _named("string_to_encode")),
    "uriComponentToString": ("sys", "uri_component_to_string", _named("uri_encoded_string")),
}


def x_func(name, args):
    """name as written; args are expected values."""
    base = name
    for ns in ("sys.", "az."):
        if name.startswith(ns):
            base = name[len(ns):]
    if base in FUNCS and name in (base, f"{FUNCS[base][0]}.{base}"):
        _, t, arities = FUNCS[base]
        m = arities[len(args)]
        f = {"type": t}
        if m is not None:
            f["parameters"] = m(args)
        return {"function": f}
    return {"function": {"type": Text(name), "parameters": {f"arg_{i + 1}": x for i, x in enumerate(args)}}}


def call(name, args, sep=", ", start="", end=""):
    return V(f"{name}({start}{sep.join(a.src for a in args)}{end})", x_func(name, [a.exp for a in args]), True, "call")


# ---- loops and conditions -----------------------------------------------------------------

def x_loop(kind, names, source, condition, body):
    if kind == "array":
        detail = {"item_name": Text(names[0]), "array_name": source}
    else:
        detail = {"item_name": Text(names[0]), "index_name": Text(names[1]), "array_name": source}
    return {"loop_type": {"type": kind, "detail": detail}, "condition": condition, "config": body}


def loop(kind, names, source, body, condition=None, start="", end="", sp=" "):
    head = names[0] if kind == "array" else f"({names[0]}, {names[1]})"
    filt = f"if{sp if sp != ' ' else ' '}({condition.src}) " if condition is not None else ""
    return V(f"[{start}for {head} in {source.src}: {filt}{body.src}{end}]",
             x_loop(kind, names, source.exp, condition.exp if condition is not None else None, body.exp), True, "loop")


def deploy_if(condition, body, sp=" "):
    return V(f"if{sp}({condition.src}) {body.src}", {"condition": condition.exp, "config": body.exp}, True, "if")


# ---- data types ---------------------------------------------------------------------------

class T:
    """A data type expression."""

    def __init__(self, src, exp):
        self.src, self.exp = src, exp

    def inputs(self):
        return self.src


def t_name(n):
    return T(n, Text(n))


def t_array(t, sp=""):
    return T(f"{t.src}{sp}[{sp}]", {"type": "array", "item_type": t.exp})


def t_union(ts, sep=" | "):
    return T("(" + sep.join(t.src for t in ts) + ")", {"type": "union", "members": [t.exp for t in ts]})


# ---- decorators ---------------------------------------------------------------------------

DECOS = {  # name -> (reported type, takes an argument)
    "allowed": ("allowed", True), "batchSize": ("batchSize", True), "description": ("description", True),
    "export": ("export", False), "minLength": ("min_length", True), "maxLength": ("max_length", True),
    "minValue": ("min_value", True), "maxValue": ("max_value", True), "metadata": ("metadata", True),
    "sealed": ("sealed", False), "secure": ("secure", False),
}


class Deco:
    def __init__(self, src, exp):
        self.src, self.exp = src, exp

    def inputs(self):
        return self.src


def deco(name, arg=None, exp_arg=None):
    base = name.removeprefix("sys.")
    if base in DECOS:
        t, takes = DECOS[base]
        exp = {"type": t}
        if takes:
            exp["argument"] = arg.exp
    else:
        exp = {"type": Text(name)}
        if arg is not None:
            exp["argument"] = arg.exp
    if exp_arg is not None:
        exp["argument"] = exp_arg[0]
    return Deco(f"@{name}({arg.src if arg is not None else ''})", exp)


# ---- declarations -------------------------------------------------------------------------

START, END = "\ue000", "\ue001"  # position marks of a declaration inside a rendered document


class Decl:
    """src contains START<id>/END<id> marks only for nested child resources (see resource())."""

    def __init__(self, src, entries, decorators=()):
        self.src = src              # without decorators
        self.entries = entries      # list of (section, name, attrs, mark or None)
        self.decorators = list(decorators)

    def with_decorators(self, decos):
        entries = [(s, n, ({**a, "decorators": [d.exp for d in decos]} if m is None else a), m)
                   for s, n, a, m in self.entries]
        return Decl(self.src, entries, decos)


def d_scope(value):
    return Decl(f"targetScope = '{value}'", [("globals", "scope", {"value": value}, None)])


def d_metadata(name, content):
    return Decl(f"metadata {name} = '{content}'", [("metadata", name, {"value": content}, None)])


def d_param(name, t, default=None, q=""):
    src = f"param {name} {t.src}{q}" + (f" = {default.src}" if default is not None else "")
    return Decl(src, [("parameters", name, {"decorators": [], "type": t.exp,
                                            "default": default.exp if default is not None else None}, None)])


def d_var(name, value, t=None, q=""):
    attrs = {"decorators": [], "value": value.exp}
    if t is not None:
        attrs["type"] = t.exp
    return Decl(f"var {name}{' ' + t.src + q if t is not None else ''} = {value.src}", [("variables", name, attrs, None)])


def d_output(name, t, value, q=""):
    return Decl(f"output {name} {t.src}{q} = {value.src}",
                [("outputs", name, {"decorators": [], "type": t.exp, "value": value.exp}, None)])


class Child:
    """A child resource inside a body; body: Body."""

    def __init__(self, name, type_, body, existing=False):
        self.name, self.type, self.body, self.existing = name, type_, body, existing


class Body:
    """A resource body: pairs and at most one child, at position `at` among the pairs; wrap is one of
    'object', 'if', 'loop', 'loop_index', 'loop_if'."""

    def __init__(self, pairs, child=None, at=None, wrap="object", condition=None, source=None, nl="\n"):
        self.pairs, self.child, self.wrap = pairs, child, wrap
        self.at = len(pairs) if at is None else at
        self.condition = condition or ident("cnd")
        self.source = source or ident("src")
        self.nl = nl

    def render(self, marks):
        items = [f"{k}: {v.src}" for k, v in self.pairs]
        if self.child:
            c = self.child
            m = marks.new()
            items.insert(self.at, f"{START}{m}{END}resource {c.name} '{c.type}' {'existing ' if c.existing else ''}= "
                                  f"{c.body.render(marks)}{START}/{m}{END}")
            c.mark = m
        o = "{" + self.nl + self.nl.join(items) + (self.nl if items else "") + "}"
        if self.wrap == "object":
            return o
        if self.wrap == "if":
            return f"if ({self.condition.src}) {o}"
        if self.wrap == "loop":
            return f"[for it in {self.source.src}: {o}]"
        if self.wrap == "loop_index":
            return f"[for (it, ix) in {self.source.src}: {o}]"
        if self.wrap == "loop_if":
            return f"[for it in {self.source.src}: if ({self.condition.src}) {o}]"
        raise AssertionError(self.wrap)

    def expected(self, parent=None):
        """The reported config; parent: name of the parent entry if this is the body of a child."""
        o = Ordered()
        for k, v in self.pairs:
            o[k] = v.exp
        dep = [I(parent)] if parent else None
        if self.wrap == "object":
            if dep:
                o["depends_on"] = [*o.get("depends_on", []), *dep]
            return o
        if self.wrap == "if":
            r = {"condition": self.condition.exp, "config": o}
        elif self.wrap == "loop":
            r = x_loop("array", ["it"], self.source.exp, None, o)
        elif self.wrap == "loop_index":
            r = x_loop("array_index", ["it", "ix"], self.source.exp, None, o)
        else:
            r = x_loop("array", ["it"], self.source.exp, self.condition.exp, o)
        if dep:
            r["depends_on"] = dep
        return r


class Marks:
    """Numbers for position marks, unique per document (reset by Doc)."""

    def __init__(self):
        self.n = 0

    def new(self):
        self.n += 1
        return str(self.n)


MARKS = Marks()


def d_resource(name, type_, version, body, existing=False):
    src = f"resource {name} '{type_}@{version}' {'existing ' if existing else ''}= {body.render(MARKS)}"
    entries = [("resources", name, {"decorators": [], "type": type_, "api_version": version,
                                    "existing": existing, "config": body.expected()}, None)]
    pname, ptype, b = name, type_, body
    while b.child:
        c = b.child
        cname, ctype = f"{pname}__{c.name}", f"{ptype}/{c.type}"
        entries.append(("resources", cname, {"decorators": [], "type": ctype, "api_version": version,
                                             "existing": c.existing, "config": c.body.expected(pname)}, c.mark))
        pname, ptype, b = cname, ctype, c.body
    return Decl(src, entries)


def local_path(p):
    return {"type": "local", "detail": {"full": p, "path": p}}


def d_module(name, path, config, ref=None):
    ref = ref or local_path(path)
    return Decl(f"module {name} '{path}' = {config.src}",
                [("modules", name, {"decorators": [], "type": ref["type"], "detail": ref["detail"],
                                    "config": config.exp}, None)])


def d_type(name, value):
    return Decl(f"type {name} = {value.src}", [("types", name, {"decorators": [], "value": value.exp}, None)])


def d_func(name, params, result, body):
    """params: list of (name, T)."""
    args = Ordered()
    for n, t in params:
        args[n] = t.exp
    return Decl(f"func {name}({', '.join(f'{n} {t.src}' for n, t in params)}) {result.src} => {body.src}",
                [("functions", name, {"decorators": [], "args": args, "type": result.exp, "expression": body.exp}, None)])


def d_import(path, symbols, braces=True):
    """symbols: list of (name, alias or None)."""
    def one(n, a):
        return n + (f" as {a}" if a else "")
    inner = ", ".join(one(*s) for s in symbols)
    src = f"import {{{inner}}} from '{path}'" if braces else f"import {inner} from '{path}'"
    entries = []
    for n, a in symbols:
        attrs = {"file_path": path}
        if a:
            attrs["alias"] = Text(a)
        entries.append(("imports", n, attrs, None))
    return Decl(src, entries)


def d_namespace(content):
    return Decl(f"import '{content}'", [("imports", content, {}, None)])


def d_extension(name, config=None, alias=None):
    attrs = {}
    if config is not None:
        attrs["config"] = config.exp
    if alias:
        attrs["alias"] = Text(alias)
    return Decl(f"extension {name}" + (f" with {config.src}" if config is not None else "") +
                (f" as {alias}" if alias else ""), [("extensions", name, attrs, None)])


class Doc:
    """A document: declarations with the trivia between them, and what has to be reported."""

    def __init__(self, decls=(), sep="\n", head="", tail="\n", deco_sep="\n"):
        parts = [head]
        self.items = []
        for i, d in enumerate(decls):
            if i:
                parts.append(sep)
            parts.append(f"{START}d{i}{END}")
            for x in d.decorators:
                parts.append(x.src + deco_sep)
            parts.append(d.src)
            parts.append(f"{START}/d{i}{END}")
        parts.append(tail)
        marked = "".join(parts)
        self.decls = list(decls)
        self.text, self.spans = strip_marks(marked)

    def inputs(self):
        return self.text

    def expected(self, lines=False):
        scope = {"value": "resourceGroup"}
        if lines:
            scope["__start_line__"] = scope["__end_line__"] = 0
        out = {"globals": {"scope": scope}}
        main, hoisted = [], []
        for i, d in enumerate(self.decls):
            for section, name, attrs, mark in d.entries:
                key = f"d{i}" if mark is None else mark
                (main if mark is None else hoisted).append((section, name, attrs, key))
        for section, name, attrs, key in main + hoisted:
            attrs = dict(attrs)
            if lines:
                a, b = self.spans[key]
                attrs["__start_line__"] = 1 + self.text.count("\n", 0, a)
                attrs["__end_line__"] = 1 + self.text.count("\n", 0, b)
            if section == "globals":
                out["globals"]["scope"] = attrs
            else:
                # the place of hoisted resources among the others is not part of the model
                sec = out.setdefault(section, {} if section == "resources" and hoisted else Ordered())
                sec.pop(name, None)
                sec[name] = attrs
        return out


def strip_marks(marked):
    """Removes START..END marks; returns the text and {id: (offset of first, offset of last character)}."""
    text, spans, i, begin = [], {}, 0, {}
    pos = 0
    while True:
        j = marked.find(START, i)
        if j < 0:
            text.append(marked[i:])
            break
        text.append(marked[i:j])
        pos += j - i
        k = marked.index(END, j)
        m = marked[j + 1:k]
        if m.startswith("/"):
            spans[m[1:]] = (begin[m[1:]], pos - 1)
        else:
            begin[m] = pos
        i = k + 1
    return "".join(text), spans
