"""C17: results are plain, independent JSON data.  Reuses the document models of the other checks."""
import copy
import importlib
import json
import pickle

from ..common import *
from ..core import Family, Rejected, Violation, canon, digest, kind, parse, warm


def walk(v, path, seen, problems):
    t = kind(v)
    if t in ("dict", "list"):
        if type(v) not in (dict, list):
            problems.append(f"{path}: a {type(v).__name__} instead of a plain {t}")
        if id(v) in seen:
            problems.append(f"{path} and {seen[id(v)]} are the same object")
            return
        seen[id(v)] = path
    if t == "dict":
        for k, x in v.items():
            if kind(k) not in ("str", "ident"):
                problems.append(f"{path}: key {k!r} is a {type(k).__name__}")
            walk(x, f"{path}.{k}", seen, problems)
    elif t == "list":
        for i, x in enumerate(v):
            walk(x, f"{path}[{i}]", seen, problems)
    elif t == "ident":
        extra = getattr(v, "__dict__", None)
        if extra:
            problems.append(f"{path}: a string with attributes {extra}")
    elif t not in ("str", "int", "bool", "NoneType"):
        problems.append(f"{path}: a {type(v).__name__}: {v!r}")


def plain(v):
    """The same data with identifiers as ordinary strings."""
    t = kind(v)
    if t == "dict":
        return {str(k): plain(x) for k, x in v.items()}
    if t == "list":
        return [plain(x) for x in v]
    return str.__str__(v) if t == "ident" else v


LAST = {}


def judge(case):
    text = case.text if hasattr(case, 'text') else case.inputs()
    out = []
    for lines in (False, True):
        a = parse(text, lines)
        if isinstance(a, Rejected):
            return "reject"
        b = parse(text, lines)
        problems, seen = [], {}
        if type(a) is not dict:
            raise Violation(f"the result is a {type(a).__name__}", text)
        walk(a, "$", seen, problems)
        other = {}
        walk(b, "second result", other, problems)
        shared = seen.keys() & other.keys()
        if shared:
            problems.append(f"two results share {seen[next(iter(shared))]}")
        # a result of another document that is still in use
        prev = LAST.get(lines)
        if prev is not None:
            third = {}
            walk(prev, "$", third, [])
            if third.keys() & seen.keys():
                problems.append(f"the results of two documents share {seen[next(iter(third.keys() & seen.keys()))]}")
        LAST[lines] = b
        ca = canon(a)
        if canon(b) != ca:
            problems.append("the same text has two results")
        if problems:
            raise Violation("; ".join(problems[:4]), text, None, a)
        p = plain(a)
        for how, j in (("", json.dumps(a)), (" in UTF-8", json.dumps(a, ensure_ascii=False).encode("utf-8"))):
            back = json.loads(j)
            if canon(back) != canon(p) or back != a or a != back:
                raise Violation(f"not the same after a JSON round trip{how}", text, a, back)
        for how, q in (("pickled", pickle.loads(pickle.dumps(a))), ("pickled with protocol 0", pickle.loads(pickle.dumps(a, 0))), ("deep-copied", copy.deepcopy(a))):
            if canon(q) != ca:
                raise Violation(f"not the same when {how}", text, a, q)
        if canon(a) != ca:
            raise Violation("serialising a result changes it", text, ca, a)
        out.append(ca)
    return digest(out)


BORROW = {  # check -> families whose documents are used
    "c01": ["all kinds, many", "pairs of variants", "order"],
    "c02": ["ternary parts", "operand values", "index values"],
    "c03": ["keyword-like", "integers", "multi-line in positions", "identifier next to string", "string contents"],
    "c04": ["small trees", "small trees on lines", "values of keys", "array lengths", "object lengths"],
    "c05": ["equal arguments", "nesting", "hosts", "names without call"],
    "c06": ["neighbours", "unknown decorators", "arguments", "many", "sequences", "negative numbers"],
    "c07": ["depths", "keys", "values", "several parents", "structure"],
    "c08": ["several", "sources", "filters", "bodies", "all parts", "nested loops", "deployment conditions"],
    "c09": ["several", "resource types", "special characters", "parts"],
    "c10": ["type values", "many parameters", "signatures", "nested unions", "wide unions", "union values", "defaults"],
    "c19": ["value in host", "value in value in host"],
    "c21": ["symbols", "sequences", "extensions", "configurations", "namespaces", "wildcards"],
}
# in the thorough tier only
BIG = {"several parents", "value in value in host", "parts", "sequences", "signatures", "arguments", "deployment conditions", "pairs of variants", "symbols", "string contents", "order"}


def families(tier):
    out = []
    for check, names in BORROW.items():
        mod = importlib.import_module(f"mc.checks.{check}")
        fams = {f.name: f for f in mod.families("quick")}
        for n, f in fams.items():
            if tier == "thorough" or n in names and n not in BIG:
                out.append(Family(f"{check}: {n}", f.fn, judge, f.bound))
    kinds = catalogue()

    def repeated(c):
        """the same declaration several times under different names: nothing may be shared between the entries"""
        k = c.free(list(kinds))
        f = c.free(kinds[k])
        n = c.free([1, 2, 3])
        decos = c.free([[], [deco("allowed", array([]))], [deco("custom", obj([("k", array([]))])), deco("custom", obj([("k", array([]))]))]]) if k in DECORATABLE else []
        ds = [f(f"n{i}") for i in range(n)]
        return Doc([d.with_decorators(decos) if decos else d for d in ds])

    out.append(Family("repeated declarations", repeated, judge))

    def equal_parts(c):
        """constructs whose parts are equal: written twice, they are two objects"""
        x = ident("x")
        v = c.free([array([]), obj([]), array([x]), obj([("k", x)]), obj([("k", array([x]))]), call("f", [x]), call("concat", [x, x]), binary(x, "+", x), lnot(x), index(x, x), cond(x, x, x), lam(["y"], x), access_call(x, "listKeys", [x]), paren(array([x])), array([array([]), array([])])])
        p = paren(v)
        T = c.free([t_name("string"), t_array(t_name("string")), t_union([t_name("a"), t_array(t_name("b"))])])
        w = {
            **{f"binary {o}": lambda o=o: binary(p, o, v) for o in BINARY}, "conditional": lambda: cond(p, p, v), "branches": lambda: cond(x, p, v), "array": lambda: array([v, v, v]), "array lines": lambda: array([v, v], "\n", "\n", "\n"),
            "object": lambda: obj([("a", v), ("b", v)]), "nested": lambda: array([v, obj([("a", v), ("b", array([v, v]))])]), "call": lambda: call("f", [v, v, v]), "known call": lambda: call("concat", [v, v, v]), "range": lambda: call("range", [v, v]),
            "resourceId": lambda: call("resourceId", [v] * 6), "member call": lambda: access_call(p, "listKeys", [v, v]), "index": lambda: index(p, v), "lambda": lambda: call("map", [v, lam(["y"], v)]),
            "loop": lambda: loop("array", ["i"], v, v, v), "indexed loop": lambda: loop("array_index", ["i", "j"], v, v, v), "loop property": lambda: obj([("a", loop("array", ["i"], v, v)), ("b", loop("array", ["i"], v, v))]),
        }
        k = c.free([*w, "decorators", "signature", "defaults", "type", "children", "condition", "extension"])
        if k == "decorators":
            return Doc([d_param(n, T).with_decorators([deco("allowed", v), deco("allowed", v), deco("custom", v)]) for n in "pq"])
        if k == "signature":
            return Doc([d_func(n, [("a", T), ("b", T)], T, v) for n in "pq"])
        if k == "defaults":
            return Doc([*(d_param(n, T, v) for n in "pq"), *(d_var(n, v, T) for n in "pq"), *(d_output(n, T, v) for n in "pq")])
        if k == "type":
            return Doc([d_type(n, v) for n in "pq"])
        if k == "children":
            body = lambda: Body([("a", v), ("b", v)], Child("c", "t", Body([("a", v)], None, None, w_)), None, w_)
            w_ = c.free(["object", "if", "loop"])
            return Doc([d_resource(n, "A/b", "1", body()) for n in "pq"])
        if k == "condition":
            m = c.free([deploy_if(p, obj([("a", v)])), loop("array", ["i"], v, obj([("a", v)]), v)])
            return Doc([d_module(n, "./m", m) for n in "pq"])
        if k == "extension":
            return Doc([d_extension(n, obj([("a", v), ("b", v)])) for n in "pq"])
        return Doc([d_var(n, w[k]()) for n in "pq"])

    out.append(Family("equal parts", equal_parts, judge))
    return out


def run(check):
    check.explore(families(check.tier), warm)
