"""C19: every value kind in every position, two and three levels deep."""
from ..common import *
from ..core import Family, warm


def families(tier):
    values = basic_values()
    pos = value_positions()
    hosts = host_positions()
    names, hnames = list(pos), list(hosts)
    small = SMALL

    def fits(h, v):
        # an expression statement only: a type declaration may not hold an open bar, nothing else is excluded
        return True

    def flat(c):
        h = c.free(hnames)
        v = c.free(values)
        return hosts[h](v)

    def nested(c):
        h = c.free(hnames)
        p = c.free(names)
        v = c.free(values)
        return hosts[h](pos[p](v))

    particular = contents()

    def content_nested(c):
        return hosts[c.free(hnames)](pos[c.free(names)](c.free(particular)))

    def nested2(c):
        h = c.free(["var", "resource_property", "param_default", "loop_body"])
        p = c.free(names)
        q = c.free(names)
        v = c.free(small)
        return hosts[h](pos[p](pos[q](v)))

    def nested3(c):
        p, q, r = c.free(names), c.free(names), c.free(names)
        v = c.free(small[:3] + small[9:11])
        return hosts["var"](pos[p](pos[q](pos[r](v))))

    def many_variables(c):
        n = 1 + c.free(11)
        names_ = [f"x{i}" for i in range(n)]
        v = lam(names_, c.free(values))
        return hosts[c.free(hnames)](call(c.free(["map", "reduce", "fn"]), [ident("a"), v]))

    def related(c):
        a, b = c.free(NEAR_PAIRS)
        n = c.free([[a, b], [a, b, a + b], [a]])
        body = c.free([ident(b), binary(ident(a), "+", ident(b)), lam([b], ident(a)), lam([b, a], array([ident(a), ident(b), string(a)])), obj([(a, ident(b)), (b, ident(a))])])
        return hosts[c.free(["var", "resource_property", "param_default", "loop_body", "func_body"])](call("map", [ident(a), lam(n, body)]))

    fams = [Family("nearly equal variables", related, judge_doc), *content_families(hnames, names), Family("particular contents in values in places", content_nested, judge_doc), *coincidence_families("lambda", "operator"), *long_name_families("expressions"), Family("lambdas", many_variables, judge_doc), Family("value in host", flat, judge_doc), Family("value in value in host", nested, judge_doc),
            Family("value in value in value", nested2, judge_doc)]
    if tier == "thorough":
        fams.append(Family("value, four levels", nested3, judge_doc))
    return fams


def run(check):
    check.assumptions.append("operators and lambdas are put in parentheses where a left operand has to end")
    check.explore(families(check.tier), warm)
