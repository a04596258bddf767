"""C01: documents as sequences of declarations."""
from ..common import *
from ..core import Family, Skip, warm

SCOPES = ["resourceGroup", "subscription", "managementGroup", "tenant"]
BAD_SCOPES = ["", " ", "resourcegroup", "ResourceGroup", "RESOURCEGROUP", "resource_group", "Subscription", "subscriptions", "tenant ",
              " tenant", "Tenant", "managementgroup", "management_group", "scope", "none", "null", "subscription,tenant", "tenan",
              "desiredStateConfiguration", "local", "resourceGroup\\'", "${x}", "ten ant", "true", "0", "globals", "value"]
NAMES = IDENTS + ["globals", "scope", "value", "parameters", "variables", "outputs", "resources", "modules", "types", "functions", "imports",
                  "extensions", "metadata", "decorators", "config", "default", "detail", "__name__", "__attrs__", "__child_resource__", "x1", "x2",
                  "__start_line__", "resource", "keys", "items", "update", "a__b", "pop", "for", "if", "X", "x"]
LADDER = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 25, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129]
LADDER_T = LADDER + [150, 199, 200, 201, 255, 256, 257, 300, 400, 500, 511, 512, 513, 600]


def families(tier):
    cat = catalogue()
    kinds = list(cat)
    allv = [(k, f) for k in kinds for f in cat[k]]

    def fits(kind_name_pairs):
        seen = set()
        for k, n in kind_name_pairs:
            key = (SECTION[k], n + ("@1.0" if k == "namespace" else ""))
            if key in seen:
                raise Skip
            seen.add(key)

    def sequences(c):
        n = c.free(5 if tier == "thorough" else 4)
        ks = [c.free(kinds) for _ in range(n)]
        naming = c.free(["distinct", "same", "descending"])
        names = {"distinct": [f"n{i}" for i in range(n)], "same": ["nm"] * n, "descending": [f"z{9 - i}" for i in range(n)]}[naming]
        fits(zip(ks, names))
        scope = c.dev([None, "tenant"])
        sep = c.dev(["\n", "\n\n"])
        decls = [cat[k][i % len(cat[k])](nm) for i, (k, nm) in enumerate(zip(ks, names))]
        if scope:
            decls.insert(c.free(len(decls) + 1), d_scope(scope))
        return Doc(decls, sep)

    def pairs(c):
        (k1, f1), (k2, f2) = c.free(allv), c.free(allv)
        same = c.free(2)
        n1, n2 = ("nm", "nm") if same else ("n1", "n2")
        fits([(k1, n1), (k2, n2)])
        return Doc([f1(n1), f2(n2)])

    def order(c):
        """One declaration of every kind; any two exchanged, any rotation."""
        perm = list(range(len(kinds)))
        r = c.free(len(kinds))
        perm = perm[r:] + perm[:r]
        i, j = c.free(len(kinds)), c.free(len(kinds))
        if j < i:
            raise Skip
        perm[i], perm[j] = perm[j], perm[i]
        v = c.free(3)
        return Doc([cat[kinds[k]][v % len(cat[kinds[k]])]("same") for k in perm])

    def ladder(c):
        k = c.free(kinds)
        n = c.free(LADDER_T if tier == "thorough" else LADDER)
        down = c.free(2)
        order = range(n, 0, -1) if down else range(n)
        return Doc([cat[k][i % len(cat[k])](f"n{i}") for i in order])

    def mixed_ladder(c):
        n = c.free(LADDER_T if tier == "thorough" else LADDER)
        return Doc([cat[kinds[i % len(kinds)]][i % len(cat[kinds[i % len(kinds)]])](f"n{i}") for i in range(n)])

    def huge(c):
        n = c.free([255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2049])
        k = c.free([None, "var", "resource"])
        return Doc([cat[k or kinds[i % len(kinds)]][0](f"n{i}") for i in range(n)])

    def with_child(c):
        """a resource with a child, and two declarations named like the parts of the child's name"""
        child = d_resource("r", "A.B/c", "1", Body([("name", string("n"))], Child("c", "d", Body([], Child("d", "e", Body([])) if c.free(2) else None))))
        near = ["r__c", "r__x", "r__", "__c", "c", "r__c__d", "r__c__x", "R__c", "b", "r_c", "rr__c"]
        k1, k2 = c.free(kinds), c.free(kinds)
        ds = [cat[k1][0](c.free(near)), cat[k2][0](c.free(near))]
        fits([("resource", "r"), ("resource", "r__c"), ("resource", "r__c__d"), *((k, d.entries[0][1]) for k, d in zip((k1, k2), ds))])
        ds.insert(c.free(3), child)
        return Doc(ds)

    def names(c):
        k = c.free(kinds)
        n = c.free(NAMES)
        other = c.free([None, "param", "var", "resource"])
        f = cat[k][c.free(min(3, len(cat[k])))]
        decls = [f(n)]
        if other and other != k:
            decls.insert(c.free(2), cat[other][0](n))
        return Doc(decls)

    def scope_among(c):
        """the target scope at the start, in the middle and at the end of many declarations"""
        n = c.free(LADDER[1:])
        k = c.free([None, *kinds])
        ds = [cat[k or kinds[i % len(kinds)]][i % len(cat[k or kinds[i % len(kinds)]])](f"n{i}") for i in range(n)]
        ds.insert(c.free([0, n // 2, n]), d_scope(c.free(["tenant", "subscription"])))
        return Doc(ds)

    def scopes(c):
        good = c.free(SCOPES)
        k = c.free(kinds + [None])
        decls = [d_scope(good)]
        if k:
            decls.insert(c.free(2), cat[k][0]("a1"))
        return Doc(decls)

    def bad_scopes(c):
        bad = c.free(BAD_SCOPES)
        k = c.free([None, "param", "resource", "import"])
        decls = [d_scope(bad)]
        if k:
            decls.insert(c.free(2), cat[k][0]("a1"))
        return Case(Doc(decls).text, None)

    def empties(c):
        return Case(c.free(["\n", "\n\n", " ", "// c\n", "/* c */\n", "# c\n", "\t\n", "\r\n", ""]), doc_scope())

    def related(c):
        """two declarations whose names are not the same but nearly"""
        a, b = c.free(NEAR_PAIRS)
        k1, k2 = c.free(kinds), c.free(kinds)
        v = c.free(2)
        return Doc([cat[k1][v % len(cat[k1])](a), cat[k2][-1 - v if v < len(cat[k2]) else 0](b)])

    def related3(c):
        a, b = c.free(NEAR_PAIRS[:len(NEAR_PAIRS) // 2])
        k = c.free(kinds)
        order = c.free([(a, b, "z"), (a, "z", b), (b, a, "z"), ("z", b, a)])
        return Doc([cat[k][i % len(cat[k])](n) for i, n in enumerate(order)])

    values = basic_values()
    hosts = host_positions()

    def same_name(c):
        """a declaration with every kind of value next to a declaration of another kind with the same name"""
        h = c.free(list(hosts))
        v = c.free(values)
        k = c.free(kinds)
        d = hosts[h](v).decls
        name, section = d[0].entries[0][1], d[0].entries[0][0]
        if SECTION[k] == section:
            raise Skip
        at = c.free(2)
        other = cat[k][c.free(min(2, len(cat[k])))](name)
        return Doc([other, *d] if at else [*d, other])

    J = judge_doc
    return [Family("nearly equal names", related, J), Family("nearly equal names of three", related3, J), Family("equal names and values", same_name, J),
            *coincidence_families("typed", "resource", "import", "extension"), *long_name_families("declarations"),
            Family("scope among many", scope_among, J), Family("sequences", sequences, J, 1), Family("pairs of variants", pairs, J), Family("order", order, J),
            Family("one kind, many", ladder, J), Family("all kinds, many", mixed_ladder, J), Family("very many", huge, J), Family("names like a child's", with_child, J), Family("names", names, J),
            Family("scopes", scopes, J), Family("invalid scopes", bad_scopes, judge_case), Family("empty", empties, judge_case)]


def run(check):
    check.explore(families(check.tier), warm)
