"""C21: imports, extensions, metadata."""
from ..common import *
from ..core import Family, Skip, warm

SYMBOLS = ["a", "foo_bar", "_x", "A1", "as", "from", "import", "type", "string", "existing", "with", "extension", "file_path", "alias", "name",
           "param", "null_", "max", "x__y", "None", "sysx", "azx", "imports", "targetScope", "var", "metadata", "func", "output", "module", "resource"]
PATHS = ["f.bicep", "./a/b.bicep", "../../x.bicep", "", " ", "br:mcr.microsoft.com/bicep/a/b:1.0", "br/public:a/b:1.0", "ts:x", "a b.bicep", "C:\\\\x\\\\y.bicep", "it\\'s.bicep",
         "${x}.bicep", "$.bicep", "//x", "/*", "*/", "#", "é中.bicep", "\U0001f600", "a", "*", "'"[:0] + "as", "from", "type", "http://h/x?y=1&z", "a\tb", "\"", "{a}", "@", "%20"]
SPACES = ["az@1.0.0", "kubernetes@1.0", "sys@2", "br:mcr.microsoft.com/ext:1", "", "a", "as", "microsoftGraph@1.0.0-preview", "it\\'s", "${x}", "//", "#x", "é", "null", "true", "1"]


def import_doc(groups, sep=", ", start="", end="", tail="\n"):
    """groups: list of (symbols, path, braces); checks itself that no two symbols collide."""
    ds = []
    seen = set()
    for symbols, path, braces in groups:
        for n, _ in symbols:
            if n in seen:
                raise Skip
            seen.add(n)
        d = d_import(path, symbols, braces)
        if braces:
            inner = sep.join(n + (f" as {a}" if a else "") for n, a in symbols)
            d = Decl("import {" + start + inner + end + f"}} from '{path}'", d.entries)
        ds.append(d)
    return Doc(ds, "\n", "", tail)


def families(tier):
    deep = tier == "thorough"
    basics = basic_values()
    names = SYMBOLS[:6] + SYMBOLS[7:9]

    def forms(c):
        """every symbol, alias and path in every form"""
        braces = c.free([True, False])
        s, a = c.free(SYMBOLS), c.free([None, *SYMBOLS])
        return import_doc([([(s, a)], "f.bicep", braces)])

    def wildcards(c):
        braces = c.free([False, True])
        a = c.free(SYMBOLS)
        p = c.free(PATHS)
        extra = c.free([[], [("b", None)], [("b", "c")]]) if braces else []
        at = c.free(len(extra) + 1)
        return import_doc([([*extra[:at], ("*", a), *extra[at:]], p, braces)])

    def paths(c):
        p, q = c.free(PATHS), c.free(PATHS)
        k = c.free(3)
        g = [([("a", None), ("b", "c")], p, True), ([("d", "e")], q, False), ([("*", "x")], p, True)]
        return import_doc(g[k:] + g[:k])

    def symbols(c):
        """all lists of up to three symbols"""
        n = c.free([1, 2, 3])
        out = []
        for i in range(n):
            out.append((c.free(names if deep or n < 3 else names[:4]), c.free([None, "al", names[(i + 3) % len(names)]])))
        if len({x for x, _ in out}) < n:
            raise Skip
        return import_doc([(out, "f.bicep", True)])

    def pattern(c):
        """which symbols have an alias: all patterns"""
        n = c.free(range(1, 9 if deep else 8))
        return import_doc([([(f"s{i}", c.free([None, f"a{i}"])) for i in range(n)], "f.bicep", True), ([("z", None)], "g.bicep", False)])

    def layout(c):
        n = c.free([1, 2, 3])
        # line breaks inside the braces are no part of pycep's language
        sep, st, en = c.free([", ", ",", " , ", "/*c*/,/*d*/", ",  \t"]), c.free(["", " ", "/*c*/", "\t"]), c.free(["", " ", "/*c*/", "\t"])
        tail = c.free(["", "\n", " // c", "\n\n"])
        return import_doc([([(f"s{i}", "al" if i % 2 else None) for i in range(n)], "f.bicep", True)], sep, st, en, tail)

    def counts(c):
        n = c.free([2, 3, 5, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257] + ([500, 1000] if deep else []))
        how = c.free(["symbols", "statements", "namespaces", "extensions", "metadata", "mixed"])
        ds = []
        for i in range(n):
            k = ["statements", "namespaces", "extensions", "metadata"][i % 4] if how == "mixed" else how
            if k == "statements":
                ds.append(d_import(f"f{i}", [(f"s{i}", f"a{i}" if i % 3 else None)], i % 2 == 0))
            elif k == "namespaces":
                ds.append(d_namespace(f"n{i}@1"))
            elif k == "extensions":
                ds.append(d_extension(f"e{i}", [None, obj([]), obj([("k", integer(i))])][i % 3], f"a{i}" if i % 2 else None))
            elif k == "metadata":
                ds.append(d_metadata(f"m{i}", f"t{i}"))
        if how == "symbols":
            ds.append(d_import("f", [(f"s{i}", f"a{i}" if i % 3 else None) for i in range(n)]))
        return Doc(ds)

    def namespaces(c):
        a, b = c.free(SPACES), c.free(SPACES)
        if a == b:
            raise Skip
        return Doc([d_namespace(a), d_import("f", [("a", "b")]), d_namespace(b)])

    def sequences(c):
        """all sequences of import-like statements"""
        n = c.free([1, 2, 3, 4] + ([5] if deep else []))
        alt = [lambda i: d_import(f"f{i}", [(f"s{i}", None)]), lambda i: d_import(f"g{i}", [(f"s{i}", "al"), (f"t{i}", None)]), lambda i: d_import(f"h{i}", [(f"s{i}", "al")], False),
               lambda i: d_namespace(f"n{i}"), lambda i: d_extension(f"e{i}"), lambda i: d_extension(f"e{i}", obj([]), "x"), lambda i: d_metadata(f"m{i}", "v"), lambda i: d_var(f"v{i}", integer(i))]
        return Doc([c.free(alt)(i) for i in range(n)])

    def extensions(c):
        n = c.free(SYMBOLS)
        cfg = c.free([None, obj([]), obj([("k", integer(0))]), obj([], "\n", "\n", ""), obj([("k", NULL), ("'q.r'", string(""))], "\n", "\n", "\n")])
        return Doc([d_extension(n, cfg, c.free([None, *SYMBOLS]))])

    def configs(c):
        v = c.free(basics)
        shape = c.free(["one", "lines", "nested", "two"])
        o = {"one": lambda: obj([("k", v)]), "lines": lambda: obj([("k", v), ("as", string("x"))], "\n", "\n", "\n"),
             "nested": lambda: obj([("k", obj([("l", v)]))]), "two": lambda: obj([("with", v), ("l", v)])}[shape]()
        return Doc([d_extension("e", o, c.free([None, "al"])), d_extension("e2", None, c.free([None, "al"]))])

    def metadata(c):
        n = c.free(SYMBOLS)
        t = c.free(FRAGMENTS)
        return Doc([d_metadata(n, t), d_metadata(n + "_2", c.free(["", "x", t]))])

    def metadata2(c):
        t = c.free(FRAGMENTS) + c.free(FRAGMENTS)
        return Doc([d_metadata("m", t)])

    def same_names(c):
        """one name in every section"""
        n = c.free(SYMBOLS)
        r = c.free(4)
        ds = [d_import("f", [(n, None)]), d_extension(n, None, n), d_metadata(n, n), d_var(n, ident(n))]
        return Doc(ds[r:] + ds[:r])

    def collisions(c):
        """the same symbol from two files: distinct declarations (only exact duplicates are an error in Bicep)"""
        return Case(*c.free([
            ("import {a as b} from 'x'\nimport {a as c} from 'y'\n", {"globals": {"scope": {"value": "resourceGroup"}}, "imports": "two entries"}),
            ("import * as b from 'x'\nimport * as c from 'y'\n", {"globals": {"scope": {"value": "resourceGroup"}}, "imports": "two entries"}),
        ]))

    def judge_collision(case):
        from ..core import Violation, digest, parse
        r = parse(case.text)
        if '"x"' in (s := repr(r).replace("'", '"')) and '"y"' in s:
            return digest(r)
        raise Violation("one of the two imports is not reported", case.text, "both imports", r)

    def related(c):
        """symbols, aliases and names that are nearly equal"""
        a, b = c.free(NEAR_PAIRS)
        k = c.free(5)
        if k == 0:
            return import_doc([([(a, b), (b, a)], "f.bicep", True)])
        if k == 1:
            return import_doc([([(a, c.free([None, a, b]))], a, c.free([True, False])), ([(b, c.free([None, a, b]))], b, True)])
        if k == 2:
            return Doc([d_extension(a, obj([(a, ident(b)), (b, string(a))]), b), d_extension(b, None, a), d_import("f", [(a, None)])])
        if k == 3:
            return Doc([d_metadata(a, b), d_metadata(b, a), d_namespace(a), d_namespace(b)])
        return Doc([d_namespace(a), d_import(a, [(b, a)]), d_extension(a, None, b), d_metadata(b, a)])

    J = judge_doc
    return [Family("nearly equal names", related, J), *content_families(("extension_config",)), *coincidence_families("import", "extension"), *long_name_families("imports"), Family("forms", forms, J), Family("wildcards", wildcards, J), Family("paths", paths, J), Family("symbols", symbols, J), Family("alias patterns", pattern, J),
            Family("layout", layout, J), Family("counts", counts, J), Family("namespaces", namespaces, J), Family("sequences", sequences, J),
            Family("extensions", extensions, J), Family("configurations", configs, J), Family("metadata", metadata, J), Family("metadata contents", metadata2, J),
            Family("same names", same_names, J), Family("collisions", collisions, judge_collision)]


def run(check):
    check.explore(families(check.tier), warm)
