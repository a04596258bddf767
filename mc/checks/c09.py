"""C09: module references and resource types."""
from ..common import *
from ..core import Family, Skip, warm

ALIAS = ["public", "contoso", "Public", "PUBLIC", "public1", "my-alias", "a_b", "A1", "x", "publicpublic", "9", "mcr", "br", "public-"]
REGISTRY = ["contoso", "a", "A1b2", "mcr", "public", "exampleregistry", "x_y", "7reg", "azurecr", "br"]
PATH = ["a", "a/b", "bicep/modules/storage", "a/b/c/d/e/f", "a-b/c_d", "a.b/c.d", "avm/res/storage/storage-account", "v1.0/x", "A/B", "1/2", "br/ts",
        "public", "samples/hello-world", "mcr.microsoft.com/x", "x.azurecr.io/y"]
TAG = ["1", "1.0.0", "v1", "v1.2.3", "latest", "1.0.0-beta.1", "a_b", "-", ".", "2020-01-01", "A", "0"]
SUB = ["00000000-0000-0000-0000-000000000000", "1", "12345678-90ab-cdef-1234-567890ABCDEF", "abcdefab-cdef-abcd-efab-cdefabcdefab", "a1-", "9f3c"]
RG = ["rg", "rg-1", "my_rg.x", "(rg)", "a(b)c", "RG", "1", "rg.", "ts", "x-(1)_y."]
SPEC = ["spec", "storage-spec", "s.p", "A1", "x_y", "1", "ts"]
LOCAL = ["./a.bicep", "../a.bicep", "a.bicep", "a/b/c.bicep", "./a b.bicep", "brx", "br", "ts", "br_1.bicep", "tsx:a", "./br:mcr.microsoft.com/a:1", "b r:a",
         "BR:mcr.microsoft.com/a:1", "Br/public:a:1", "TS:1/a/b:1", "bra/b", "tss/a:b:1", " br:mcr.microsoft.com/a:1", "./ts/public:a:1", "x:y", "http://a/b",
         "é/中.bicep", "../br/public:a:1", "modules/br.bicep", "", ".", "..", "/abs/x.bicep", "a@b", "./it\\'s.bicep", "br\\\\:x", "C:x", "./${x}.bicep", "_br:x",
         "./a/./b.bicep", "a/../b.bicep", "a//b.bicep", "./a/", "//a", "././a", "../../a", ".\\\\a\\\\b.bicep", "a%20b.bicep", "./A.BICEP", "a.bicep?x=1", "a.json", "~/a", "file:///a", ".bicep", "...", "a.bicep.", "./a.bicep#b",
         "$HOME/a", "./a;b", "a,b", "./(a)", "[a]", "{a}", "./a=b", "./a\tb", "  ", "./ a", "./a ", "./a/ b", "x/br:mcr.microsoft.com/a:1", "\u202ea", "./e\u0301.bicep", "./a\u00a0b"]
INVALID = ["br:", "br/", "ts:", "ts/", "br:a", "br:mcr.microsoft.com", "br:mcr.microsoft.com/", "br:mcr.microsoft.com/a", "br:mcr.microsoft.com/a:",
           "br:mcr.microsoft.com:1", "br:mcr.microsoft.com/:1", "br:contoso.azurecr.io/a", "br:contoso.azurecr.io:1", "br:.azurecr.io/a:1", "br:/a:1", "br::1",
           "br/public", "br/public:a", "br/public:", "br/public:a:", "br/:a:1", "br/public::1", "br//a:1", "br/public/a:1", "br:public:a", "ts:1/rg/name",
           "ts:1/rg:1", "ts:1/rg/name:", "ts:/rg/name:1", "ts:1//name:1", "ts:1/rg/:1", "ts:rg/name:1", "ts:1/rg/name", "ts/a", "ts/a:b", "ts/:b:1", "ts/a::1",
           "ts/a:b:", "br: mcr.microsoft.com/a:1", "br: ", "ts/ a:b:1", "br:mcr.microsoft.com/a:1 ", "br/public:a:1 ", "ts/a:b:1 ", "ts:1/rg/name:1 ",
           "br:mcr.microsoft.com/a:1/2", "br/public:a:1/2", "br/public:a:1:2", "br:contoso.azurecr.io/a:1:2", "ts:1/rg/name:1/x", "ts/a:b:1/x",
           "br:mcr_microsoft_com/a:1", "br:mcrxmicrosoftxcom/a:1", "br:contosoxazurecrxio/a:1", "br:contoso.azurecr.iox/a:1", "br:mcr.microsoft.comx/a:1",
           "br:mcr.microsoft.com/a b:1", "br:mcr.microsoft.com/a:1 b", "br/public:a b:1", "ts:1/r g/name:1", "ts/a:b:1@", "br:mcr.microsoft.com/a:1@sha",
           "br/pub lic:a:1", "ts/x y:a:1", "br:xbr:mcr.microsoft.com/a:1", "ts:1/rg/na me:1"]
FAMILY = ["br_public", "br_private", "br_alias", "ts", "ts_alias"]


def ref(kind, *p):
    """reference text and its expected classification"""
    if kind == "br_public":
        path, tag = p
        full = f"mcr.microsoft.com/{path}:{tag}"
        return "br:" + full, {"type": "bicep_registry", "detail": {"full": full, "registry_name": "mcr.microsoft.com", "path": path, "tag": tag, "public": True}}
    if kind == "br_private":
        reg, path, tag = p
        full = f"{reg}.azurecr.io/{path}:{tag}"
        return "br:" + full, {"type": "bicep_registry", "detail": {"full": full, "registry_name": reg, "path": path, "tag": tag, "public": False}}
    if kind == "br_alias":
        al, path, tag = p
        full = f"{al}:{path}:{tag}"
        return "br/" + full, {"type": "bicep_registry_alias", "detail": {"full": full, "alias": al, "path": path, "tag": tag, "public": al == "public"}}
    if kind == "ts":
        sub, rg, name, ver = p
        full = f"{sub}/{rg}/{name}:{ver}"
        return "ts:" + full, {"type": "template_spec", "detail": {"full": full, "subscription_id": sub, "resource_group_id": rg, "name": name, "version": ver}}
    al, path, tag = p
    full = f"{al}:{path}:{tag}"
    return "ts/" + full, {"type": "template_spec_alias", "detail": {"full": full, "alias": al, "path": path, "tag": tag}}


PARTS = {"br_public": [PATH, TAG], "br_private": [REGISTRY, PATH, TAG], "br_alias": [ALIAS, PATH, TAG], "ts": [SUB, RG, SPEC, TAG],
         "ts_alias": [ALIAS, PATH, TAG]}
NAMECHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
CHARS = {"br_public": [NAMECHARS + "-./", NAMECHARS + "-."], "br_private": [NAMECHARS, NAMECHARS + "-./", NAMECHARS + "-."],
         "br_alias": [NAMECHARS + "-", NAMECHARS + "-./", NAMECHARS + "-."],
         "ts": ["0123456789abcdefABCDEF-", NAMECHARS + "-.()", NAMECHARS + "-.", NAMECHARS + "-."], "ts_alias": [NAMECHARS + "-", NAMECHARS + "-./", NAMECHARS + "-."]}


def families(tier):
    deep = tier == "thorough"
    body = obj([("name", string("n"))], "\n", "\n", "\n")

    def module(path, r, **kw):
        return Doc([d_module("m", path, body, r)])

    def products(c):
        k = c.free(FAMILY)
        return module(*ref(k, *[c.free(a) for a in PARTS[k]]))

    def characters(c):
        """every character of a part's alphabet at its start, middle and end"""
        k = c.free(FAMILY)
        n = len(PARTS[k])
        i = c.free(n)
        ch = c.free(CHARS[k][i])
        at = c.free(4)
        parts = [{0: "x1", 1: "y2", 2: "z3", 3: "w4"}[j] if (k, j) != ("ts", 0) else "12" for j in range(n)]
        base = parts[i]
        parts[i] = [ch + base, base[0] + ch + base[1], base + ch, ch][at]
        if k == "br_alias" and i == 0 and parts[0] == "public":
            raise Skip
        return module(*ref(k, *parts))

    def pairs_of_chars(c):
        k = c.free(FAMILY)
        i = c.free(len(PARTS[k]))
        special = [x for x in "-./()_0aF" if x in CHARS[k][i]]
        s = "".join(c.free(special) for _ in range(3))
        parts = [{0: "x1", 1: "y2", 2: "z3", 3: "w4"}[j] if (k, j) != ("ts", 0) else "12" for j in range(len(PARTS[k]))]
        parts[i] = s
        return module(*ref(k, *parts))

    def lengths(c):
        k = c.free(FAMILY)
        i = c.free(len(PARTS[k]))
        n = c.free([1, 2, 3, 5, 8, 16, 24, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257])
        parts = [{0: "x1", 1: "y2", 2: "z3", 3: "w4"}[j] if (k, j) != ("ts", 0) else "12" for j in range(len(PARTS[k]))]
        style = c.free(["plain", "segments"])
        if style == "segments":
            if "/" not in CHARS[k][i]:
                raise Skip
            parts[i] = "/".join(f"s{j}" for j in range(n))
        else:
            parts[i] = ("a1b2c3d4e5f6-"[:13] * 30 if "-" in CHARS[k][i] else "abc123" * 50)[:n]
        return module(*ref(k, *parts))

    def local(c):
        p = c.free(LOCAL)
        q = c.free(["", ".bicep", "/x", ":1", ":a:1"])
        if (p + q).startswith(("br:", "br/", "ts:", "ts/")):
            raise Skip
        return module(p + q, local_path(p + q))

    def local_characters(c):
        """every character at every place of a local path"""
        ch = c.free([chr(i) for i in range(1, 0x180) if chr(i) not in "\n\r'\\"] + list("\u2028\u2029\u200b\ufeff\u3000\uffff\U0001f600"))
        p = c.free(["{0}a/b.bicep", "./a{0}b/c.bicep", "../a/b.bicep{0}", "./{0}{0}/x", "a{0}", "{0}"]).replace("{0}", ch)
        if p.startswith(("br:", "br/", "ts:", "ts/")) or "${" in p:
            raise Skip
        return module(p, local_path(p))

    def invalid(c):
        p = c.free(INVALID)
        k = c.free([0, 1, 2])
        d = Doc([[d_param("p", t_name("int"))], [], [d_var("v", integer(1))]][k] + [d_module("m", p, body, local_path(p))])
        return Case(d.text, None)

    def cut(c):
        """a reference without one of its separators or parts"""
        k = c.free(FAMILY)
        parts = [a[1] for a in PARTS[k]]
        full = ref(k, *parts)[0]
        n = c.free(list(range(3, len(full))))
        text = full[:n]
        tail = ref(k, *parts)[0].rsplit(":", 1)
        if n > len(tail[0]) + 1:
            raise Skip  # a shorter tag is a tag
        return Case(Doc([d_module("m", text, body, local_path(text))]).text, None)

    def several(c):
        """modules of every class in one document"""
        n = c.free([2, 3])
        refs = [ref("br_public", "a/b", "1"), ref("br_private", "reg", "a/b", "2"), ref("br_alias", "public", "a/b", "3"), ref("br_alias", "al", "a/b", "4"),
                ref("ts", "12", "rg", "sp", "5"), ref("ts_alias", "al", "sp", "6"), ("./l.bicep", local_path("./l.bicep"))]
        out = []
        for i in range(n):
            p, r = c.free(refs)
            out.append(d_module(f"m{i}", p, body, r))
        return Doc(out)

    TYPES = ["Microsoft.Storage/storageAccounts", "Microsoft.Web/sites/config", "A.B/c", "a", "", "a/b/c/d/e", "Microsoft.KeyVault/vaults/accessPolicies", "x y",
             "é", "A-B/c_d", "a.b.c", "${x}/y", "it\\'s", "2020-01-01", "a:b"]
    VERSIONS = ["2020-01-01", "2021-06-01-preview", "1", "", "v1.0", "latest", "2020-01-01-alpha.2", "x y", "a/b", "é", "2020_01_01", "${v}"]

    def types(c):
        t, v = c.free(TYPES), c.free(VERSIONS)
        ex = bool(c.free(2))
        return Doc([d_resource("r", t, v, Body([("name", string("n"))], wrap=c.free(["object", "if", "loop"])), ex)])

    def type_chars(c):
        ch = c.free([chr(x) for x in range(33, 127) if chr(x) not in "'@\\$"] + ["\\\\", "\\'", "é", " "])
        at = c.free(3)
        side = c.free(2)
        s = [ch + "ab", "a" + ch + "b", "ab" + ch][at]
        return Doc([d_resource("r", s if side == 0 else "A.B/c", s if side else "2020-01-01", Body([]))])

    def bad_types(c):
        t = c.free(["A.B/c", "", "a@b@c", "@@", "a@@b", "A.B/c2020-01-01", "a b", "a@b@c@d"])
        return Case(f"resource r '{t}' = {{\n}}\n", None)

    J = judge_doc
    def spelling(c):
        """parts that agree with frequent ones but for their case, and dates of all forms"""
        words = ["preview", "Preview", "PREVIEW", "alpha", "BETA", "rc", "privatepreview", "Public", "public", "MCR", "mcr", "Latest", "latest", "V1", "v1", "01", "1", "0", "00"]
        a, b = c.free(words), c.free([*words, ""])
        sep = c.free(["-", ".", "_", "--"])
        s = a + sep + b if c.free(2) else "2020-01-01" + sep + a
        k = c.free(["type", "version", *FAMILY])
        if k == "type":
            return Doc([d_resource("r", c.free(["", "A.B/"]) + s, "2020-01-01", Body([("name", string("n"))]))])
        if k == "version":
            return Doc([d_resource("r", "A.B/c", s, Body([("name", string("n"))], Child("ch", s, Body([])))), d_resource("r2", "A.B/c", s.swapcase(), Body([], wrap="if"))])
        parts = [{0: "x1", 1: "y2", 2: "z3", 3: "w4"}[j] if (k, j) != ("ts", 0) else "12" for j in range(len(PARTS[k]))]
        i = c.free([j for j in range(len(parts)) if all(ch in CHARS[k][j] for ch in s)] or [len(parts) - 1])
        parts[i] = s
        return module(*ref(k, *parts))

    return [Family("spelling", spelling, J), Family("parts", products, J), Family("characters", characters, J), Family("special characters", pairs_of_chars, J), Family("lengths", lengths, J),
            Family("local", local, J), Family("characters of local paths", local_characters, J), Family("invalid", invalid, judge_case), Family("cut", cut, judge_case), Family("several", several, J),
            Family("resource types", types, J), Family("characters of types", type_chars, J), Family("invalid types", bad_types, judge_case)]


def run(check):
    check.explore(families(check.tier), warm)
