"""Writes the `fixed` list of known_findings.json (by hand: which commit repaired which property)."""
import json, os, subprocess
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
WHAT = {
    "non-literal arguments of minValue": ("C06", "a negative or non-literal argument of minValue/maxValue was rejected or reported wrongly"),
    "falsy": ("C05", "falsy arguments of list*/getSecret accessor calls were dropped"),
    "empty text": ("C15", "parse(text='') raised TypeError while an empty file was parsed"),
    "Bicep files as": ("C15", "files were decoded with the encoding of the locale"),
    "resourceGroup": ("C05", "resourceGroup('', x) reported its arguments under the wrong parameters"),
    "tokenise strings": ("C03", "strings with escaped backslashes, with braces or strings inside interpolations, or followed by a multi-line string were cut at the wrong quote"),
    "exponential": ("C20", "an unterminated multi-line string took exponential time"),
    "leading CRLF": ("C03", "the leading line break of a multi-line string was kept if it was CRLF"),
    "trailing line comment": ("C11", "a document that ends in a line comment without line break was rejected"),
    "end line of a child": ("C12", "the end line of a child resource followed by comments or blank lines was wrong"),
    "hoist child": ("C07", "children of conditional and looped resources stayed in the body under an internal key"),
    "underscores": ("C05", "calls of functions with underscores in their names were rejected"),
    "two variables": ("C19", "lambdas with two variables were rejected"),
    "empty configuration": ("C21", "the empty configuration of an extension was dropped"),
    "line numbers to namespace": ("C12", "namespace imports had no line numbers"),
    "nested parentheses": ("C02", "doubled parentheses were rejected"),
    "space between if": ("C08", "a loop filter written 'if (' was rejected"),
    "dashes in": ("C09", "aliases with dashes and paths with dots were rejected or cut"),
    "after a decorator": ("C11", "more than ten comment lines after a decorator were rejected (superseded by the last commit of this list)"),
    "trailing text": ("C09", "text after the tag of a module reference was silently dropped"),
    "hexadecimal": ("C09", "template specs with hexadecimal digits in the subscription id were reported as something else"),
    "three quotes": ("C11", "three quotes in a comment made the document invalid"),
    "loop calls items on": ("C08", "items (b.c) with a space before the parenthesis put a Python repr into the result"),
    "first argument is missing": ("C16", "fn(, a) was accepted and read as fn(a)"),
    "only if expressions": ("C16", "[for x in y: a b] and other leftovers before a loop body were accepted and dropped"),
    "all resource names": ("C05", "resource names after the second were dropped from subscriptionResourceId, extensionResourceId, tenantResourceId and managementGroupResourceId calls"),
    "lambda variables that": ("C16", "(a + b) => c, 1 => c and the like were accepted with the Python repr of the left side as variable name"),
    "surplus arguments": ("C16", "arguments beyond the known parameters of a function or decorator were silently dropped"),
    "marker of child resources": ("C04", "a property named __child_resource__ in the body of a resource was lost or crashed the parser"),
    "negation of a boolean": ("C06", "@minValue(-true) was reported with the argument -1"),
    "wherever one is accepted": ("C11", "two or more comment lines were rejected in places where one is accepted"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix:"):
        m = [v for k, v in WHAT.items() if k in s]
        assert len(m) == 1, s
        pid, what = m[0]
        fixed.append(f"fixed: property={pid} {h} {what}")
d = json.load(open(P))
d["fixed"] = fixed
json.dump(d, open(P, "w"), indent=1)
open(P, "a").write("\n")
