"""Writes /verif/MANIFEST.json (run by hand; the output is committed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = "bounded exhaustive enumeration of a generator model, every trace replayed on the real parser"
C = {
    "C01": (GEN + " (declaration sequences)", "all documents of up to 3 declarations out of a catalogue of every declaration kind, all orders and name clashes, ladders up to hundreds of declarations"),
    "C02": (GEN + " (token-level expressions against an independent precedence-free parser)", "all operator/accessor/unary/ternary/index/call sequences up to the stated depth, exact tree compared"),
    "C03": (GEN + " (strings up to a number of fragments, identifiers, integers)", "all fragment sequences up to the bound in several positions; reference scanner as second oracle"),
    "C04": (GEN + " (containers)", "all arrays/objects up to the bound, every separator at every gap within a deviation bound, ladders of sizes"),
    "C05": (GEN + " (function x arity x argument)", "every documented function and arity with every kind of argument at each position; all falsy combinations; ladders"),
    "C06": (GEN + " (decorator sequences)", "all decorator sequences up to 3-4 over every kind of decorator and target, layouts within a deviation bound"),
    "C07": (GEN + " (resource trees)", "all nestings up to the bound over body shapes, existing flags, conditions, loops and positions of the child"),
    "C08": (GEN + " (loops and conditions)", "every part of a loop or condition replaced by every kind of value, all small combinations, layouts within a deviation bound"),
    "C09": (GEN + " (module references)", "all references built from part alphabets per scheme, all single-part omissions, rejected look-alikes"),
    "C10": (GEN + " (type expressions)", "all type terms up to the bound, all signatures up to 3 parameters, ladders"),
    "C11": ("exhaustive enumeration of trivia at token gaps up to a deviation bound on the real parser, differential oracle", "every gap of every catalogue document with every kind of trivia, pairs of gaps, triples in the thorough tier"),
    "C12": (GEN + " (line positions)", "all documents of up to 3 declarations with trivia and multi-line values; model computes the lines"),
    "C13": ("explicit-state exploration of call histories on live parsers, differential oracle (fresh process)", "all call sequences up to the bound over a forced-collision alphabet of calls, mutations and file changes"),
    "C14": ("stateless exploration of thread interleavings under a controlled scheduler with a preemption bound, oracle: results alone", "all schedules of the harnesses with the stated number of preemptions at line (and bytecode) granularity"),
    "C15": (GEN + " (calls, file contents and locales)", "all file contents up to the bound, all argument combinations, several locales in real processes"),
    "C16": ("explicit-state search over token sequences with the real parser as transition function, oracle: unparsed result accounts for every token", "all viable token sequences up to the depth per root context; all single-token edits of catalogue documents"),
    "C17": (GEN + " (values x positions), structural invariants on the object graph", "every catalogue value in every position; identity graph, JSON, pickle and copy checked on each"),
    "C18": ("exhaustive enumeration of cache states, truncation points, process interleavings and configurations on the real code", "all configurations of the stated product, every crash point of a cache write, all schedules of two processes at system-call granularity within the bound"),
    "C19": (GEN + " (value x position^2)", "every kind of value in every pair of nested positions"),
    "C20": (GEN + " (repetition patterns) under a time limit", "all patterns of the stated alphabet, closed and unclosed, at sizes that separate linear from exponential behaviour"),
    "C21": (GEN + " (imports, extensions, metadata)", "all imports up to the bound over names, aliases, paths and layouts; all extension and metadata forms"),
    "C22": ("explicit-state exploration of call histories with a snapshot of the process state before and after every call", "all call sequences up to the bound over every kind of call and failure, every construct; growth measured over series of thousands of distinct documents"),
    "C23": ("exhaustive fault injection: an exception at every line event of a call and at every stack depth, then replayed calls against fresh answers", "every line of pycep, and of the parsing library for a core of calls, times the kinds of exception; every number of free frames below 100"),
    "C24": (GEN + " with faults inserted at every place, whose position the model knows", "all documents of the catalogue times all gaps, faults, trivia and edits stated; distances up to 10000 lines or columns (100000 in the thorough tier)"),
    "C25": (GEN + ", renderings compared with the written tokens and with each other", "the documents of the other models within their bounds; all pairs of some 680 documents that differ in little"),
}
have = [c for c in C if os.path.exists(os.path.join(ROOT, "mc", "checks", c.lower() + ".py"))]
json.dump({
    "version": 1,
    "setup_cmd": "test -x /opt/venv/bin/python -o -n \"$(command -v python3)\"",
    "checks": [{
        "property": c,
        "quick_cmd": f"VERIF_TIER=quick ./run {c}",
        "thorough_cmd": f"VERIF_TIER=thorough ./run {c}",
        "evidence_file": f"evidence/{c}.json",
        "technique": "model checking: " + C[c][0],
        "level": "model_checking",
        "level_note": "Exhaustive within the bounds written in DESIGN.md and the evidence file: " + C[c][1] +
                      ". Says nothing about tokens outside the alphabets or sizes beyond the ladders; trusts CPython and the reference model in mc/.",
    } for c in have],
    "not_applicable": [{"property": c, "reason": "check not built yet"} for c in C if c not in have],
    "notes": "No hooks: the checks drive the unmodified code of /repo. Environment VERIF_BUDGET_S caps one check's wall time, VERIF_NPROC its workers.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
