import importlib
import json
import os
import sys


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    args = sys.argv[2:]
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from . import core
    mod = importlib.import_module(f"mc.checks.{pid.lower()}")
    if "--replay" in args:
        with open(args[args.index("--replay") + 1]) as f:
            sys.exit(replay(core, mod, pid, json.load(f)))
    check = core.Check(pid, tier, seed)
    mod.run(check)
    sys.exit(check.finish())


def replay(core, mod, pid, rec):
    """Runs the recorded trace alone, twice, without the explorer."""
    fams = {f.name: f for f in mod.families(rec["tier"])} if hasattr(mod, "families") else {}
    fam = fams.get(rec["family"])
    if fam is None:
        return mod.replay(rec)
    outcomes = []
    for _ in range(2):
        found = []
        core.run_prefix(fam, rec["choices"], core.Stats(), lambda *a: found.append(a))
        outcomes.append([(a[1], a[3].message) for a in found])
    assert outcomes[0] == outcomes[1], "the trace is not deterministic"
    if outcomes[0]:
        print(f"input: {rec['input']!r}\nexpected: {rec['expected']}\nactual: {rec['actual']}")
        print(f"VIOLATION property={pid} replay=(this file)\n  {outcomes[0][0][1]}")
        return 1
    print("the trace no longer violates the property")
    return 0


if __name__ == "__main__":
    main()
