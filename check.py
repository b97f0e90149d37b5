#!/usr/bin/env python3
"""Decide one property from the source of /repo.

usage: check.py --property Cxx [--tier quick|thorough] [--root /repo]

Exit 0: every obligation holds (or is listed as a known finding); exit 1: a violation, with a
VIOLATION line; exit 2: the analysis itself is broken (an anchor vanished, a crash).
"""
import argparse
import hashlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def load_known():
    """known-findings.txt: 'known: property=<id> rule=<rule> construct=<construct> | text' and 'fixed: ...' lines."""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if not os.path.exists(p):
        return out
    for line in open(p, encoding="utf-8"):
        line = line.strip()
        if line.startswith("known:"):
            head, _, text = line[len("known:"):].partition("|")
            d = {}
            for part in head.split():
                k, _, v = part.partition("=")
                d[k] = v
            d["text"] = text.strip()
            out.append(d)
    return out


def explanation(prop):
    with open(os.path.join(HERE, "MANIFEST.json")) as fh:
        for c in json.load(fh)["checks"]:
            if c["property"] == prop:
                return c["technique"] + ". " + c["level_note"]
    return "static analysis of the package source"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default="/repo")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    from sa.common import Analysis
    from sa.report import Result
    from sa.registry import RULES
    A = Analysis(a.root)
    R = Result(a.property, tier)
    try:
        RULES[a.property](A, R)
        if tier == "thorough":
            from sa import selftest
            selftest.run(a.property, A, R, a.root)
    except Exception:
        traceback.print_exc()
        R.error("the rule crashed: " + traceback.format_exc().strip().split("\n")[-1])
    if len(A.failed) > 12:
        R.error(f"{len(A.failed)} entry points could not be analysed: {A.failed[:5]}")
    known = [k for k in load_known() if k.get("property") == a.property]
    listed, fresh = [], []
    for v in R.violations:
        hit = [k for k in known if k.get("rule") == v["rule"] and k.get("construct") == v["key"]]
        (listed if hit else fresh).append((v, hit[0] if hit else None))
    # construct-level dedupe
    held = [o for o in R.obligations if o[2] == "holds"]
    und = [o for o in R.obligations if o[2] == "undecided"]
    per_rule = {}
    for o in R.obligations:
        d = per_rule.setdefault(o[0], {"holds": 0, "undecided": 0, "violated": 0})
        d[o[2]] += 1
    ev = {
        "property": a.property,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": explanation(a.property),
            "modules": len(A.prog.modules),
            "source_digest": hashlib.sha256("".join(m.source for m in A.prog.modules.values()).encode()).hexdigest()[:16],
            "functions_analysed": len(A.n_functions),
            "call_sites_evaluated": A.n_callsites,
            "abstract_runs": A.n_runs,
            "obligations": len(R.obligations),
            "discharged": len(held),
            "undecided": [f"{o[0]}: {o[1]}: {o[3]}"[:300] for o in und][:80],
            "undecided_count": len(und),
            "per_rule": per_rule,
            "samples": [f"{o[0]}: {o[1]}: {o[2]}" + (f" ({o[3]})" if o[3] else "") for o in held[:: max(1, len(held) // 25)]][:30],
            "not_analysed": A.failed,
            "notes": R.notes,
        },
        "assumptions": [
            "library calls (numpy, scikit-learn, scipy, pandas, statsmodels) behave as documented",
            "calls through names the analyser cannot resolve do not modify the package's objects",
        ],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(fresh),
    }
    tmp = os.path.join(evdir, a.property + ".json.tmp")
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True, default=str)
    os.replace(tmp, os.path.join(evdir, a.property + ".json"))
    for v, k in listed:
        print(f"KNOWN-FINDING: property={a.property} {k['text']}")
    print(f"{a.property}: {len(held)} obligations hold, {len(und)} undecided, {len(fresh)} violated "
          f"({len(A.n_functions)} functions, {ev['wall_s']} s)")
    if fresh:
        rp = os.path.join(evdir, f"{a.property}.violation.json")
        with open(rp, "w") as fh:
            json.dump([v for v, _ in fresh], fh, indent=1)
        for v, _ in fresh[:20]:
            print(f"  [{v['rule']}] {v['construct']}: {v['detail']}")
        print(f"VIOLATION property={a.property} replay={rp}")
        return 1
    if R.errors:
        for e in R.errors:
            print("ANALYSIS-BROKEN: " + e)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
