#!/usr/bin/env python3
"""Decide one property of /repo/punx by static analysis:  check.py C19 [--tier quick|thorough]

Exit 0: the property holds on everything analysed.  Exit 1 and a line
"VIOLATION property=<id> replay=<path>": it does not.  Exit 2: no verdict.
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

LEVEL = "other"


def place(exc):
    """the function that was being analysed, and how it was reached"""
    tb, stack = exc.__traceback__, []
    while tb is not None:
        f = tb.tb_frame.f_locals.get("f")
        if tb.tb_frame.f_code.co_name == "inline" and hasattr(f, "where"):
            stack.append(f.where())
        tb = tb.tb_next
    return (stack[-1] if stack else None), " > ".join(stack)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER") or "quick")
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    from punxcheck.core import TooLarge
    from punxcheck.program import REPO, AnalysisBroken
    from punxcheck.report import Report, known_findings
    from punxcheck.rules import RULES, Context

    if pid not in RULES:
        print("no such property:", pid)
        return 2
    mod, fn = RULES[pid]
    out = os.environ.get("PUNX_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(out, exist_ok=True)
    rep = Report(pid)
    try:
        f = getattr(importlib.import_module("punxcheck.rules." + mod), fn)
        ctx = Context(a.tier)
        f(ctx, rep)
        if not rep.bad:
            for what in rep.short:  # what the property is about is not there any more
                rep.unshown(what)
        if rep.count == 0:
            raise AnalysisBroken("no obligation was found")
    except AnalysisBroken as exc:
        if not rep.bad:
            print("ANALYSIS-BROKEN property=%s %s" % (pid, exc))
            return 2
    except TooLarge as exc:
        if not rep.bad:
            where, chain = place(exc)
            rep.unshown("%s, so the property is not shown" % exc, where, chain)
    except Exception:
        if not rep.bad:
            traceback.print_exc(file=sys.stdout)
            print("ANALYSIS-BROKEN property=%s internal error" % pid)
            return 2
    known = known_findings(pid)
    seen, bad = [], []
    for o in rep.bad:
        if o.key() in known:
            seen.append(o)
        else:
            bad.append(o)
    for o in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[o.key()]))
    print("property %s, tier %s, source %s" % (pid, a.tier, REPO))
    for k, v in rep.rules.items():
        print("rule %s: %s" % (k, v))
    for n in rep.notes:
        print("  " + n)
    print("analysed: %d functions, %d guarded events; obligations: %d, discharged: %d" % (
        len(rep.functions), rep.events, rep.count, rep.count - len(rep.bad)))
    replay = os.path.join(out, pid + ".violation.txt")
    if os.path.exists(replay):
        os.remove(replay)
    if bad:
        with open(replay, "w") as fp:
            fp.write("property %s is violated by the source in %s\n" % (pid, REPO))
            fp.write("re-run: python3 /verif/check.py %s --tier %s\n\n" % (pid, a.tier))
            for o in bad:
                fp.write(o.text() + "\n  rule: " + rep.rules[o.rule] + "\n\n")
        for o in bad[:8]:
            print("violated: " + o.text()[:4000])
        if len(bad) > 8:
            print("... and %d more" % (len(bad) - 8))
    ev = {
        "property": pid,
        "tier": a.tier,
        "seed": int(os.environ.get("VERIF_SEED") or 1),
        "level": LEVEL,
        "coverage": {
            "explanation": "Static analysis of the source of punx (gated value-flow over the resolved program, nothing is run). "
            + " ".join("%s: %s." % kv for kv in rep.rules.items()),
            "rule": list(rep.rules),
            "functions_analysed": sorted(rep.functions),
            "guarded_events": rep.events,
            "obligations": rep.count,
            "discharged": rep.count - len(rep.bad),
            "instances": rep.notes,
            "samples": rep.samples[:40] or ["none discharged"],
        },
        "assumptions": ctx.assumptions(),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(bad),
    }
    with open(os.path.join(out, pid + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    if bad:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
