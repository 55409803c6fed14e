#!/usr/bin/env python3
"""run_check.py PROPERTY [--tier quick|thorough] | --all
Extracts facts from /repo's working tree, evaluates the property's rules, writes
evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines."""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import extract
import base
import rules

VERIF = os.path.dirname(HERE)


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return [k for k in json.load(open(p))["findings"]] if os.path.exists(p) else []


def evaluate(ctx, prop):
    rep = base.Report(prop)
    rep.ctx = ctx
    names = []
    for name, fn in rules.RULES.get(prop, []):
        names.append(name)
        try:
            fn(ctx, rep)
        except base.Missing as e:
            rep.bad("%s/anchor" % name, "the code this rule is anchored in exists", "", str(e))
        except Exception as e:
            if os.environ.get("AVDL_DEBUG"):
                traceback.print_exc()
            rep.bad("%s/internal" % name, "the rule can be evaluated on this tree", "", "%s: %s" % (type(e).__name__, e))
    return rep, names


def finish(rep, names, prop, tier, t0, extra):
    kf = {k["key"]: k for k in known() if k["property"] == prop}
    bad = [o for o in rep.obl if not o["ok"]]
    vio, seen = [], set()
    for o in bad:
        if o["key"] in kf:
            if o["key"] not in seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, kf[o["key"]]["what"]))
            seen.add(o["key"])
        else:
            vio.append(o)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Static analysis of the compiler's monomorphic MIR of the avdl library and binary. "
                           "Each obligation is one rule instance (a construct of the current source and what must hold of it on every path).",
            "obligations": len(rep.obl), "discharged": len(rep.obl) - len(bad),
            "functions_extracted": extra["functions"], "rules": names,
            "instances": [{"key": o["key"], "holds": o["ok"], "what": o["desc"], "where": o["where"]} for o in rep.obl][:400],
        },
        "assumptions": ["std, indexmap, serde_json, miette and antlr4rust behave as documented",
                        "the nightly compiler's MIR of this crate means what its source means",
                        "provenance through calls outside the crate is taken from a fixed table of known std functions"],
        "wall_s": round(time.time() - t0, 2), "violations": len(vio),
    }
    evd = os.environ.get("AVDL_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evd, exist_ok=True)
    json.dump(ev, open(os.path.join(evd, prop + ".json"), "w"), indent=1)
    if vio:
        rp = os.path.join(evd, prop + ".replay.txt")
        with open(rp, "w") as f:
            for o in vio:
                f.write("%s\n  rule: %s\n  at: %s\n  %s\n\n" % (o["key"], o["desc"], o["where"], o.get("detail", "")))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        for o in vio[:20]:
            print("  %s: %s\n    at %s\n    %s" % (o["key"], o["desc"], o["where"], o.get("detail", "")[:700]))
        return 1
    print("ok property=%s obligations=%d rules=%d wall=%.1fs" % (prop, len(rep.obl), len(names), time.time() - t0))
    return 0


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    t0 = time.time()
    rules.load()
    props = [args[0]] if args and args[0] != "--all" else list(rules.RULES)
    if "--facts" in args:
        d = args[args.index("--facts") + 1]
        lib, bn = os.path.join(d, "avdl-lib.json"), os.path.join(d, "avdl-bin.json")
    else:
        try:
            lib, bn = extract.extract()
        except RuntimeError as e:
            print(e)
            for p in props:
                rep = base.Report(p)
                rep.bad("extract", "the crate's facts can be extracted", "", str(e)[-500:])
                finish(rep, [], p, tier, t0, {"functions": 0})
            return 1
    ctx = base.Ctx(lib, bn)
    extra = {"functions": len(ctx.p.local_fns())}
    rc = 0
    for p in props:
        t1 = time.time() if len(props) > 1 else t0
        rep, names = evaluate(ctx, p)
        rc |= finish(rep, names, p, tier, t1, extra)
        if rc and os.environ.get("AVDL_FIRST"):
            break
    return rc


if __name__ == "__main__":
    sys.exit(main())
