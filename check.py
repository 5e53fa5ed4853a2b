#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1: a line
VIOLATION property=<id> replay=<path> for each violation.  Exit 2: the check
itself could not run."""
import argparse, importlib, json, os, sys, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
sys.path.insert(0, os.path.join(V, "checks"))
import framework, tlc, build


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    mod = importlib.import_module(a.prop.lower())
    ctx = framework.Ctx(a.prop, a.tier, a.seed)
    try:
        if a.replay:
            r = json.load(open(a.replay))
            mod.kinds(ctx)
            k = ctx.kinds[r["kind"]]
            inp = r["input"]
            if isinstance(inp, dict) and "__in" in inp:
                ctx.expect(k, [(inp["__in"], inp["__expected"])])
            else:
                ctx.validate(k, [inp])
        else:
            ctx.bins
            mod.run(ctx)
        rc = framework.finish(ctx, mod.META)
    except (tlc.TlcError, framework.SpecFailure, build.BuildError) as e:
        print("ERROR (no verdict): %s: %s" % (type(e).__name__, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


main()
