#!/usr/bin/env python3
"""check.py <property id>: exit 0 held, 1 violated (with a VIOLATION line), 2 no verdict."""
import os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, checks

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        vlib.ensure_java()
        ctx = vlib.Ctx(pid, tier, seed)
        getattr(checks, pid.lower())(ctx)
        ctx.evidence(time.time() - t0)
    except vlib.CheckError as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    for bad, path in ctx.violations:
        print("%s: %s" % (pid, bad))
    if ctx.violations:
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(ctx.violations[0][1], vlib.VERIF)))
        return 1
    print("OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (
        pid, ctx.states, ctx.transitions, ctx.traces, ctx.events, time.time() - t0))
    return 0

rc = main()
sys.stdout.flush()
os._exit(rc)
