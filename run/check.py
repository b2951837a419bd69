#!/usr/bin/env python3
"""check.py ID: decides one property.  Exit 0 held, 1 violated, 2 no verdict."""
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib  # noqa: E402
import props  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = lib.Ctx(pid, tier, seed)
    try:
        fn, level = props.CHECKS[pid]
        fn(ctx)
        ctx.evidence(level)
    except lib.CheckError as e:
        # a violation that was already established stands
        if ctx.violations:
            ctx.evidence(props.CHECKS[pid][1])
            report(ctx)
            return 1
        print("ERROR property=%s %s" % (pid, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()
    return report(ctx)


def report(ctx):
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, k))
    for s, rp in ctx.violations[:20]:
        print("  " + s[:1500])
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
    if ctx.violations:
        return 1
    print("OK property=%s %s" % (ctx.pid, {k: v for k, v in ctx.cov.items() if isinstance(v, int)}))
    return 0


if __name__ == "__main__":
    sys.exit(main())
