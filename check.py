#!/usr/bin/env python3
"""check.py <property id>: decides one property of /repo's current tree.  Exit 0 / 1 / 2 (tool error)."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, report, checks


def main():
    pid = sys.argv[1]
    try:
        fn, level = checks.CHECKS[pid]
        rep = report.Report(pid, level)
        fn(rep)
        return rep.finish()
    except core.ToolError as e:
        print("tool error:", e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)
