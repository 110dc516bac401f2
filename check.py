#!/usr/bin/env python3
"""check.py <property id> [--replay DIR]: decides one property on /repo's working tree."""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from dv import common  # noqa: E402


def replay(pid, d):
    case = json.load(open(os.path.join(d, "case.json")))
    m = importlib.import_module("dv.checks." + case["kind"])
    common.dredd_bin()
    data = common.read(os.path.join(d, case["source"])) if "source" in case else None
    r = m.pred_for(case, case.get("lang"))(data)
    print("reproduced: %s" % r if r else "not reproduced")
    if r:
        print("VIOLATION property=%s replay=%s" % (pid, d))
    return 1 if r else 0


def main():
    pid = sys.argv[1].upper()
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            return replay(pid, sys.argv[3])
        common.dredd_bin()
        return importlib.import_module("dv.checks." + pid.lower()).main()
    except common.CheckError as e:
        print("ERROR: the check could not run: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
