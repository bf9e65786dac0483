#!/usr/bin/env python3
"""run.py ID            run the check of one property (VERIF_TIER=quick|thorough)
   run.py ID --replay F  replay one recorded violation"""
import sys, os, json, importlib, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
sys.dont_write_bytecode = True
def main():
    if "--thorough" in sys.argv:
        sys.argv.remove("--thorough"); os.environ["VERIF_TIER"] = "thorough"
    import mm
    pid = sys.argv[1]
    mod = importlib.import_module("c_" + pid)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return mod.replay(json.load(open(sys.argv[3])))
    c = mm.Check(pid, mod.LEVEL)
    mm.build("plain")
    try:
        mod.main(c)
    except (mm.Unreadable,) + mm.READ_ERRORS as e:
        # a reply that cannot be read at all is a wrong reply
        c.violation("unreadable-reply", "a reply of the program cannot be interpreted: %s" % e, dict(trace=traceback.format_exc()))
    return c.finish()
if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
