"""Setup: nothing is kept between runs; just prove the real code builds here."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import mm
mm.build("plain")
r = mm.sess(["help", "exit"])
print("build ok" if r.status == 0 else "run failed %d" % r.status)
sys.exit(0 if r.status == 0 else 1)
