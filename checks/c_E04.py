"""E04: every format string up to a length with every combination of argument
values, and every sequence of three pushes around the buffer size, through the
public interface of the fatal error module; the text on standard error and the
exit status against a reference formatter."""
import os, subprocess
import mm
LEVEL = "exploration"

def exe():
    w = ["-Wl," + ",".join("--wrap=" + f for f in ("exit", "_exit", "_Exit", "quick_exit", "abort"))]
    return mm.compile_harness(os.path.join(mm.VERIF, "harness", "e04.c"), "e04", kind="asan", ldflags=w)

def main(c):
    mm.run_harness(c, exe(), 8, c.thorough)

def replay(v):
    r = v["replay"]
    p = subprocess.run([exe(), str(r["part"]), str(r["parts"]), str(r["deep"])], capture_output=True, text=True)
    print(p.stdout[-3000:], p.stderr[-3000:])
    return p.returncode != 0
