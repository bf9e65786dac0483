"""E02: every call of the string functions with strings over small alphabets up to
a length and positions beyond both ends, and every sequence of operations on
strings, temporary results and nested scopes up to a depth, against reference
functions written from the documentation in mmvstr.h; in the real library,
compiled with address checking."""
import os, subprocess
import mm
LEVEL = "exploration"

def exe():
    return mm.compile_harness(os.path.join(mm.VERIF, "harness", "e02.c"), "e02", kind="asan")

def main(c):
    mm.run_harness(c, exe(), 16, c.thorough)

def replay(v):
    r = v["replay"]
    p = subprocess.run([exe(), str(r["part"]), str(r["parts"]), str(r["deep"])], capture_output=True, text=True)
    print(p.stdout[-3000:], p.stderr[-3000:])
    return p.returncode != 0
