"""An interrupted or failed write never loses the previous contents.

Every scenario is one session of the real program with its file operations
(open for writing, each write, close, rename, remove) intercepted.  For every
operation index and every fault kind (the operation fails; it and all later
ones fail; the process dies before it; the process dies half way through it)
the directory left behind is inspected, and after a death a second, undisturbed
session is run on it and the directory is inspected again."""
import itertools, re
import mm

LEVEL = "fault_enumeration"

MM = '''$( $t
htmldef "|-" as "|- ";
htmldef "x" as "<I>x</I>";
htmldef "c" as "c ";
latexdef "|-" as "vdash";
latexdef "x" as "x";
latexdef "c" as "c";
htmltitle "T";
htmlhome "<A HREF='mmset.html'><IMG SRC='x.gif'>H</A>";
htmlbibliography "mmbib.html";
$)
$c |- c $. $v x $. fx $f c x $.
$( Axiom 1 of [Foo] p. 2. (Contributed by NM, 1-Jan-2020.) $)
ax $a |- x $.
$( Theorem 2. (Contributed by NM, 1-Jan-2020.) $)
th $p |- x $= fx ax $.
'''
MM2 = MM.replace(" fx ax $.", "\n  ( ax ) AB $.")
MM3 = MM.replace(" fx ax $.", "\n  fx ax $.")
INC = "$c |- c $.\n$[ b.mm $]\n$[ d.mm $]\nth $p |- x $= fx ax $.\n"
INCB = "$v x $. fx $f c x $.\n"
INCD = "ax $a |- x $.\nax2 $a |- x x $.\n"
INCSPLIT = "$c |- c $.\n$[ b.mm $]\n$[ d.mm $]\nth $p |- x $=\n  ( ax ) AB $.\n"
BIB = "<HTML>\n<A NAME=\"Foo\"></A>\n<!-- #START# -->\nold\n<!-- #END# -->\ntail\n"
REC = "x\n<!-- #START# -->\nold\n<!-- #END# -->\ntail\n"
LINES = "b\na\nc\na\n"

def W(cmds):
    return ["read a.mm", "save proof th/compressed"] + cmds

# name: (files, commands, file replaced, other files that must survive,
#        expected new content or None, rotations, is WRITE SOURCE)
SC = {}
def sc(name, files, cmds, target, new=None, ws=False, others=None, rot=1, end=("exit",), allow_other=()):
    SC[name] = dict(files=files, cmds=cmds, target=target, new=new, ws=ws, rot=rot, others=others or {}, end=list(end), allow=allow_other)

WEND = ("exit", "n", "exit", "y")
sc("write", {"a.mm": MM, "o.mm": "OLD\n" * 40}, W(["write source o.mm"]), "o.mm", MM2, True, end=WEND)
sc("write-self", {"a.mm": MM}, W(["write source a.mm"]), "a.mm", MM2, True, end=WEND)
sc("write-twice", {"a.mm": MM}, W(["write source a.mm", "save proof th/normal", "write source a.mm"]), "a.mm", MM3, True, end=WEND, rot=2)
sc("write-rewrap", {"a.mm": MM}, W(["write source a.mm/rewrap"]), "a.mm", None, True, end=WEND)
sc("write-extract", {"a.mm": MM, "o.mm": "OLD\n" * 40}, W(["write source o.mm/extract ax"]), "o.mm", None, False)
sc("write-merge", {"a.mm": INC, "b.mm": INCB, "d.mm": INCD}, W(["write source a.mm"]), "a.mm", None, True, end=WEND, others={"b.mm": "d", "d.mm": "d"})
sc("write-merge-keep", {"a.mm": INC, "b.mm": INCB, "d.mm": INCD}, W(["write source a.mm/keep_includes"]), "a.mm", None, True, end=WEND, others={"b.mm": "k", "d.mm": "k"})
sc("write-split", {"a.mm": INC, "b.mm": INCB, "d.mm": INCD}, W(["write source a.mm/split"]), "a.mm", INCSPLIT, True, end=WEND, others={"b.mm": "k", "d.mm": "k"})
sc("write-split2", {"a.mm": INC, "b.mm": INCB, "d.mm": INCD + "t2 $p |- x $= fx ax $.\n"}, ["read a.mm", "save proof t2/compressed", "write source a.mm/split"], "d.mm",
   INCD + "t2 $p |- x $=\n  ( ax ) AB $.\n", True, end=WEND, others={"b.mm": "k", "a.mm": "w"})
sc("log", {"o.log": "OLD\n" * 9}, ["open log o.log", "help", "close log"], "o.log")
sc("log-noclose", {"o.log": "OLD\n" * 9}, ["open log o.log", "help exit"], "o.log")
sc("tex", {"a.mm": MM, "a.tex": "OLD\n" * 9}, ["read a.mm", "open tex a.tex", "show statement th/tex", "close tex"], "a.tex")
sc("html", {"a.mm": MM, "th.html": "OLD\n" * 9, "mmbib.html": BIB}, ["read a.mm", "show statement th/html"], "th.html")
sc("theorem-list", {"a.mm": MM, "mmtheorems1.html": "OLD\n" * 9, "mmbib.html": BIB}, ["read a.mm", "write theorem_list"], "mmtheorems1.html")
sc("bib", {"a.mm": MM, "mmbib.html": BIB}, ["read a.mm", "write bibliography mmbib.html"], "mmbib.html")
sc("bib-bad", {"a.mm": MM, "mmbib.html": "<HTML>\nno markers\n"}, ["read a.mm", "write bibliography mmbib.html"], "mmbib.html", "<HTML>\nno markers\n", rot=0)
sc("recent", {"a.mm": MM, "r.html": REC, "mmbib.html": BIB}, ["read a.mm", "write recent_additions r.html"], "r.html")
sc("recent-bad", {"a.mm": MM, "r.html": "no markers\n", "mmbib.html": BIB}, ["read a.mm", "write recent_additions r.html"], "r.html", "no markers\n", rot=0)
sc("markup", {"a.mm": MM, "i.html": "a ` |- x ` b\n", "o.html": "OLD\n"}, ["read a.mm", "markup i.html o.html /html /symbols"], "o.html", "a |- <I>x</I> b\n" and None)
sc("midi", {"a.mm": MM, "th.txt": "OLD\n"}, ["read a.mm", "midi th"], "th.txt")
T = lambda *a: ["tools"] + list(a) + ["exit"]
sc("t-add", {"f": LINES}, T("add f x y"), "f", "xby\nxay\nxcy\nxay\n")
sc("t-sort", {"f": LINES}, T("sort f \"\""), "f", "a\na\nb\nc\n")
sc("t-reverse", {"f": LINES}, T("reverse f"), "f", "a\nc\na\nb\n")
sc("t-unduplicate", {"f": LINES}, T("unduplicate f"), "f", "a\nb\nc\n")
sc("t-swap", {"f": "a b\nc b d\n"}, T("swap f b"), "f", None)
sc("t-copy", {"f": LINES, "g": "Q\n", "o": "OLD\n"}, T("copy f,g o"), "o", LINES + "Q\n", others={"f": "k", "g": "k"})
sc("t-parallel", {"f": LINES, "g": "Q\nR\n", "o": "OLD\n"}, T("parallel f g o -"), "o", "b-Q\na-R\nc-\na-\n", others={"f": "k", "g": "k"})
sc("t-number", {"o": "OLD\n"}, T("number o 1 4 1"), "o", "1\n2\n3\n4\n")
sc("t-seq", {"f": LINES}, T("add f x \"\"", "sort f \"\"", "reverse f"), "f", "xc\nxb\nxa\nxa\n", rot=3)

def baksets(full):
    s = [()] + [c for k in (1, 2, 3) for c in itertools.combinations((1, 2, 3), k)]
    s += [(9,), (1, 9), tuple(range(1, 9)), tuple(range(1, 10)), (1, 2, 3, 4, 6, 7, 8, 9)]
    if full:
        s = [c for k in range(0, 10) for c in itertools.combinations(range(1, 10), k)]
    return s

def bak(k):
    return "backup %d\n" % k

def rotate(ver):
    """one overwrite: ver = {k: content}, 0 = the file itself; -> dropped"""
    if 0 not in ver:
        return []
    drop = []
    g = next((k for k in range(1, 10) if k not in ver), None)
    if g is None:
        drop = [ver.pop(9)]
        g = 9
    for k in range(g, 0, -1):
        ver[k] = ver.pop(k - 1)
    return drop

def versions(d, f):
    v = {}
    for k in range(10):
        n = f if k == 0 else "%s~%d" % (f, k)
        if n in d:
            v[k] = d[n]
    return v

def check_dir(s, init, d, baks, rots):
    """S1/S2 on a directory"""
    for f in [s["target"]] + list(s["others"]):
        have = versions(d, f)
        v = versions(init, f)
        lost = []
        for _ in range(rots):
            lost += rotate(v)
            v[0] = "new"
        lost = set(lost)
        for k, c in versions(init, f).items():
            if c not in have.values() and c not in lost:
                return "S1/S2: the %s of %s is nowhere (have %s)" % ("previous contents" if k == 0 else "backup ~%d" % k, f, {a: b[:20] for a, b in have.items()})
    return None

def session(s, fault, files, clean=True):
    return mm.sess(s["cmds"] + s["end"], files, fault=fault, clean=clean)

def final(s, init, d):
    """S3: exact directory after an undisturbed run"""
    v = versions(init, s["target"])
    for _ in range(s["rot"]):
        rotate(v)
        v[0] = "?"
    have = versions(d, s["target"])
    if 0 not in have:
        return "S3: no output file"
    if s["new"] is not None and have[0] != s["new"]:
        return "S3: wrong contents %r, expected %r" % (have[0][:200], s["new"][:200])
    if s["rot"] == 0:
        return None
    if s["rot"] == 1:
        v.pop(0, None); have.pop(0)
        if have != v:
            return "S3: backups are %s, expected %s" % ({a: b[:20] for a, b in have.items()}, {a: b[:20] for a, b in v.items()})
    elif set(v) != set(have):
        return "S3: backup numbers are %s, expected %s" % (sorted(have), sorted(v))
    for f, how in s["others"].items():
        a, b = versions(init, f), versions(d, f)
        if how in "dw":
            old = a.get(0)
            rotate(a)
            if how == "w":
                a[0] = old
        if a != b:
            return "S3: %s: %s, expected %s" % (f, b, a)
    left = set(d) - set(init) - {s["target"] + "~%d" % k for k in range(1, 10)} - {f + "~%d" % k for f in s["others"] for k in range(1, 10)}
    if [x for x in left if x.startswith("zz~")]:
        return "S3: temporary file left behind: %s" % left
    return None

def asks(out):
    return "unsaved" in out.lower() or "not been" in out and "EXIT" in out

def one(name, baks, mode, op):
    """-> (violation or None, number of ops, extra run?)"""
    s = SC[name]
    init = dict(s["files"])
    for k in baks:
        init["%s~%d" % (s["target"], k)] = bak(k)
        for f, how in s["others"].items():
            if how == "d":
                init["%s~%d" % (f, k)] = "other " + bak(k)
    r = session(s, (op, mode), init)
    d = mm.server().ls()
    nops = r.log.count("\n")
    if r.status != 0 and r.status != 77:
        return "S4: the program ended with status %d: %s" % (r.status, r.out[-200:]), nops, 0
    w = check_dir(s, init, d, baks, max(1, s["rot"]))
    if w:
        return w, nops, 0
    if mode == 9:
        w = final(s, init, d)
        if s["ws"] and not w and "EXIT anyway" in r.out:
            w = "S3: EXIT asks although everything is written"
        return w, nops, 0
    hit = "FAULT" in r.log or r.status == 77
    if mode in (1, 4):
        if not hit:
            return None, nops, 0
        part = r.out[r.out.find(s["cmds"][0]):]
        if s["ws"]:
            ref = REF.get((name, baks))
            complete = all(d.get(f) == ref[f] for f in [s["target"]] + [o for o in s["others"] if s["others"][o] in "kw"])
            told = re.search(r"^\?", r.out, re.M)
            if not complete and not told:
                return "S3: the write failed without a message", nops, 0
            if not complete and "EXIT anyway" not in r.out:
                return "S3: the write failed but EXIT does not ask", nops, 0
        return None, nops, 0
    # death: now an undisturbed session on what is left
    r2 = session(s, (0, 9), {}, clean=False)
    d2 = mm.server().ls()
    if r2.status != 0:
        return "S4: the session after the interruption ended with status %d" % r2.status, nops, 1
    w = check_dir(s, init, d2, baks, s["rot"] * 2 + 2)
    if w:
        return "after the next session: " + w, nops, 1
    w = check_dir(s, d, d2, baks, s["rot"] + 2)
    if w:
        return "next session: " + w, nops, 1
    return None, nops, 1

REF = {}
def job(j):
    name, baks, deep = j
    n = runs = 0
    viol = []
    ops = set()
    w, nops, _ = one(name, baks, 9, 0)
    d = mm.server().ls()
    REF[(name, baks)] = d
    runs += 1
    if w:
        viol.append(dict(name=name, baks=list(baks), mode=9, op=0, what=w))
        return dict(n=1, runs=1, ops=nops, viol=viol)
    for op in range(1, nops + 1):
        for mode in (1, 2, 3, 4):
            w, _, x = one(name, baks, mode, op)
            n += 1; runs += 1 + x
            if w and len(viol) < 2:
                viol.append(dict(name=name, baks=list(baks), mode=mode, op=op, what=w))
    return dict(n=n, runs=runs, ops=nops, viol=viol)

def main(c):
    c.cov["rule"] = ("for every scenario (command sequence) x set of existing backups: every intercepted file operation x {it fails, it and all "
                     "later ones fail, the process dies before it, the process dies in the middle of it}, then a second session after a death")
    items = [(n, b, c.thorough) for n in SC for b in baksets(c.thorough and n in ("write", "write-split2", "t-add", "log", "bib", "recent-bad"))]
    sts = set()
    for r in mm.pmap(job, items):
        c.add("fault_points", r["n"]); c.add("evaluations", r["runs"]); c.add("file_operations", r["ops"]); c.add("distinct_nontrivial", r["n"])
        c.add("scenarios")
        for v in r["viol"]:
            v2 = dict(v)
            c.violation("%s mode%d op%d" % (v["name"], v["mode"], v["op"]), "%s, backups %s, fault kind %d at operation %d: %s" % (v["name"], v["baks"], v["mode"], v["op"], v["what"]), v2)
    for n in ("write-split2", "bib-bad", "t-seq"):
        one(n, (1, 2), 9, 0)
        r = session(SC[n], (0, 9), SC[n]["files"])
        c.sample("%s: %s" % (n, r.log.replace("\n", "; ")[:300]))
    c.cov["exhaustive"] = True
    c.assumptions = ["death of the process, not of the machine (the program never calls fsync)", "reading files does not fail",
                     "stdio buffers are shortened to 64 bytes so that more partial writes are explored"]

def replay(v):
    v = v["replay"]
    one(v["name"], tuple(v["baks"]), 9, 0)
    REF[(v["name"], tuple(v["baks"]))] = mm.server().ls()
    w, n, x = one(v["name"], tuple(v["baks"]), v["mode"], v["op"])
    print(w or "holds")
    return 1 if w else 0
