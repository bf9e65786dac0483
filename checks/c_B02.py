"""WRITE SOURCE reproduces the database byte for byte."""
import itertools, re
import mm, refmm, proofs

LEVEL = "exploration"

# "~" = a gap that is varied
BASE = ("~$c~w |-~( $.~$v x y~$.~fx~$f w~x $. fy $f w y $. pr $a w ( x y $.~$(~Comment (Contributed by A,~1-Jan-2020.)~$)~ax~$a~|- x~$.~"
        "${~$d~x y $.~h~$e~|- x $. h2 $e |- y $. i $a |- ( x y $.~$}~"
        "$(~First. (Contributed by B, 2-Feb-2021.)~$)~t1~$p~|-~( x x~$=~fx~fx fx ax fx ax~i~$.~"
        "${~$(~No date here.~$)~t2~$p |- (~( x x x $=~(~pr~ax i~)~AABZA~EC~ACD~$.~$}~"
        "t3~$p |- ( ( x x ( x x $= fx fx pr fx fx pr fx fx pr ax~fx fx pr ax~i $.~"
        "$(~Unknown.~$)~t4~$p |- ( x y $=~fx~?~?~?~i~$.~$(~The~end~$)~")

TH = ("t1", "t2", "t3", "t4")

SEQS = [
    [[]],
    [["save proof t1/compressed"]],
    [["save proof t2/normal"], ["save proof t3/packed", "save proof t2/compressed"]],
    [["save proof t4/explicit", "save proof t1/explicit/packed"]],
    [["save proof */compressed"], ["save proof */normal"], ["save proof */packed"]],
    [["save proof */compressed/fast"]],
    [["prove t4", "assign last ax", "assign last ax", "improve all", "save new_proof/compressed", "exit"], ["save proof t4/normal"]],
    [["prove t1", "delete all", "save new_proof/normal", "exit"]],
]
PA = {6: ("t4", ["fx", "fy", "fx", "ax", "fy", "ax", "i"]), 7: ("t1", ["?"])}

def norm(t):
    t = t.replace("\r\n", "\n").replace("\r", "\n")
    if t and not t.endswith("\n"):
        t += "\n"
    return t

def touched(seq):
    out = []
    done = set()
    for cmds in seq:
        for c in cmds:
            m = re.match(r"save proof (\S+?)/", c)
            if m:
                done |= set(TH) if m.group(1) == "*" else {m.group(1)}
            m = re.match(r"prove (\S+)", c)
            if m:
                done |= {m.group(1)}
        out.append(set(done))
    return out

CONTRIB = re.compile(r"\(Contributed\s+by\s")
DATE = r"\n *\(Contributed by \?who\?, \d{1,2}-[A-Z][a-z]{2}-\d{4}\.\) "

def compare(orig, out, saved, goal):
    """orig, out: texts; saved: theorems whose proof was saved; goal: proof
    steps by theorem"""
    a, b = proofs.spans(orig), proofs.spans(out)
    if len(a) != len(b):
        return "%d statements instead of %d" % (len(b), len(a))
    pos = 0
    db = refmm.Db(out)
    for x, y in zip(a, b):
        if x[0] != y[0] or x[1] != y[1]:
            return "statement %s %s became %s %s" % (x[0], x[1], y[0], y[1])
        g = lambda t, s: t[s[0]:s[1]] if s else None
        la, lb = g(orig, x[2]), g(out, y[2])
        if la != lb:
            k = la.rfind("$)")
            ok = False
            if x[0] in saved and k >= 0 and "?" not in goal[x[0]] and not CONTRIB.search(la[la.rfind("$("):k]):
                ok = re.fullmatch(re.escape(la[:k]) + DATE + re.escape(la[k:]), lb)
            if not ok:
                return "text before the keyword of %s changed: %r -> %r" % (x[0] or x[1], la, lb)
        elif x[0] in saved and "$)" in la and "?" not in goal[x[0]] and not CONTRIB.search(la):
            return "no contribution date was added for %s" % x[0]
        if g(orig, x[3]) != g(out, y[3]):
            return "statement %s changed: %r -> %r" % (x[0], g(orig, x[3]), g(out, y[3]))
        if x[4]:
            pa, pb = g(orig, x[4]), g(out, y[4])
            if x[0] not in saved:
                if pa != pb:
                    return "the proof of %s changed although it was not saved: %r -> %r" % (x[0], pa, pb)
            else:
                try:
                    s = proofs.flatten(db, x[0], refmm.tokens(pb))
                except refmm.RefError as e:
                    return "the proof of %s is malformed: %r: %s" % (x[0], pb, e)
                if s != goal[x[0]]:
                    return "the proof of %s is now %s instead of %s" % (x[0], s, goal[x[0]])
    return None

def case(text, si):
    seq = SEQS[si]
    cmds = ["read a.mm"]
    names = []
    for i, cs in enumerate(seq):
        cmds += cs + ["write source o%d.mm" % i]
        names.append("o%d.mm" % i)
    last = names[-1]
    cmds += ["erase", "read " + last, "write source again.mm", "verify proof *", "exit"]
    r = mm.sess(cmds, {"a.mm": text})
    if r.status != 0:
        return "status %d %s" % (r.status, r.out[-300:])
    if r.out.count("No errors were found.") != 2:
        return "READ reports an error"
    orig = norm(text)
    db = refmm.Db(orig)
    goal = {t: proofs.flatten(db, t, db.labels[t].proof) for t in TH}
    pa = PA.get(si)
    if pa:
        goal[pa[0]] = pa[1]
    srv = mm.server()
    tch = touched(seq)
    out = None
    for i, n in enumerate(names):
        out = srv.read(n)
        if out is None:
            return "no file %s" % n
        w = compare(orig, out, tch[i], goal) if tch[i] else (None if out == orig else "changed: %r -> %r" % (orig, out))
        if w:
            return "%s: %s" % (n, w)
    if srv.read("again.mm") != out:
        return "writing the written file again gives other bytes"
    return None

def job(items):
    n = 0
    d = set()
    viol = []
    for text, si in items:
        w = case(text, si)
        n += 1
        if any(touched(SEQS[si])):
            d.add(hash((text, si)))
        if w and len(viol) < 2:
            viol.append(dict(text=text, seq=si, what="%r %s: %s" % (text, SEQS[si], w)))
    return dict(n=n, d=d, viol=viol, sample=repr(items[len(items) // 2])[:400])

PARTS = BASE.split("~")
NG = len(PARTS) - 1
FILL = ["\n", "\t", "  ", "\n\n", " \n ", "\r\n", "\f", " $( c $) ", "\n$( c\n  d $)\n", "\n$( (Contributed by C, 3-Mar-2022.) $)\n", " $( x $) $( y $) "]

def text(fill):
    return "".join(p + (fill.get(i, " ") if i < NG else "") for i, p in enumerate(PARTS))

def incomment():
    out = []
    cm = False
    for i, p in enumerate(PARTS):
        for t in p.split():
            cm = t == "$(" or (cm and t != "$)")
        out.append(cm)
    return out

def gen(deep):
    inc = incomment()
    ok = lambda i, f: not (inc[i] and "$(" in f)
    full = [{}]
    for f in FILL:
        full.append({i: f for i in range(NG) if ok(i, f)})
    for fl in full:
        for s in range(len(SEQS)):
            yield text(fl), s
            yield text(fl).strip(), s
            yield text(fl).strip() + "\n", s
            yield "\n\n " + text(fl), s
    for i in range(NG):
        for f in FILL:
            if ok(i, f):
                for s in range(len(SEQS)):
                    yield text({i: f}), s
    k = 0
    two = FILL if deep else ["\n", " $( c $) ", "\t"]
    for i, j in itertools.combinations(range(NG), 2):
        for f in two:
            for g in two:
                if ok(i, f) and ok(j, g):
                    k += 1
                    yield text({i: f, j: g}), (k % len(SEQS) if not deep else k * 7 % len(SEQS))

def main(c):
    c.cov["rule"] = ("one database with %d gaps between tokens; every filler (white space, line ends, comments) in all gaps, in every single gap x every "
                     "save/write sequence, and in every pair of gaps (3 fillers in quick, all in thorough; the sequences in rotation)" % NG)
    for r in mm.pmap(job, mm.chunks(gen(c.thorough), 100), stop=c.enough):
        c.add("evaluations", r["n"]); c.distinct(r["d"])
        c.sample(r["sample"])
        for v in r["viol"]:
            c.violation(mm.digest(v["what"]), v["what"], v)
    c.cov["exhaustive"] = True

def replay(v):
    w = case(v["replay"]["text"], v["replay"]["seq"])
    print(w or "holds")
    return 1 if w else 0
