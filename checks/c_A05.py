"""Every assertion's frame is computed as specified."""
import itertools, re
import mm, refmm

LEVEL = "exploration"

def sortpair(p):
    return tuple(sorted(p))

def reference(text):
    """{label: frame} for the assertions"""
    db = refmm.Db()
    out = {}
    orig = db.frame
    toks = []
    lines = {}
    for ln, l in enumerate(text.split("\n"), 1):
        for t in l.split():
            toks.append(t)
            if t not in lines:
                lines[t] = ln
    pink = [0]
    def frame(st, math):
        orig(st, math)
        pink[0] += 1
        req = []
        vs = set()
        for m in [math] + [db.labels[e].math for e in db.act("e")]:
            vs |= set(s for s in m if db.isvar(s))
        mand = [(h, " ".join(db.labels[h].math)) for h in st.mand]
        act = [v for sc in db.scopes for v in sc["v"]]
        f = dict(kind=st.kind, math=" ".join(math), mand=mand, dv=sorted(sortpair(p) for p in st.dv),
                 vars=sorted(vs), line=lines[st.label], pink=pink[0],
                 no=sum(db.counts.values()))
        # SHOW STATEMENT without /FULL merges the pairs into groups
        f["brief"] = (f["dv"], [(h, m) for h, m in mand if db.labels[h].kind == "$e"], st.kind, f["math"])
        if st.kind == "$p":
            f["opt"] = [h for h in st.hyps if h not in st.mand and db.labels[h].kind == "$f"]
            f["optdv"] = sorted(sortpair(p) for p in st.alld - st.dv)
            f["addvars"] = sorted(set(act) - vs)
        out[st.label] = f
    db.frame = frame
    db.parse(toks)
    return out

PAIR = re.compile(r"<([^,<>]+),([^<>]+)>")
def parse_show(txt):
    out = {}
    for blk in re.split(r"^Statement (?=\d+ is located)", txt, flags=re.M)[1:]:
        m = re.match(r'(\d+) is located on line (\d+) of the file "a.mm"\.(?:\s+Its\s+statement\s+number\s+for\s+HTML\s+pages\s+is\s+(\d+)\.)?', blk)
        k = re.search(r"^(\d+) (\S+) (\$[apfe]) (.*?) (?:\$= \.\.\. )?\$\.$", blk, re.M)
        if k.group(3) in ("$f", "$e"):
            continue
        f = dict(kind=k.group(3), math=k.group(4), line=int(m.group(2)), pink=int(m.group(3) or 0), no=int(k.group(1)))
        f["mand"] = [(a, b) for a, b in re.findall(r"^  (\S+) \$[fe] (.*) \$\.$", blk, re.M)]
        def line(pat):
            x = re.search(pat + r"(.*)$", blk, re.M)
            return x.group(1) if x else None
        x = line("Its mandatory disjoint variable pairs? (?:is|are):\\s+")
        f["dv"] = sorted(sortpair(p) for p in PAIR.findall(x or ""))
        x = line(r"The statement and its hypotheses require the variables?:\s+")
        f["vars"] = sorted((x or "").replace("(None)", "").split())
        if f["kind"] == "$p":
            x = line(r"Its optional hypothes[ei]s (?:is|are):\s+")
            f["opt"] = (x or "").split()
            x = line("Its optional disjoint variable pairs? (?:is|are):\\s+")
            f["optdv"] = sorted(sortpair(p) for p in PAIR.findall(x or ""))
            x = line(r"Th(?:is|ese) additional variables? (?:is|are) allowed in its proof:\s+")
            f["addvars"] = sorted((x or "").replace("(None)", "").split())
        out[k.group(2)] = f
    return out

def parse_brief(txt):
    out = {}
    for blk in re.split(r"^-{60,}$", txt, flags=re.M):
        lines = [l for l in blk.split("\n") if l.strip()]
        dv = set()
        bad = None
        if lines and lines[0].strip().startswith("$d"):
            for g in re.findall(r"\$d (.*?) \$\.", lines.pop(0)):
                g = g.split()
                if len(set(g)) != len(g) or len(g) < 2:
                    bad = "group $d %s" % " ".join(g)
                dv |= {sortpair(q) for q in itertools.combinations(g, 2)}
        rows = [re.match(r"(\d+) (\S+) (\$[ape]) (.*?) ?(?:\$= \.\.\. )?\$\.$", l) for l in lines]
        if not rows or not all(rows) or bad:
            return None, "SHOW STATEMENT shows %r %s" % (blk, bad or "")
        out[rows[-1].group(2)] = (sorted(dv), [(m.group(2), m.group(4)) for m in rows[:-1]], rows[-1].group(3), rows[-1].group(4))
    return out, None

def program(text):
    r = mm.sess(["set width 9000", "read a.mm", "show statement * /full", "set width 2000", "show statement *", "exit"], {"a.mm": text})
    if r.status != 0:
        return "status %d" % r.status
    o = mm.split_out(r.out)
    if "No errors were found." not in o[3]:
        return "READ rejects: " + o[3][-300:]
    f = parse_show(o[4])
    if f:
        b, e = parse_brief(o[6])
        if e:
            return e
        for l in set(f) | set(b):
            f.setdefault(l, dict(kind="not in SHOW STATEMENT /FULL"))["brief"] = b.get(l)
    if re.search(r"^ *\$d ", o[4], re.M):
        return "SHOW STATEMENT /FULL shows $d statements"
    return f

def case(text):
    a = reference(text)
    b = program(text)
    if a == b:
        return True, len(a), ""
    if isinstance(b, str):
        return False, len(a), b
    for l in sorted(set(a) | set(b)):
        if a.get(l) != b.get(l):
            x, y = a.get(l), b.get(l)
            d = {k: (x[k], y.get(k)) for k in x if x[k] != y.get(k)} if x and y else (x, y)
            return False, len(a), "%s: (reference, program) %s" % (l, d)

def job(texts):
    n = na = 0
    viol = []
    d = set()
    for t in texts:
        good, k, why = case(t)
        n += 1; na += k
        if k:
            d.add(hash(t))
        if not good and len(viol) < 3:
            viol.append(dict(text=t, what="%s: %s" % (t, why)))
    return dict(n=n, na=na, d=d, viol=viol, sample=texts[len(texts) // 2])

PRE = "$c c d |- $.\n$v x y z $.\n"
A = ["@ $f c x $.", "@ $f c y $.", "@ $f c z $.", "@ $e |- x $.", "@ $e |- z y $.", "@ $a |- y $.", "@ $a |- $.", "@ $a |- x z $.",
     "$d x y $.", "$d z y $.", "$d z x y $.", "${", "$}"]
B = ["$v w $.\n@ $f c w $.", "$v w $.\n@ $f d w $.", "@ $e |- w x $.", "@ $a |- w $.", "$d w x $.", "@ $a |- $.", "@ $p |- w y $= ? $.",
     "${", "$}", "@ $f c y $."]

def number(seq):
    out = []
    for i, s in enumerate(seq):
        out.append(s.replace("@", "l%d" % i))
    return "\n".join(out)

def walk(pre, alpha, depth, tail):
    """all well-formed sequences of exactly `depth` statements (their prefixes
    are judged with them), with `tail` theorems added before every closing"""
    def ok(t):
        n = t.split().count("${") - t.split().count("$}")
        if n < 0:
            return None
        try:
            refmm.Db(t + " $}" * n)
        except refmm.RefError:
            return None
        return n
    front = [()]
    for k in range(depth):
        nxt = []
        for s in front:
            for a in alpha:
                if s and a[:2] == "$d" and s[-1] == a or (a == "$}" and s and s[-1] == "${"):
                    continue
                q = s + (a,)
                if ok(pre + number(q)) is not None:
                    nxt.append(q)
        front = nxt
    for s in front:
        t = pre + number(s)
        n = t.split().count("${") - t.split().count("$}")
        for j in range(n + 1):
            for i, x in enumerate(tail):
                c = "\np%d%d $p %s $= ? $." % (j, i, x)
                if ok(t + c) is not None:
                    t += c
            if j < n:
                t += "\n$}"
        yield t + "\n"

def sizes():
    for n in list(range(1, 12)) + [28, 29, 30, 31, 32, 33, 59, 60, 61, 99, 100, 101, 102, 130, 131, 132, 230]:
        v = ["v%d" % i for i in range(n)]
        d = "$c c |- $.\n$v %s w1 w2 $.\n" % " ".join(v)
        fs = "".join("f%d $f c v%d $.\n" % (i, i) for i in range(n))
        fr = "".join("f%d $f c v%d $.\n" % (i, i) for i in reversed(range(n)))
        for f in (fs, fr):
            yield d + f + "la $a |- %s $.\n" % " ".join(v) + "lb $a |- %s $.\n" % " ".join(v[::2]) + "lc $p |- %s $= ? $.\n" % " ".join(v[1::2])
            yield d + f + "${\n" + "".join("e%d $e |- v%d $.\n" % (i, (i * 7) % n) for i in range(n)) + "lb $a |- $.\nq $p |- v0 $= ? $.\n$}\nr $p |- v0 $= ? $.\n"
            yield d + "g $f c w1 $.\n" + "".join("f%d $f c v%d $.\ne%d $e |- v%d $.\n" % (i, i, i, i // 2) for i in range(n)) + "b $p |- w1 $= ? $.\nb2 $p |- $= ? $.\n"
        if n <= 33:
            yield d + fs + "${\n$d %s $.\nb $a |- %s $.\nq $p |- v0 $= ? $.\n$}\nr $p |- v0 $= ? $.\n" % (" ".join(v + ["w1"]), " ".join(v))
            yield d + fs + "".join("${\n$d v%d w1 $.\n" % i for i in range(n)) + "h $e |- %s $.\nb $a |- v0 $.\n" % " ".join(v) + "".join("$}\nb%d $p |- v0 $= ? $.\n" % i for i in range(n))

def distincts(deep):
    """every sequence of two or three $d statements, in one block and in nested ones"""
    def ds(vs):
        return [q for k in range(2, len(vs) + 1) for q in itertools.permutations(vs, k)]
    seqs = list(itertools.product(ds("xyz"), repeat=2)) + list(itertools.product(ds("xyz"), repeat=3)) + list(itertools.product(ds("xyzw"), repeat=2))
    if deep:
        seqs += list(itertools.product(ds("xyzw"), ds("xyz"), ds("xyzw")))
    T = [" ".join(t) for k in range(5) for t in itertools.combinations("xyzw", k)]
    def block(i, q):
        d = ["$d %s $." % " ".join(v) for v in q]
        a = lambda j, k: "a%d.%d $a |- %s $.\n" % (i, j, T[-1 - k])
        th = lambda j, k: "p%d.%d $p |- %s $= ? $.\n" % (i, j, T[k])
        k = i % len(T)
        if i % 2:
            return "${\n" + " ".join(d) + "\n" + a(0, 0) + th(1, k) + "$}\n"
        return "${\n" + d[0] + "\n${\n" + " ".join(d[1:]) + "\n" + a(0, 0) + th(1, k) + "$}\n" + th(2, -1) + d[-1] + "\n" + th(3, -1) + "$}\n"
    blocks = [f(x) for x in seqs for f in (lambda x: (0, x), lambda x: (1, x))]
    for j in range(0, len(blocks), 40):
        t = "$c c |- $.\n$v w z x y $.\nfx $f c x $.\nfy $f c y $.\nfz $f c z $.\nfw $f c w $.\n"
        for i, (odd, q) in enumerate(blocks[j:j + 40]):
            t += block(2 * (i + j) + odd, q)
        yield t

def main(c):
    c.cov["rule"] = ("every well-formed sequence of statements of the stated length over two alphabets (scopes, $f/$e/$d/$a/$v in every "
                     "order), with theorems added at every closing; plus table sizes. Every assertion's whole frame is compared; all texts are distinct")
    D = (6, 7) if c.thorough else (5, 5)
    def gen():
        yield from walk(PRE, A, D[0], ["|-", "|- x", "|- y", "|- z y"])
        yield from walk(PRE + "fx $f c x $.\n", B, D[1], ["|-", "|- x", "|- w", "|- y"])
        yield from walk(PRE + "fx $f c x $.\nfz $f d z $.\nfy $f c y $.\n", A[3:], D[0], ["|-", "|- x", "|- x y"])
        yield from sizes()
        yield from distincts(c.thorough)
    for r in mm.pmap(job, mm.chunks(gen(), 200), stop=c.enough):
        c.add("evaluations", r["n"]); c.distinct(r["d"]); c.add("assertions_compared", r["na"])
        c.sample(r["sample"])
        for v in r["viol"]:
            c.violation(mm.digest(v["text"]), v["what"], v)
    c.cov["exhaustive"] = True

def replay(v):
    g, n, why = case(v["replay"]["text"])
    print("agree" if g else why)
    return 0 if g else 1
