"""Disjoint-variable restrictions are enforced exactly."""
import itertools, json, copy
import mm, refmm, verdict

LEVEL = "exploration"

CONS = """$c w s |- + , $.
$v x y z a b c d $.
vx $f s x $. vy $f s y $. vz $f s z $.
wa $f s a $. wb $f s b $. wc $f s c $. wd $f s d $.
n0 $a s + $.
${ j $a s x y $. $}
"""
# proof of "s <expr>": variables v<..>/w.., "+" = constant, concatenation = j
FL = {"a": "wa", "b": "wb", "c": "wc", "d": "wd", "x": "vx", "y": "vy", "z": "vz", "+": "n0"}
def pf(e):
    r = [FL[e[0]]]
    for s in e[1:]:
        r += [FL[s], "j"]
    return r

def pairs(vs):
    return list(itertools.combinations(vs, 2))
def subsets(ps):
    for k in range(len(ps) + 1):
        yield from itertools.combinations(ps, k)
def dtext(ps):
    return "".join("$d %s %s $. " % p for p in ps)

def ax(name, ps):
    return "${ %s%s $a |- x , y , z $. $}\n" % (dtext(ps), name)

def thm(n, dpre, stmt, proof, dpost=""):
    """dpre placed before the theorem in its own block"""
    return "${ %st%d $p %s $= %s $. %s$}\n" % (dpre, n, stmt, proof, dpost)

def run(text, n):
    """n: number of theorems t0.. or list of labels -> (reference verdicts, program verdicts | str)"""
    db = refmm.Db(text)
    ref = []
    labs = ["t%d" % i for i in range(n)] if isinstance(n, int) else n
    for l in labs:
        try:
            db.verify(l); ref.append("ok")
        except refmm.RefError:
            ref.append("err")
    r = mm.sess(["read a.mm", "verify proof *", "exit"], {"a.mm": text}, timeout=30)
    if r.status != 0:
        return ref, "status %d" % r.status
    o = mm.split_out(r.out)
    if len(o) < 4 or "No errors were found" not in o[2]:
        return ref, "READ rejected a well-formed database"
    v, _ = verdict.verify_verdicts(o[3], labs)
    return ref, [v[l] for l in labs]

def job(j):
    pre, blocks = j[0], j[1]
    text = pre + "".join(b.replace("@", str(i)) for i, b in enumerate(blocks))
    if len(j) > 2:   # several theorems per block
        labs = ["t%d%s" % (i, "abcdef"[k]) for i in range(len(blocks)) for k in range(j[2][i])]
        ref, got = run(text, labs)
        viol = []
        if isinstance(got, str):
            viol.append(dict(text=text, n=labs, what=got))
        else:
            for l, a, b in zip(labs, ref, got):
                if (a == "ok") != (b == "ok"):
                    one = pre + blocks[int(l[1:-1])].replace("@", "0")
                    viol.append(dict(text=one, n=["t0" + l[-1]], what="%s %s -- reference %s, program %s" % (one[len(pre):], l[-1], a, b)))
                    if len(viol) > 2: break
        return dict(n=len(labs), ok=ref.count("ok"), err=ref.count("err"), viol=viol,
                    nt={hash(pre + b) for b in blocks if "$d" in b}, sample=blocks[len(blocks) // 2].strip())
    ref, got = run(text, len(blocks))
    viol = []
    if isinstance(got, str):
        viol.append(dict(text=text, n=len(blocks), what=got))
    else:
        for i, (a, b) in enumerate(zip(ref, got)):
            if (a == "ok") != (b == "ok"):
                one = pre + blocks[i].replace("@", "0")
                ra, rb = run(one, 1)
                if isinstance(rb, str) or (ra[0] == "ok") != (rb[0] == "ok"):
                    viol.append(dict(text=one, n=1, what="%s -- reference %s, program %s" % (
                        blocks[i].strip(), ra, rb)))
                else:
                    viol.append(dict(text=text, n=len(blocks), what="%s (in a batch) -- reference %s, program %s" % (
                        blocks[i].strip(), a, b)))
                if len(viol) > 2:
                    break
    return dict(n=len(blocks), ok=ref.count("ok"), err=ref.count("err"), viol=viol,
                nt={hash(pre + b) for b in blocks if "$d" in pre + b}, sample=blocks[len(blocks) // 2].strip())

def comp(label, mand, es):
    """compressed proof applying `label` to es (mandatory hyps `mand`)"""
    steps = sum((pf(e) for e in es), []) + [label]
    tab = list(mand)
    for s in steps:
        if s not in tab:
            tab.append(s)
    return "( %s ) %s" % (" ".join(tab[len(mand):]), "".join(refmm.encode_number(tab.index(s) + 1) for s in steps))

def mandof(stmt):
    return [f for v, f in zip("xyzabcd", ["vx", "vy", "vz", "wa", "wb", "wc", "wd"]) if v in stmt.split()]

def jobs(thorough):
    A3 = list(subsets(pairs("xyz")))
    pre = CONS + "".join(ax("q%d" % i, ps) for i, ps in enumerate(A3))
    # --- 1. axiom restriction set x substitutions x theorem restriction set
    def gen1():
        ab = "abc"
        exprs = ["+"] + list(ab) + ["".join(t) for t in itertools.product(ab, repeat=2)] + ["a+b", "+c"]
        third = exprs if thorough else ["+", "a", "b", "c", "ab", "bc", "cc"]
        T = list(subsets(pairs(ab)))
        for qi in range(len(A3)):
            for e in itertools.product(exprs, exprs, third):
                st = "|- %s , %s , %s" % tuple(" ".join(x) for x in e)
                p = sum((pf(x) for x in e), []) + ["q%d" % qi]
                for t in T:
                    yield thm(0, dtext(t), st, " ".join(p)).replace("t0 ", "t@ ")
    # --- 2. four variables, longer expressions, one restricted pair, compressed
    def gen2():
        ab = "abcd"
        exprs = ["".join(t) for k in (1, 2, 3) for t in itertools.combinations(ab, k)] + ["ba", "dca", "d+a", "aab"]
        for e in itertools.product(exprs, exprs):
            es = (e[0], e[1], "+")
            st = "|- %s , %s , %s" % tuple(" ".join(x) for x in es)
            need = sorted(set(tuple(sorted((m, n))) for m in e[0] for n in e[1] if m != n and m != "+" and n != "+"))
            allp = pairs(ab)
            sets = set()
            for t in subsets(allp) if thorough else [allp, ()] + [tuple(p for p in allp if p != m) for m in allp] + [need] + [tuple(p for p in need if p != m) for m in need]:
                sets.add(tuple(t))
            for t in sorted(sets):
                yield thm(0, dtext(t), st, comp("q1", mandof(st), es)).replace("t0 ", "t@ ")
                # the restriction written with the variables the other way round
                yield thm(0, dtext(tuple((y, x) for x, y in t)), st,
                          " ".join(sum((pf(x) for x in es), []) + ["q1"])).replace("t0 ", "t@ ")
    # --- 3. grouping, order, duplication and placement of the theorem's $d
    def gen3():
        forms = []
        for k in (2, 3, 4):
            for p in itertools.permutations("abcd", k):
                forms.append("$d %s $." % " ".join(p))
        forms2 = ["$d a b $.", "$d b a $.", "$d b c $.", "$d a c $.", "$d c a b $.", "$d a b c d $.", "$d d a $.", "$d x a $.", "$d x y a b $."]
        places = ["${ %s t@ $p S $= P $. $}\n",
                  "${ ${ %s $} t@ $p S $= P $. $}\n",
                  "${ ${ t@ $p S $= P $. $} %s $}\n",
                  "${ %s ${ t@ $p S $= P $. $} $}\n",
                  "${ ${ ${ $d a b $. $} %s ${ $d a x $. t@ $p S $= P $. $} $} $}\n",
                  "${ t@ $p S $= P $. %s $}\n",
                  "${ %s h1 $e |- a , b , c $. t@ $p S $= P $. $}\n".replace("h1", "h1@"),
                  "${ h1@ $e |- d , d , d $. %s t@ $p S $= P $. $}\n"]
        uses = [("a", "b", "c"), ("ab", "c", "d"), ("a", "b", "b"), ("d", "abc", "+"), ("a", "c", "bd"), ("ba", "dc", "+")]
        dd = forms + [a + " " + b for a in forms2 for b in forms2] + [a + " " + b + " " + c for a in forms2[:6] for b in forms2[:6] for c in forms2[:6]]
        for d in dd:
            for k, pl in enumerate(places):
                for e in uses:
                    st = "|- %s , %s , %s" % tuple(" ".join(x) for x in e)
                    for q in (1, 3, 7):
                        p = " ".join(sum((pf(x) for x in e), []) + ["q%d" % q])
                        yield (pl % d).replace("S", st).replace("P", p)
    # --- 4. dummy variables and two-step proofs; restrictions on non-mandatory variables
    pre4 = CONS + """${ $d x y $. m1 $a |- x , y $. $}
${ $d x y $. e4 $e |- x , y $. m2 $a |- + $. $}
${ e5 $e |- x , y $. $d x z $. m3 $a |- x $. $}
${ $d z y $. $d z x $. m4 $a |- x , y $. $}
${ $d x y z $. e6 $e |- x $. e7 $e |- y , x $. m5 $a |- y $. $}
m6 $a |- x $.
m7 $a |- x , y $.
m9 $a |- x , y , z $.
${ $d y z $. e8 $e |- x , y , z $. m8 $a |- x , y $. $}
${ $d x y $. $d z x $. ea $e |- x , y , z $. ma $a |- x $. $}
"""
    def gen4():
        ab = "abc"
        sp = lambda s: " ".join(s)
        ex = ["+", "a", "b", "c", "ab", "ca"] if not thorough else ["+", "a", "b", "c", "ab", "bc", "ca", "a+"]
        for e in itertools.product(ex, ex, ex):
            X = sum((pf(x) for x in e), [])
            for st, p in (("|- %s , %s" % (sp(e[0]), sp(e[1])), X + X + ["m9", "m8"]), ("|- %s" % sp(e[0]), X + X + ["m9", "ma"])):
                for t in subsets(pairs(ab)):
                    yield thm(0, dtext(t), st, " ".join(p)).replace("t0 ", "t@ ")
        ex = ["+", "a", "b", "c", "ab", "bc", "ca", "a+"]
        for e in itertools.product(ex, ex):
            sp = lambda s: " ".join(s)
            P = lambda *es: pf(es[0]) + (pf(es[1]) if len(es) > 1 else [])
            for t in subsets(pairs(ab)):
                for t2 in ((), (("a", "x"),), (("x", "y"),)):
                    d = dtext(t + t2)
                    X = P(*e)
                    B = [("|- +", X + X + ["m7", "m2"]), ("|- +", X + X + ["m1", "m2"]),
                         ("|- %s" % sp(e[0]), X + X + ["m7", "m3"]), ("|- %s , %s" % (sp(e[0]), sp(e[1])), X + ["m4"]),
                         ("|- %s , %s" % (sp(e[0]), sp(e[1])), X + ["m1"]),
                         ("|- %s" % sp(e[1]), X + pf(e[0]) + ["m6"] + pf(e[1]) + pf(e[0]) + ["m7", "m5"])]
                    for st, p in B:
                        yield thm(0, d, st, " ".join(p)).replace("t0 ", "t@ ")
    # --- 5. grouping / placement of the axiom's own $d
    def gen5():
        forms = ["", "$d x y $.", "$d y x $.", "$d x y z $.", "$d z y x $.", "$d x z $. $d y z $.", "$d x y $. $d x y $.",
                 "$d x y $. $d y z x $.", "$d x a $.", "$d x a y $.", "$d a b $.", "$d z a b y $.", "$d y z $. $d x y $."]
        forms += ["$d %s $." % " ".join(p) for p in itertools.permutations("xyza", 3)]
        places = ["${ %s r $a |- x , y , z $. $}", "${ ${ %s $} r $a |- x , y , z $. $}", "${ %s ${ r $a |- x , y , z $. $} $}",
                  "${ r $a |- x , y , z $. %s $}", "${ ${ $d x z $. $} %s ${ $d a z $. r $a |- x , y , z $. $} $}",
                  "${ %s r $a |- z , y , x $. $}"]
        vals = [("a", "b", "c"), ("a", "a", "b"), ("a", "b", "a"), ("b", "a", "a"), ("ab", "c", "+")]
        for f in forms:
            for pl in places:
                p0 = CONS + pl % f + "\n"
                bl = []
                for e in vals:
                    p = " ".join(sum((pf(x) for x in e), []) + ["r"])
                    st3 = tuple(" ".join(x) for x in (e if "z , y , x" not in pl else e[::-1]))
                    for t in subsets(pairs("abc")):
                        bl.append(thm(0, dtext(t), "|- %s , %s , %s" % st3, p).replace("t0 ", "t@ "))
                yield p0, bl
    # --- 6. every block structure: scripts over { ${ $} $d.. } with all pairs probed after each word
    def gen6():
        words = ["${", "$}", "$d a b $.", "$d b c $.", "$d c b a $."] + (["$d a x $. $d c a $."] if thorough else [])
        L = 6
        probes = [("|- %s , %s , +" % (p, q), " ".join(pf(p) + pf(q) + pf("+") + ["q1"])) for p, q in (("a", "b"), ("b", "c"), ("c", "a"))]
        def rec(s, depth):
            if s:
                yield s, depth
            if len(s) < L:
                for w in words:
                    if w == "$}" and not depth:
                        continue
                    if w == "$}" and s[-1] == "${":
                        continue
                    yield from rec(s + [w], depth + (w == "${") - (w == "$}"))
        for s, depth in rec([], 0):
            if s[-1].startswith("${") or (len(s) < L and s[-1] != "$}"):
                continue
            # probe only where something was closed or at the end (the prefixes are cases of their own)
            out = []; k = 0
            for i, w in enumerate(s):
                out.append(w)
                if i == len(s) - 1 or (w == "$}" and i == len(s) - 2):
                    for st, p in probes:
                        out.append("t@%s $p %s $= %s $." % ("abcdef"[k], st, p)); k += 1
            yield "${ " + " ".join(out) + " $}" * (depth + 1) + "\n", k
    # --- 7. many variables, many pairs (the lists of active pairs grow)
    def gen7():
        for n in (5, 14, 15, 16, 21, 30) if not thorough else range(3, 40):
            vs = ["k%d" % i for i in range(n)]
            p0 = CONS.replace("$v x y z a b c d $.", "$v x y z a b c d $. $v %s $." % " ".join(vs)) + "".join("fk%d $f s k%d $.\n" % (i, i) for i in range(n)) + ax("q1", [("x", "y")])
            for form in (0, 1, 2):
                if form == 0: d = "$d %s $." % " ".join(vs)
                elif form == 1: d = " ".join("$d %s %s $." % p for p in pairs(vs))
                else: d = "${ $d %s $. $} " % " ".join(vs) + " ".join("$d %s %s $." % p for p in pairs(vs)[:-1])
                bl = []
                for i, j in [(0, 1), (1, 0), (0, n - 1), (n - 2, n - 1), (n - 1, n - 2), (n // 2, n - 1), (1, n // 2)]:
                    bl.append("${ %s t@ $p |- k%d , k%d , + $= fk%d fk%d n0 q1 $. $}\n" % (d, i, j, i, j))
                    bl.append("${ %s ${ $d k0 k1 $. t@ $p |- k%d , k%d , + $= fk%d fk%d n0 q1 $. $} $}\n" % (d, i, j, i, j))
                yield p0, bl
    for c in mm.chunks(gen6(), 300):
        yield pre, [b for b, k in c], [k for b, k in c]
    yield from gen7()
    for c in mm.chunks(gen1(), 600):
        yield pre, c
    for c in mm.chunks(gen2(), 600):
        yield pre, c
    for c in mm.chunks(gen3(), 600):
        yield pre, c
    for c in mm.chunks(gen4(), 600):
        yield pre4, c
    yield from gen5()

def main(c):
    c.cov["rule"] = ("used-assertion restriction sets x substitutions x theorem restriction sets, placements and "
                     "groupings; each case is one distinct (theorem block, proof)")
    for r in mm.pmap(job, jobs(c.thorough), stop=c.enough):
        c.add("evaluations", r["n"]); c.distinct(r["nt"])
        c.add("reference_accepts", r["ok"]); c.add("reference_rejects", r["err"])
        c.sample(r["sample"])
        for v in r["viol"]:
            c.violation(mm.digest(v["text"]), v["what"], v)
    c.cov["exhaustive"] = True

def replay(v):
    v = v["replay"]
    ref, got = run(v["text"], v["n"])
    print("reference", ref); print("program  ", got)
    return 1 if isinstance(got, str) or any((a == "ok") != (b == "ok") for a, b in zip(ref, got)) else 0
