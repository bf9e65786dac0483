"""C03: every proof of a theorem up to a length (also with unknown steps) in databases
with derived rules, statements marked as discouraged, mathboxes and $d requirements;
MINIMIZE_WITH with every combination of its options on each.  The proofs before and
after are compared and checked by the reference."""
import itertools, re
import mm, refmm, pa, enum_proofs, c_C02
from refmm import RefError
LEVEL = "model_checking"

BASE = """$c w |- O F , $. $v x y $. fx $f w x $. fy $f w y $.
o $a w O $. f $a w F x $. p $a w , x y $.
"""
DIS = "$( A statement.  (New usage is discouraged.) $)\n"
BOX = """$( Mathboxes $)
mathbox $a w O $.
%s$( #*#*#
  Mathbox for Ann
  #*#*# $)
$( ann $)
m1 $p |- F F F O $= o f a0 ax2 $.
${ m2.1 $e |- x $. m2 $p |- F F x $= fx f fx m2.1 up up $. $}
$( #*#*#
  Mathbox for Bob
  #*#*# $)
$( bob $)
n1 $p |- F F F O $= o f a0 ax2 $.
${ n2.1 $e |- x $. n2 $p |- F F x $= fx f fx n2.1 up up $. $}
"""
RULES = """a0 $a |- O $.
${ up.1 $e |- x $. up $a |- F x $. $}
${ dn.1 $e |- F x $. dn $a |- x $. $}
"""
THMS = """${ ax2.1 $e |- O $. ax2 $a |- F F x $. $}
%(d1)sup2 $p |- F F O $= o f o a0 up up $.
${ id.1 $e |- x $. id $p |- x $= fx id.1 $. $}
${ u2.1 $e |- x $. u2 $p |- F F x $= fx f fx u2.1 up up $. $}
%(d2)s ax3 $a |- F F F O $.
t3 $p |- F F O $= o f f ax3 dn $.
t4 $p |- F F F O $= o f a0 ax2 $.
q $p |- F O $= ? $.
"""
THMS = THMS.replace("%(d2)s ", "%(d2)s")
DV = """${ $d x y $. dv.1 $e |- , x y $. dv $a |- y $. $}
${ db.1 $e |- , x y $. db $p |- F y $= fy fx fy db.1 cd up $. $}
"""
# name: database up to the theorem, hypotheses etc., statement, proof alphabet, steps quick, thorough
def worlds():
    r = {}
    th = THMS % dict(d1="", d2="")
    r["rules"] = (BASE + RULES + th, "", "|- F F F O", 12, 16)
    r["hyp"] = (BASE + RULES + th, "h.1 $e |- F y $.", "|- F F F y", 11, 15)
    r["dis"] = (BASE + RULES + THMS % dict(d1=DIS, d2=DIS), "", "|- F F F O", 11, 15)
    for k, mid in (("box", ""), ("box0", "between $p |- F F F O $= o f a0 ax2 $.\n")):
        r[k] = (BASE + RULES + "${ ax2.1 $e |- O $. ax2 $a |- F F x $. $}\n" + BOX % mid, "", "|- F F F O", 11, 15)
    r["btw"] = (BASE + RULES + "${ ax2.1 $e |- O $. ax2 $a |- F F x $. $}\nmathbox $a w O $.\nbtw $p |- F F F O $= o f a0 ax2 $.\n", "", "|- F F F O", 11, 15)
    pre = BASE + """${ up.1 $e |- x $. up $a |- F x $. $}
${ cd.1 $e |- , x y $. cd $a |- y $. $}
${ $d x y $. ce.1 $e |- , x y $. ce $a |- F y $. $}
"""
    for i, d in enumerate(("", "$d x y $. ")):
        r["dv%d" % i] = (pre, "%sh.1 $e |- , x y $. h.2 $e |- , F O y $. h.3 $e |- , y y $." % d, "|- F y", 9, 13)
        r["dw%d" % i] = (pre, "%sh.1 $e |- , x y $. h.2 $e |- , y F y $. " % d, "|- F F y", 11, 15)
    return r
WORLDS = worlds()
OPTS = {
    "rules": ["", "/may_grow", "/verbose", "/allow_new_axioms *", "/allow_new_axioms ax2", "/allow_new_axioms */no_new_axioms_from ax2", "/allow_new_axioms */no_new_axioms_from ax*",
              "/allow_new_axioms */forbid ax2", "/allow_new_axioms */forbid up", "/allow_new_axioms */except t4", "/allow_new_axioms */except u*,up2", "/forbid t4/except id",
              "/allow_new_axioms */may_grow/except id", "/allow_new_axioms ax3,a0/may_grow", "/allow_new_axioms */forbid ax3/verbose", "/no_new_axioms_from ax*", "/override"],
    "hyp": ["", "/may_grow", "/allow_new_axioms *", "/allow_new_axioms */may_grow", "/allow_new_axioms */forbid ax*", "/except u2"],
    "dis": ["", "/override", "/allow_new_axioms *", "/allow_new_axioms */override", "/allow_new_axioms */may_grow", "/allow_new_axioms */override/forbid ax3"],
    "box": ["", "/include_mathboxes", "/allow_new_axioms *", "/allow_new_axioms */include_mathboxes", "/include_mathboxes/may_grow"],
    "dv": ["", "/may_grow", "/allow_new_axioms *", "/verbose/allow_new_axioms *", "/allow_new_axioms */may_grow"],
}
def opts(w): return OPTS[re.sub(r"[0-9]+$", "", w)] if re.sub(r"[0-9]+$", "", w) in OPTS else OPTS["box"]
def matches(w):
    """label patterns to minimize with"""
    db = refmm.Db(pa.goal(*[WORLDS[w][i] for i in (0, 2)], "?", WORLDS[w][1]))
    ls = [l for l in db.order if db.labels[l].kind in ("$a", "$p") and l != "t"]
    return ["*"] + (["u*,t*", "?2", "up~t3"] if w in ("rules", "dis") else []) + [l for l in ls if db.labels[l].math[0] == "|-"]

def database(w, proof="?"):
    pre, hyps, goal, _, _ = WORLDS[w]
    return pa.goal(pre, goal, proof, hyps)

_X = {}
def ctx(w):
    if w not in _X:
        db = refmm.Db(database(w))
        dis = set(l for l in db.order if re.search(r"New usage is discouraged\.\) \$\)\s*(\$\{ \S+ \$e [^$]*\$\. )?%s \$[ap]" % re.escape(l), WORLDS[w][0]))
        box, cur = {}, None
        for l in db.order:
            if l == "m1": cur = "Ann"
            if l == "n1": cur = "Bob"
            box[l] = cur
        _X[w] = (db, dis, box)
    return _X[w]

_T = {}
def trace(w, db, l):
    """the statements the proof of l uses as essential steps, with itself"""
    if (w, l) in _T: return _T[w, l]
    x = db.labels[l]; r = {l}
    if x.kind == "$p": r |= traces(w, db, x.proof)
    _T[w, l] = r
    return r

def essential(db, seq):
    """labels of the essential steps of a proof in RPN ('?' leaves nothing to use)"""
    st = []; ess = []
    nodes = []
    for l in seq:
        k = 0 if l == "?" or db.labels[l].kind in ("$e", "$f") else len(db.labels[l].mand)
        kids = st[len(st) - k:] if k else []
        if k: del st[len(st) - k:]
        nodes.append((l, kids)); st.append(len(nodes) - 1)
    out = []
    def rec(i):
        l, kids = nodes[i]
        out.append(l)
        if kids:
            for h, j in zip(db.labels[l].mand, kids):
                if db.labels[h].kind == "$e": rec(j)
    rec(len(nodes) - 1)
    return out

def traces(w, db, seq):
    r = set()
    for l in essential(db, seq):
        if l != "?" and db.labels[l].kind in ("$a", "$p"): r |= trace(w, db, l)
    return r

def lmatch(db, pat, l):
    for p in pat.split(","):
        if "~" in p:
            a, b = p.split("~")
            if db.labels[a].no <= db.labels[l].no <= db.labels[b].no: return True
        elif re.fullmatch("".join(".*" if c == "*" else "." if c == "?" else re.escape(c) for c in p), l): return True
    return False

def arg(o, name):
    m = re.search(name + r" (\S+?)(?=/|$)", o)
    return m and m.group(1)

def allowed(w, db, pat, o, before):
    """labels that may come into the proof"""
    _, dis, box = ctx(w)
    used = set(l for l in traces(w, db, before) if db.labels[l].kind == "$a")
    ex, al, no, fo = (arg(o, n) for n in ("/except", "/allow_new_axioms", "/no_new_axioms_from", "/forbid"))
    mine = "Bob" if "n1" in db.labels else None
    first = db.labels["mathbox"].no if "mathbox" in db.labels else None
    r = set()
    for l in db.order:
        x = db.labels[l]
        if x.kind not in ("$a", "$p") or l == "t" or not lmatch(db, pat, l): continue
        if ex and lmatch(db, ex, l): continue
        if l in dis and "/override" not in o: continue
        if mine and "/include_mathboxes" not in o and x.no >= first and box[l] != mine: continue
        tr = trace(w, db, l)
        if fo and any(lmatch(db, fo, k) for k in tr): continue
        new = [k for k in tr if db.labels[k].kind == "$a" and k not in used]
        if any(not (al and lmatch(db, al, k)) or (no and lmatch(db, no, k)) for k in new): continue
        r.add(l)
    return r

def judge(w, pat, o, before, after, rep, comp0, comp1):
    """before/after: steps of the listings"""
    db = ctx(w)[0]
    b, a = [s[2] for s in before], [s[2] for s in after]
    changed = a != b
    if "?BUG CHECK" in rep.upper(): return "internal bug: %s" % rep
    try: unk, uni = c_C02.consistent(db, "t", after)
    except (RefError, ValueError) as e: return "leaves a wrong proof %s: %s" % (" ".join(a), e)
    if a.count("?") > b.count("?"): return "adds unknown steps: %s" % " ".join(a)
    if not c_C02.dvbad(db, "t", before):
        d = c_C02.dvbad(db, "t", after)
        if d: return "leaves a $d violation: %s" % sorted(d)
    if not unk and uni and len(c_C02.dvbad(db, "t", after)) == 0:
        d2 = refmm.Db(database(w, " ".join(a)))
        try: d2.verify("t")
        except RefError as e: return "leaves a proof that does not verify: %s: %s" % (" ".join(a), e)
    told = set(re.findall(r'using "(\S+)"\.', rep))
    new = set(a) - set(b)
    if "?" in new: new.discard("?")
    hyp = set(l for l in new if db.labels[l].kind in ("$e", "$f"))
    ok = allowed(w, db, pat, o, b)
    # floating steps may be supplied by whatever proves them
    bad = [l for l in new - hyp if db.labels[l].math[0] == "|-" and l not in ok]
    if bad: return "brings in %s, which the options exclude" % sorted(bad)
    cnt = lambda l, s: s.count(l)
    if not changed:
        if "No shorter proof was found" not in rep and "The proof was not changed" not in rep and "?No earlier" not in rep and not ("/may_grow" in o and told):
            return "does not say that nothing was changed: %s" % rep.strip()[-200:]
    else:
        if "not changed" in rep or "No shorter" in rep or "?No earlier" in rep: return "changes the proof and says it does not"
        if not new - hyp <= told | set(l for l in new if db.labels[l].math[0] != "|-"): return "brings in %s but names %s" % (sorted(new), sorted(told))
        if "/may_grow" not in o:
            n0, n1 = len(b), len(a)
            if comp1 > comp0 or comp1 == comp0 and n1 >= n0: return "makes the proof longer: %d bytes, %d steps; before %d bytes, %d steps" % (comp1, n1, comp0, n0)
            m = re.findall(r"decreased from (\d+) to (\d+) bytes|stayed at (\d+) bytes", rep)
            pas = rep.split("Scanning backward")
            for x in pas[:2]:
                cur = comp0
                for p, q, z in re.findall(r"decreased from (\d+) to (\d+) bytes|stayed at (\d+) bytes", x):
                    if int(p or z) != cur: return "reports a size of %s bytes where it is %d" % (p or z, cur)
                    cur = int(q or z)
                ends = ends + [cur] if x is not pas[0] else [cur]
            if comp1 != min(ends): return "reports %s bytes for a result of %d bytes" % (ends, comp1)
    return None

def proofs(w, deep):
    """every proof of the goal up to the length, and with one unknown essential step"""
    pre, hyps, goal, nq, nt = WORLDS[w]
    db, st = enum_proofs.context(pre, hyps)
    g = goal.split()
    out = []
    labs = [l for l in db.order if db.labels[l].kind in ("$a", "$p") and l not in ("mathbox",) or l in st.hyps]
    # backward: all ways to prove an expression within a budget, with subexpressions from the goal's universe
    return sorted(set(search(db, st, g, nt if deep else nq, labs)))

def wffs():
    base = [("O",), ("x",), ("y",)]
    s = set(base)
    for _ in range(4): s |= set(("F",) + e for e in s)
    s |= set((",",) + a + b for a in (("O",), ("F", "O"), ("x",), ("y",), ("F", "y")) for b in (("y",),))
    return s

def search(db, st, goal, n, labs):
    U = [("w",) + e for e in wffs()]
    memo = {}
    def prove(e, n):
        """sequences of length <= n proving e, each with at most one unknown"""
        k = (e, n)
        if k in memo: return memo[k]
        r = set()
        memo[k] = r
        if n < 1: return r
        if e[0] == "|-": r.add(("?",))
        for l in labs:
            x = db.labels[l]
            if x.kind in ("$e", "$f"):
                if tuple(x.math) == e: r.add((l,))
                continue
            for sub in unify(db, x, e, U):
                hs = [tuple(sum((list(sub.get(y, (y,))) for y in db.labels[h].math), [])) for h in x.mand]
                if any(h[0] == "|-" and len(h) > 7 for h in hs): continue
                seqs = [()]
                for i, h in enumerate(hs):
                    rest = len(hs) - i - 1
                    seqs = [s + q for s in seqs for q in prove(h, n - 1 - len(s) - rest) if s.count("?") + q.count("?") < 2]
                    if not seqs: break
                for s in seqs: r.add(s + (l,))
        if e[0] == "w": r2 = set(sorted(r, key=len)[:1]); memo[k] = r2; return r2
        memo[k] = r
        return r
    return [s for s in prove(tuple(goal), n) if s != ("?",)]

def unify(db, x, e, U):
    """substitutions for all mandatory variables of x that make its formula e"""
    vs = [db.labels[h].math[1] for h in x.mand if db.labels[h].kind == "$f"]
    pat = list(x.math)
    if pat[0] != e[0]: return
    def m(i, j, sub):
        if i == len(pat):
            if j == len(e): yield dict(sub)
            return
        s = pat[i]
        if s in vs:
            if s in sub:
                k = j + len(sub[s])
                if e[j:k] == sub[s]: yield from m(i + 1, k, sub)
            else:
                for k in range(j + 1, len(e) + 1):
                    if ("w",) + e[j:k] in Uset: yield from m(i + 1, k, {**sub, s: e[j:k]})
        elif j < len(e) and e[j] == s: yield from m(i + 1, j + 1, sub)
    Uset = set(U)
    for sub in m(1, 1, {}):
        free = [v for v in vs if v not in sub]
        for c in itertools.product([u[1:] for u in U if len(u) <= 4], repeat=len(free)): yield {**sub, **dict(zip(free, c))}

def size(text):
    """bytes of the compressed proof on one line"""
    m = re.search(r"(\( .*?)\s*\$\.", text, re.S)
    t = " ".join(m.group(1).split())
    i = t.index(")")
    return len(t[:i + 1]) + 1 + len(t[i + 1:].replace(" ", ""))

SHOWC = "show new_proof/compressed"
def job(t):
    w, pf, cases = t
    d = database(w, " ".join(pf))
    cmds = ["set width 9999", "read a.mm", "prove t", "show new_proof/all", SHOWC]
    for pat, o in cases: cmds += ["minimize_with %s%s" % (pat, o), "show new_proof/all", SHOWC, "undo", "show new_proof/all"]
    r = mm.sess(cmds + ["exit/force", "exit/force"], {"a.mm": d}, timeout=100)
    parts = mm.split_out(r.out)[2:]
    case = lambda c: dict(w=w, pf=pf, cases=c)
    if r.crashed or len(parts) < len(cmds):
        return 0, set(), [("crash", "%s: a session ends early: %s" % (w, r.out[-400:]), case(cases))]
    before = pa.steps(parts[3])
    if [s[2] for s in before] != list(pf): return 0, set(), [("start", "%s: the proof %s is shown as %s" % (w, pf, [s[2] for s in before]), case([]))]
    comp0 = size(parts[4])
    vs = []; ds = set(); n = 0
    for i, (pat, o) in enumerate(cases):
        rep, l1, c1, un, l2 = parts[5 + 5 * i:10 + 5 * i]
        n += 1
        after = pa.steps(l1)
        x = judge(w, pat, o, before, after, rep, comp0, size(c1))
        ch = [s[2] for s in after] != list(pf)
        if not x and ch and l2.strip("\n") != parts[3].strip("\n"): x = "cannot be undone"
        if x:
            vs.append((w + o, "%s, proof %s: MINIMIZE_WITH %s%s %s" % (w, " ".join(pf), pat, o, x), case([(pat, o)])))
            break
        if not ch and "Nothing to undo" not in un and l2.strip("\n") != parts[3].strip("\n"): 
            vs.append((w + o, "%s, proof %s: MINIMIZE_WITH %s%s changes nothing but UNDO does" % (w, " ".join(pf), pat, o), case([(pat, o)])))
            break
        if ch: ds.add(mm.digest(repr((w, pf, pat, o))))
    return n, ds, vs

def main(c):
    tasks = []
    for w in WORLDS:
        ps = proofs(w, c.thorough)
        cs = [(p, o) for p in matches(w) for o in opts(w)]
        c.add("proofs", len(ps))
        for p in ps: tasks.append((w, p, cs))
    for n, ds, vs in mm.pmap(job, tasks, stop=c.enough):
        c.add("evaluations", n); c.distinct(ds)
        for v in vs: c.violation(*v)
    for t in tasks[::max(1, len(tasks) // 6)]: c.sample("%s: %s" % (t[0], " ".join(t[1])))

def replay(v):
    r = v["replay"]
    vs = job((r["w"], tuple(r["pf"]), [tuple(x) for x in r["cases"]]))[2]
    print(vs[0][1] if vs else "holds")
    return 1 if vs else 0
