"""C06: discouraged statements.
marks:    every wrapping of the marks in a comment, and near misses: what SHOW DISCOURAGED,
          PROVE, ASSIGN, SAVE NEW_PROOF and MATCH make of it.
twins:    every set of marked statements x every sequence of commands: without override
          the session ends in the proof it ends in when the marked statements do not exist,
          with /OVERRIDE or SET DISCOURAGEMENT OFF in the one it ends in when nothing is
          marked.
proofs:   every marking x way into the Proof Assistant x way of saving: is the proof in
          the database replaced?"""
import itertools, re
import mm, pa
LEVEL = "model_checking"

USE, PRF = "(New usage is discouraged.)", "(Proof modification is discouraged.)"
GAPS = [" ", "\n", "\n   ", "  ", "\t", " \n"]

def spellings(mark, gaps=GAPS):
    w = mark.split(" ")
    for g in itertools.product(gaps, repeat=len(w) - 1):
        yield "".join(a + b for a, b in itertools.zip_longest(w, g, fillvalue=""))

def near():
    """comments without the mark"""
    for m in (USE, PRF):
        yield m[1:-1]; yield m.replace(".", ""); yield m.lower(); yield m.upper(); yield m.replace(" ", ""); yield m.replace(" is", " was")
        yield m.replace("(", "[").replace(")", "]"); yield "( " + m[1:]; yield m[:-1] + " )"; yield m.replace(".)", " .)"); yield m[:-1]
        w = m.split(" ")
        yield " ".join(w[:2] + w[1:]); yield " ".join([w[0]] + w[2:]); yield " ".join(w[:-1]) + "-" + w[-1]

def comments(deep):
    """[(comments before the label, usage marked, proof marked)]"""
    r = [("", False, False), ("$( plain $)", False, False)]
    for m, u in ((USE, True), (PRF, False)):
        for s in spellings(m):
            r.append(("$( A text. %s $)" % s, u, not u))
        for s in spellings(m, GAPS if deep else GAPS[:3]):
            r.append(("$(%s$)" % s, u, not u))
            r.append(("$( before\n%s\nafter (Contributed by X, 1-Jan-2020.) $)" % s, u, not u))
    r += [("$( %s $)" % s, False, False) for s in near()]
    for a, b in itertools.product(GAPS, repeat=2):
        r.append(("$( Both. %s%s%s%s$)" % (USE, a, PRF, b), True, True)); r.append(("$( Both.%s%s and%s%s $)" % (a, PRF, b, USE), True, True))
    for m, u in ((USE, True), (PRF, False)):
        r.append(("$( %s $) $( another comment $)" % m, False, False))
        r.append(("$( one comment $)\n$( %s $)" % m, u, not u))
        r.append(("$( %s $)  $( %s $)" % (USE, PRF), False, True))
        r.append(("$( word%s(more) $)" % m, u, not u)); r.append(("$( ` $ ` %s [X] ~ a $)" % m, u, not u))
    return r

HEAD = "$c |- w $. $v x y $. fx $f w x $. fy $f w y $. base $a |- x $.\n"
def mark_db(cs):
    t = HEAD
    for i, (cm, u, p) in enumerate(cs): t += "%s\ns%d $p |- x $= %s $.\n" % (cm, i, "fx base" if i % 2 else "fx %s" % ("s%d" % (i - 1) if i else "base"))
    return t + "t $p |- y $= ? $.\n"

def mark_job(cs):
    d = mark_db(cs); n = len(cs)
    setup = ["set width 9999", "read a.mm"]
    cmds = ["show discouraged"]
    for i in range(n): cmds += ["prove s%d" % i, "assign 1 base", "exit/force"] if False else []
    r = mm.sess(setup + cmds + ["exit"], {"a.mm": d}, timeout=60)
    parts = mm.split_out(r.out)[2:]
    vs = []
    case = lambda i: dict(kind="marks", cs=[cs[i]])
    got = parts[2].strip().split("\n")
    want = []
    for i, (cm, u, p) in enumerate(cs):
        if p: want.append('SHOW DISCOURAGED:  Proof modification of "s%d" is discouraged (2 steps).' % i)
        if u:
            users = ["s%d" % (i + 1)] if i % 2 == 1 and i + 1 < n else []
            want.append('SHOW DISCOURAGED:  New usage of "s%d" is discouraged (%d uses).' % (i, len(users)))
            want += ['SHOW DISCOURAGED:  "s%d" is used by "%s".' % (i, x) for x in users]
    if got != want:
        for i in range(n):
            g = [x for x in got if re.search(r'of "s%d"' % i, x)]; w = [x for x in want if re.search(r'of "s%d"' % i, x)]
            if g != w: vs.append(("marks", "SHOW DISCOURAGED lists %s for the comment %r" % (g, cs[i][0]), case(i))); break
        else: vs.append(("marks", "SHOW DISCOURAGED shows\n%s\ninstead of\n%s" % ("\n".join(got)[:300], "\n".join(want)[:300]), dict(kind="marks", cs=cs)))
        return n, vs
    # is the theorem blocked, and its use?
    lines = []; pos = []
    for i in range(n):
        lines += ["prove s%d" % i, "_exit_pa/force", "prove t", "assign 1 s%d/no_unify" % i, "show new_proof/all", "_exit_pa/force"]
    r = mm.sess(setup + lines + ["exit/force"], {"a.mm": d}, timeout=100)
    parts = mm.split_out(r.out)[4:]
    for i, (cm, u, p) in enumerate(cs):
        a, _, _, b, l, _ = parts[6 * i:6 * i + 6]
        blocked = "Entering the Proof Assistant" not in a
        if blocked != p: vs.append(("prove", "PROVE of a theorem with the comment %r is %s" % (cm, "refused" if blocked else "not refused"), case(i))); break
        taken = "s%d " % i in l
        if taken == u: vs.append(("assign", "ASSIGN of a statement with the comment %r is %s" % (cm, "not refused" if taken else "refused"), case(i))); break
    return 3 * n, vs

# ---------------------------------------------------------------- twins
SYS = """$c w |- O F G , $. $v x y $. fx $f w x $. fy $f w y $.
o $a w O $. <f>f $a w F x $. <g>g $a w G x $. <gg>gg $a w G x $. p $a w , x y $.
<a>a $a |- O $.
${ up.1 $e |- x $. <up>up $a |- F x $. $}
${ gp.1 $e |- F x $. <gp>gp $a |- G x $. $}
${ cn.1 $e |- x $. cn.2 $e |- y $. <cn>cn $a |- , x y $. $}
${ dn.1 $e |- F x $. <dn>dn $a |- x $. $}
${ th.1 $e |- F G O $. th $a |- G O $. $}
<fo>fo $p |- F O $= o a up $.
${ u2.1 $e |- x $. <u2>u2 $p |- F F x $= fx f fx u2.1 up up $. $}
${ ug.1 $e |- x $. <ug>ug $p |- G x $= fx fx ug.1 up gp $. $}
<rf>rf $p |- , F O G O $= o f o g o o a up o o a up gp cn $.
"""
STMTS = ["f", "g", "gg", "a", "up", "gp", "cn", "fo", "u2", "ug", "rf"]
# the syntax statements cannot be absent, as the theorem and its proofs need a reading
OMITTABLE = {
    "start": ["gg", "a", "up", "gp", "cn", "fo", "u2", "ug", "rf"],
    "full": ["gg", "fo", "u2", "ug", "rf"],
    "g": ["gg", "a", "up", "gp", "cn", "fo", "u2", "ug"],
    "two": ["gg", "fo", "ug", "u2", "dn"],
    "ground": ["gg", "dn", "gp"],
}
GOALS = {
    "start": ("|- , F O G O", "?"),
    "full": ("|- , F F O G F O", "o f f o f g o f o a up up o f o f o a up up gp cn"),
    "g": ("|- G x", "?"),
    "two": ("|- , G O F F y", "? ? ? ? cn"),
    "ground": ("|- G O", "t.2 th"),
}
USES = {"rf": {"a", "up", "gp", "cn", "f", "g"}, "fo": {"a", "up"}, "u2": {"up", "f"}, "ug": {"up", "gp"}}
LABS = ["a", "up", "gp", "cn", "fo", "u2", "ug", "rf", "gg", "g"]

def twin_db(goal, marked=(), absent=()):
    t = re.sub(r"<(\w+)>", lambda m: "$( Text. %s $)\n" % USE if m.group(1) in marked else "", SYS)
    if absent:
        # a theorem whose proof needs an absent statement stays, unproved
        out = []
        for l in t.split("\n"):
            m = re.search(r"(\w+) \$p", l)
            if m and USES[m.group(1)] & set(absent): l = re.sub(r"\$=.*?\$\.", "$= ? $.", l)
            out.append(l)
        t = "\n".join(out)
        for a in absent:
            t = re.sub(r"\$\{[^{}]*?[\s]%s \$[ap] [^{}]*\$\}\n" % a, "", t) if re.search(r"\$\{[^{}]*\s%s \$[ap]" % a, t) else re.sub(r"(^|\s)%s \$[ap] [^$]*(\$= [^$]*)?\$\." % a, r"\1", t)
    goal, pf = GOALS[goal]
    return pa.goal(t, goal, pf, "t.1 $e |- F y $. t.2 $e |- F G O $.")

def alphabet(goal, deep):
    """(command, takes /override)"""
    r = [("assign last %s", l) for l in LABS] + [("assign first %s/no_unify", l) for l in LABS[:8:3]]
    r += [("replace last %s", l) for l in LABS[:8]] + [("replace first %s", l) for l in LABS[3:8:2]]
    cs = [(a % b, True) for a, b in r]
    cs += [(x, True) for x in ("improve all", "improve all/2", "improve all/3", "improve all/3/subproofs/depth 2", "improve first/2", "improve last", "improve last/3/depth 1",
                               "improve all/no_distinct", "improve all/include_mathboxes/2")]
    cs += [(x, True) for x in ("minimize_with *", "minimize_with */may_grow", "minimize_with fo,u?", "minimize_with rf/allow_new_axioms *", "minimize_with */allow_new_axioms */verbose",
                               "minimize_with u2/allow_new_axioms */may_grow", "minimize_with dn/allow_new_axioms */may_grow")]
    cs += [("undo", False), ("delete floating_hypotheses", False), ("unify all", False), ("initialize all", False), ("delete step 1", False)]
    return cs

def norm(l): return pa.canon(l).strip("\n")

def twin_job(t):
    goal, marked, seqs = t
    al = dict(alphabet(goal, True))
    ov = lambda c: c + "/override" if al[c] else c
    show = "show new_proof/all"
    def run(db, pre, f):
        lines = ["set width 9999", "read a.mm"] + pre
        for s in seqs: lines += ["prove t"] + [f(c) for c in s] + [show, "_exit_pa/force"]
        r = mm.sess(lines + ["exit/force"], {"a.mm": db}, timeout=200)
        parts = mm.split_out(r.out)[2 + 2 + len(pre):]
        out = []; i = 0
        for s in seqs:
            n = len(s) + 3
            out.append((parts[i + 1:i + n - 2], parts[i + n - 2]) if len(parts) >= i + n else (None, r.out[-300:]))
            i += n
        return out
    m, free = twin_db(goal, marked), twin_db(goal)
    a = run(m, [], lambda c: c)
    b = run(twin_db(goal, (), marked), [], lambda c: c)
    c2 = run(m, ["set discouragement off", "set discouragement on"], lambda c: c)
    d = run(m, [], ov); e = run(m, ["set discouragement off"], lambda c: c)
    f = run(free, [], lambda c: c); g = run(free, [], ov)
    vs = []; ds = set()
    names = ["without override", "after SET DISCOURAGEMENT OFF and ON", "with /OVERRIDE", "with SET DISCOURAGEMENT OFF", "with /OVERRIDE and nothing marked"]
    for i, s in enumerate(seqs):
        case = dict(kind="twin", goal=goal, marked=list(marked), seqs=[list(s)])
        for name, got, want in zip(names, (a, c2, d, e, g), (b, b, f, f, f)):
            if got[i][0] is None or want[i][0] is None:
                vs.append(("session", "%s %s marked: %s %s: a session ends early: %s" % (goal, marked, s, name, got[i][1]), case)); break
            if norm(got[i][1]) != norm(want[i][1]):
                vs.append((name, "%s, with %s marked, %s %s leads to\n%s\ninstead of\n%s" % (goal, ", ".join(marked) or "nothing", "; ".join(s), name, got[i][1].strip("\n"), want[i][1].strip("\n")), case)); break
            dis = [x for x in marked if re.search(r"[ =]%s \$[ap]" % x, got[i][1])]
            if got in (a, c2) and dis: vs.append((name, "%s: %s %s puts %s into the proof" % (goal, s, name, dis), case)); break
        if norm(a[i][1]) != norm(d[i][1]): ds.add(mm.digest(repr((goal, marked, s))))
        if len(vs) > 2: break
    return 5 * len(seqs), ds, vs

# ---------------------------------------------------------------- proofs
def proof_jobs(deep):
    for mark in ("", "both", "t", "other"):
        for enter in ([], ["set discouragement off"], ["set discouragement off", "set discouragement on"], ["set discouragement on"]):
            for po in ("", "/override"):
                for mid in ([], ["set discouragement off"], ["set discouragement on"], ["set discouragement off", "set discouragement on"], ["undo"]):
                    for so in ("", "/override", "/compressed", "/compressed/override", "/normal", "/packed/override", "/explicit", "/override/normal"):
                        yield mark, enter, po, mid, so

def proof_job(cases):
    vs = []; n = 0; ds = set()
    for mark, enter, po, mid, so in cases:
        t = "$c |- w $. $v x $. fx $f w x $. a $a |- x $. b $p |- x $= fx a $.\n"
        if mark in ("t", "both"): t += "$( Text %s $)\n" % (PRF if mark == "t" else USE + "\n  " + PRF)
        else: t += "$( Text %s $)\n" % (USE if mark == "other" else "")
        t += "t $p |- x $= fx b $.\n"
        cmds = ["set width 9999", "read a.mm"] + enter + ["prove t" + po, "minimize_with a/may_grow", "assign 1 a"] + mid
        cmds += ["save new_proof" + so, "show new_proof/lemmon", "_exit_pa/force"]
        r = mm.sess(cmds + ["show proof t/lemmon", "write source o", "exit/force"], {"a.mm": t}, timeout=30)
        parts = mm.split_out(r.out)[2:]
        n += 1
        off = False
        for e in enter: off = e.endswith("off")
        marked = mark in ("t", "both")
        inpa = not marked or off or po == "/override"
        for e in mid:
            if e.startswith("set"): off = e.endswith("off")
        saved = inpa and (not marked or off or "/override" in so)
        case = dict(kind="proof", case=[mark, enter, po, mid, so])
        k = 2 + len(enter)
        out = mm.server().read("o") or ""
        body = out[out.rfind("t $p"):]
        changed = "undo" not in mid
        got = not re.search(r"\bfx b \$\.", body)
        entered = "Entering the Proof Assistant" in parts[k]
        what = "%s PROVE t%s %s SAVE NEW_PROOF%s, %s" % ("; ".join(enter), po, "; ".join(mid), so, "proof marked" if marked else "proof not marked")
        if r.crashed: vs.append(("crash", "%s: %s" % (what, r.out[-300:]), case)); continue
        if entered != inpa: vs.append(("prove", "%s: PROVE is %s" % (what, "accepted" if entered else "refused"), case)); continue
        if not entered: saved = False
        if not saved and got: vs.append(("save", "%s: the proof in the database is replaced" % what, case)); continue
        if saved and changed and not got: vs.append(("save", "%s: the proof is not saved: %s" % (what, body), case)); continue
        lem = parts[k + 6 + len(mid)]
        shown = " a " in " " + lem.replace(" $a", "").replace("\n", " ")
        if re.search(r"\bb\b", lem) is None and not saved: vs.append(("save", "%s: SHOW PROOF shows a new proof: %s" % (what, lem), case)); continue
        if marked: ds.add(mm.digest(repr(case)))
    return n, ds, vs

# ---------------------------------------------------------------- another database
def reread_job(cases):
    vs = []; n = 0
    dbs = {}
    for k in itertools.product((0, 1), repeat=4):
        c = lambda b, m: "$( Text %s $)\n" % (m if b else "")
        dbs[k] = HEAD + c(k[0], USE) + "r $a |- x $.\n" + c(k[1], USE) + "s $p |- x $= fx base $.\n" + c(k[2], PRF) + "t $p |- y $= ? $.\n" + c(k[3], PRF + USE) + "u $p |- y $= ? $.\n"
    def expect(k): return [k[0] or k[2], k[1] or k[2], k[2], k[3]]
    for a, b in cases:
        lines = ["set width 9999"]
        pr = ["prove t", "assign last r/no_unify", "assign last s/no_unify", "show new_proof", "_exit_pa/force", "prove u", "_exit_pa/force"]
        for k, f in ((a, "a.mm"), (b, "b.mm")): lines += ["read " + f] + pr + ["erase", "y"]
        lines += ["read b.mm", "markup a.mm o", "show discouraged"] if False else ["read b.mm", "write source o/rewrap", "show discouraged"] + pr
        r = mm.sess(lines + ["exit/force"], {"a.mm": dbs[a], "b.mm": dbs[b]}, timeout=60)
        n += 1
        case = dict(kind="reread", a=a, b=b)
        got = r.out.count("Entering the Proof Assistant")
        want = 0; bad = 0
        for k in (a, b, b): want += (not k[2]) + (not k[3]); bad += 0 if k[2] else k[0] + k[1]
        # a marked statement is refused; when the first is accepted there is nothing left to assign
        ref = sum(0 if k[2] else (k[0] + (k[1] if k[0] else 0)) for k in (a, b, b))
        gref = r.out.count("Attempt to assign a statement whose usage is discouraged")
        if got != want: vs.append(("reread", "READ of a database with marks %s, ERASE, READ of one with marks %s: %d of %d PROVE commands are accepted" % (a, b, got, want), case))
        elif gref < ref: vs.append(("reread", "READ of a database with marks %s, ERASE, READ of one with marks %s: %d of %d ASSIGN commands are refused" % (a, b, gref, ref), case))
        dis = re.findall(r'SHOW DISCOURAGED:  (Proof|New).*?"(\w)"', r.out)
        w = ([("New", "r")] if b[0] else []) + ([("New", "s")] if b[1] else []) + ([("Proof", "t")] if b[2] else []) + ([("Proof", "u"), ("New", "u")] if b[3] else [])
        if dis != w: vs.append(("reread", "SHOW DISCOURAGED after READ %s, ERASE, READ %s lists %s instead of %s" % (a, b, dis, w), case))
    return n, set(), vs

def job(t):
    k, x = t
    if k == "marks": n, vs = mark_job(x); return n, set(), vs
    return dict(twin=twin_job, proof=proof_job, reread=reread_job)[k](x)

def main(c):
    deep = c.thorough
    cs = comments(deep)
    tasks = [("marks", x) for x in mm.chunks(cs, 60)]
    for goal in GOALS:
        al = [x for x, _ in alphabet(goal, deep)]
        om = OMITTABLE[goal]
        sets = [()] + [(x,) for x in om] + [x for x in itertools.combinations(om, 2)]
        if deep: sets += list(itertools.combinations(om, 3)) + [tuple(om)]
        else: sets += [tuple(om)]
        for m in sets:
            seqs = [(x,) for x in al]
            if len(m) <= 1 or deep: seqs += list(itertools.product(al, repeat=2))
            tasks += [("twin", (goal, m, x)) for x in mm.chunks(seqs, 150)]
    tasks += [("proof", x) for x in mm.chunks(list(proof_jobs(deep)), 40)]
    ks = list(itertools.product((0, 1), repeat=4))
    tasks += [("reread", x) for x in mm.chunks([(a, b) for a in ks for b in ks], 16)]
    c.add("comments", len(cs))
    for n, ds, vs in mm.pmap(job, tasks, stop=c.enough):
        c.add("evaluations", n); c.distinct(ds)
        for v in vs: c.violation(*v)
    for t in tasks[::max(1, len(tasks) // 5)]: c.sample(repr(t)[:120])

def replay(v):
    r = v["replay"]
    k = r["kind"]
    t = dict(marks=lambda: ("marks", [tuple(x) for x in r["cs"]]), twin=lambda: ("twin", (r["goal"], tuple(r["marked"]), [tuple(x) for x in r["seqs"]])),
             proof=lambda: ("proof", [tuple(r["case"])]), reread=lambda: ("reread", [(tuple(r["a"]), tuple(r["b"]))]))[k]()
    vs = job(t)[2]
    print(vs[0][1] if vs else "holds")
    return 1 if vs else 0
