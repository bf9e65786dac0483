"""A proof completed in the Proof Assistant is a correct proof."""
import itertools, re
import mm, pa, refmm, systems, verdict

LEVEL = "model_checking"

CUT = systems.PROP + """
${ a1i.1 $e |- p $. a1i $p |- ( q -> p ) $= wp wq wp wi a1i.1 wp wq ax1 mp $. $}
"""
ORD2 = systems.ORD
EXP = """$c s |- + $. $v x y z $. fx $f s x $. fy $f s y $. fz $f s z $.
pl $a s + x y $.
${ $d x y $. ax $a |- + x y $. $}
${ h $e |- + x y $. mp $a |- x $. $}
${ $d x y $. $d y z $. a $p |- x $= fx fy fx fy ax mp $. $}
${ $d x y $. b $p |- + x z $= fx fz pl fy fx fz pl fy ax mp $. $}
${ $d x z $. $v u $. fu $f s u $. $d u x $. d $p |- x $= fx fu fx fu ax mp $. $}
${ k $e |- x $. e $p |- x $= fx a $. $}
"""
WORLDS = {
    # name: (database, labels to try, strings for LET, depth quick, depth thorough)
    "mp": (pa.goal(CUT, "|- ( r -> ( q -> q ) )", "?", "h1 $e |- ( q -> q ) $.  h2 $e |- ( ( q -> q ) -> ( r -> ( q -> q ) ) ) $."),
           ["mp", "a1i", "ax1", "h1", "h2", "wi", "wq", "min", "a1i.1", "t"], ["|- ( q -> q )", "wff ( $1 -> $2 )", "|- $1"], ["q", "( q -> $3 )"], 3, 4),
    "long": (pa.goal(pa.PROP2, "|- ( r -> ( p -> ( q -> p ) ) )", pa.LONGPF),
             ["mp", "a1i", "ax1", "dup", "wp"], ["|- ( p -> ( q -> p ) )"], ["p"], 3, 4),
    "sub": (pa.goal(systems.SUB, "|- [ a , [ a , b ] ]", "?", "g1 $e |- a $. g2 $e |- b $. g3 $e |- [ [ a , b ] , [ a , b ] ] $."),
            ["r1", "r2", "g1", "g2", "g3", "u2", "ta", "tb", "h1"], ["|- [ $1 , a ]", "|- [ a , $9 ]"], ["a", "[ a , b ]", "[ $1 , $2 ]"], 3, 4),
    "miu": (pa.goal(systems.MIU, "|- M I U I U", "?"),
            ["ax", "I_", "II", "wM", "wI", "we2", "we", "wx"], ["|- M $1", "|- $1 $1", "wff"], ["M", "I U", "$1 $2", ""], 3, 4),
    "dv": (pa.goal(systems.DV, "|- A. x A. y y = z", "?", "$d x y $. "),
           ["ax5", "axd", "axn", "weq", "wal", "vx", "vy", "wp"], ["|- A. x $1"], ["x = y", "x"], 3, 4),
    "ord": (pa.goal(ORD2, "|- u v", "?", "h1 $e |- v u $. h2 $e |- w $."),
            ["o1", "o2", "o3", "k1", "k2", "a1", "h1", "h2", "hu", "hv", "hv2", "e1", "f1"], ["|- u $1", "|- c"], ["c", "u v"], 3, 4),
    "exp": (pa.goal(EXP, "|- + x z", "fx fz pl a", "$d x z $. "),
            ["a", "b", "d", "ax", "mp", "pl", "fy", "fz"], [], ["y", "+ x y"], 2, 4),
    "exp2": (pa.goal(EXP, "|- y", "fy fy a e", "$d y z $. $d x y $. g $e |- y $. "),
            ["a", "b", "d", "ax", "mp", "fx", "fz"], [], ["x", "z"], 2, 4),
    "sco": (pa.goal(systems.SCO, "|- f f x", "?"),
            ["s1", "s2", "s3", "s4", "s5", "s6", "xA", "xB", "xA2", "yB", "ls"], ["|- f $1"], ["x", "f x"], 3, 4),
}

def step_trees(db, st, ls):
    """list of (hyp step indices) per step, from the RPN of the listing"""
    stack, kids = [], []
    for i, s in enumerate(ls):
        src = s[2]
        k = 0
        if src != "?":
            if src not in db.labels:
                raise refmm.RefError("step %d uses the unknown label %s" % (i + 1, src))
            x = db.labels[src]
            if x.no >= st.no:
                raise refmm.RefError("step %d uses %s, which does not come before the theorem" % (i + 1, src))
            if x.kind in ("$e", "$f"):
                if src not in st.hyps:
                    raise refmm.RefError("step %d uses the inactive hypothesis %s" % (i + 1, src))
            else:
                k = len(x.mand)
        if len(stack) < k:
            raise refmm.RefError("stack underflow at step %d" % (i + 1))
        kids.append(stack[len(stack) - k:] if k else [])
        del stack[len(stack) - k:]
        stack.append(i)
    if len(stack) != 1:
        raise refmm.RefError("%d entries left on the stack" % len(stack))
    return kids

def consistent(db, label, ls):
    """raises RefError unless the listing is a consistent proof in progress.
    -> (has unknown steps, all unified)"""
    st = db.labels[label]
    kids = step_trees(db, st, ls)
    unified = True
    if ls[-1][4] != list(st.math):
        raise refmm.RefError("the last step has target %s" % " ".join(ls[-1][4]))
    if ls[-1][1] != label:
        raise refmm.RefError("the last step is called %s" % ls[-1][1])
    for i, s in enumerate(ls):
        if s[0] != i + 1:
            raise refmm.RefError("step number %d instead of %d" % (s[0], i + 1))
        if s[2] == "?":
            continue
        x = db.labels[s[2]]
        source = s[5] if s[5] is not None else s[4]
        if s[3] != x.kind:
            raise refmm.RefError("step %d: type %s instead of %s" % (i + 1, s[3], x.kind))
        if x.kind in ("$e", "$f"):
            want = list(x.math)
        else:
            sub = {}
            for h, k in zip(x.mand, kids[i]):
                if ls[k][1] != h:
                    raise refmm.RefError("step %d is called %s instead of %s" % (k + 1, ls[k][1], h))
                hs = db.labels[h]
                if hs.kind == "$f":
                    t = ls[k][4]
                    if not t or t[0] != hs.math[0]:
                        raise refmm.RefError("step %d has target %s for %s" % (k + 1, " ".join(t), " ".join(hs.math)))
                    sub[hs.math[1]] = t[1:]
            inst = lambda m: sum((sub.get(y, [y]) for y in m), [])
            for h, k in zip(x.mand, kids[i]):
                if db.labels[h].kind == "$e" and inst(db.labels[h].math) != ls[k][4]:
                    raise refmm.RefError("step %d is %s but the hypothesis %s of step %d requires %s" % (k + 1, " ".join(ls[k][4]), h, i + 1, " ".join(inst(db.labels[h].math))))
            want = inst(x.math)
        if source != want:
            raise refmm.RefError("step %d shows %s but %s gives %s" % (i + 1, " ".join(source), s[2], " ".join(want)))
        if s[5] is not None:
            unified = False
    return any(s[2] == "?" for s in ls), unified

def dvbad(db, label, ls):
    """the $d violations of the known steps"""
    st = db.labels[label]
    kids = step_trees(db, st, ls)
    bad = set()
    for i, s in enumerate(ls):
        x = db.labels.get(s[2])
        if x is None or x.kind in ("$e", "$f") or not x.dv:
            continue
        sub = {db.labels[h].math[1]: ls[k][4][1:] for h, k in zip(x.mand, kids[i]) if db.labels[h].kind == "$f"}
        for a, b in x.dv:
            for u in sub[a]:
                for v in sub[b]:
                    if db.isvar(u) and db.isvar(v) and (u == v or tuple(sorted((u, v))) not in st.alld):
                        bad.add("step %d: %s and %s in %s" % (i + 1, u, v, s[2]))
    return bad

_P = {}
def db_p(wname):
    """labels of the theorems"""
    if wname not in _P:
        _P[wname] = set(re.findall(r"(\S+) \$p", WORLDS[wname][0])) - {"t"}
    return _P[wname]

def commands(wname, listing, ls):
    db, labels, lets, vals, _, _ = WORLDS[wname]
    r = []
    for i, s in enumerate(ls):
        n = i + 1
        if s[2] == "?":
            r += ["assign %d %s/no_unify" % (n, l) for l in labels]
            r += ["let step %d = '%s'" % (n, x) for x in lets]
            r += ["improve %d" % n, "improve %d/2" % n, "improve %d/3/depth 1" % n]
        else:
            r.append("delete step %d" % n)
            r.append("initialize step %d" % n)
        if s[2] != "?" or i == len(ls) - 1:
            r += ["replace %d %s" % (n, l) for l in labels if not l.startswith(("w", "v", "x"))]
    for v in sorted(set(re.findall(r"\$\d+", listing)))[:4]:
        r += ["let variable %s = '%s'" % (v, x) for x in vals if v not in x.split() or x == v]
        r += ["let variable %s = '%s'" % (v, x) for x in vals if v in x.split() and x != v][:1]
    r += ["improve all", "improve all/2", "improve all/3/depth 1/subproofs", "improve all/depth 2", "unify all", "delete floating_hypotheses", "delete all",
          "initialize all", "initialize user", "minimize_with *", "minimize_with */may_grow", "expand *", "undo"]
    r += ["expand %s" % l for l in sorted(set(s[2] for s in ls)) if l in db_p(wname)]
    return r

def interactive(wname, ls):
    r = []
    for i, s in enumerate(ls):
        if s[5] is not None or s[6] is not None:
            r += [["unify step %d" % (i + 1)] + a for a in (["a"], ["r", "a"], ["q"], ["r", "r"])]
        if s[2] == "?":
            r += [["match step %d" % (i + 1), a] for a in WORLDS[wname][1][:3] + [""]]
    r += [["unify all/interactive"] + a for a in (["a"], ["r", "a"], ["a", "a"])]
    return r

def probe(wname, path, cmds):
    """-> replies and listings after path + c, for each c (from scratch)"""
    db = WORLDS[wname][0]
    lines = ["set width 9999", "read a.mm"]
    pos = []
    for c in cmds:
        lines.append("prove t")
        lines += path
        pos.append((len(lines), len(lines) + 1))
        lines += [c, pa.SHOW, "exit/force"]
    r = mm.sess(lines + ["exit/force"], {"a.mm": db}, timeout=120)
    o = mm.split_out(r.out)[2:]
    if r.status != 0 or len(o) < len(lines):
        return r, None
    return r, [(o[a], o[b]) for a, b in pos]

def judge(wname, path, c, rep, listing, db, before=None):
    if "?BUG CHECK" in rep.upper():
        return "bug check: %s" % rep
    try:
        ls = pa.steps(listing)
        if not ls:
            return "empty listing"
        unk, uni = consistent(db, "t", ls)
    except (refmm.RefError, ValueError) as e:
        return "%s\n%s" % (e, listing)
    if before is not None and c.startswith(("expand", "minimize")) and not dvbad(db, "t", before):
        d = dvbad(db, "t", ls)
        if d:
            return "the command introduced a $d violation (%s)\n%s" % ("; ".join(sorted(d)), listing)
    if "CONGRATULATIONS" in rep and (unk or not uni):
        return "the program says the proof is complete, but\n%s" % listing
    return None

def saved(wname, path, listing, db):
    """SAVE NEW_PROOF of a complete state"""
    ls = pa.steps(listing)
    d = WORLDS[wname][0]
    lines = ["set width 9999", "read a.mm", "prove t"] + path + ["save new_proof/normal", "exit/force", "write source o/no_versioning", "verify proof t", "exit/force"]
    r = mm.sess(lines, {"a.mm": d}, timeout=60)
    o = mm.split_out(r.out)
    v, allv = verdict.verify_verdicts(o[-2], ["t"])
    out = mm.server().read("o")
    if out is None:
        return "no output file: %s" % r.out[-500:]
    db2 = refmm.Db(out)
    pf = db2.labels["t"].proof
    if list(pf) != [s[2] for s in ls]:
        return "the saved proof %s is not the one shown:\n%s" % (" ".join(pf), listing)
    try:
        db2.verify("t")
        want = "ok"
    except refmm.RefError as e:
        want = str(e)
    isdv = "disjoint variable" in r.out
    if want == "ok" and (v["t"] != "ok" or isdv):
        return "VERIFY PROOF rejects the saved proof: %s" % o[-2]
    if want != "ok":
        nod = refmm.Db(re.sub(r"\$d[^$]*\$\.", "", out))
        try:
            nod.verify("t")
        except refmm.RefError as e:
            return "the completed proof is wrong: %s: %s" % (" ".join(pf), e)
        if v["t"] == "ok" and not isdv:
            return "VERIFY PROOF accepts a $d violation: %s" % " ".join(pf)
    return None

def expand(j):
    """all successors of a state"""
    wname, path, listing = j
    db = refmm.Db(WORLDS[wname][0])
    try:
        ls = pa.steps(listing)
    except ValueError:
        return dict(viol=[], succ=[], tr=0, saved=0, w=wname, path=path)
    if len(ls) > 60:
        return dict(viol=[], succ=[], tr=0, saved=0, w=wname, path=path)
    viol, succ, seen, tr, sv = [], [], {pa.canon(listing)}, 0, 0
    cmds = commands(wname, listing, ls)
    r, res = probe(wname, path, cmds)
    if res is None:
        # find the culprit
        for c in cmds:
            r, x = probe(wname, path, [c])
            if x is None:
                viol.append((path + [c], "abnormal end, status %d: %s" % (r.status, r.out[-400:])))
                break
        else:
            viol.append((path + cmds, "abnormal end, status %d: %s" % (r.status, r.out[-400:])))
        res, cmds = [], []
    for c, (rep, li) in zip(cmds, res):
        tr += 1
        w = judge(wname, path, c, rep, li, db, ls)
        if w:
            if len(viol) < 2:
                viol.append((path + [c], w))
            continue
        k = pa.canon(li)
        if k in seen:
            continue
        seen.add(k)
        succ.append((path + [c], li))
    for ans in interactive(wname, ls):
        nans, ans = len(ans) - 1, ["\n".join(ans)]
        lines = ["set width 9999", "read a.mm", "prove t"] + path + ans + [pa.SHOW, "exit/force", "exit/force"]
        r = mm.sess(lines, {"a.mm": WORLDS[wname][0]}, timeout=60)
        if len(re.findall("Accept \\(A\\)|What statement to select", r.out)) - sum(x.count("\n") for x in path) != nans:
            continue
        if r.status != 0:
            viol.append((path + ans, "abnormal end, status %d: %s" % (r.status, r.out[-400:])))
            continue
        o = mm.split_out(r.out)
        if len(o) < len(path) + 8:
            viol.append((path + ans, "unexpected end: %s" % r.out[-400:]))
            continue
        rep, li = o[-4], o[-3]
        tr += 1
        w = judge(wname, path, ans[0], rep, li, db)
        if w:
            if len(viol) < 2:
                viol.append((path + ans, w))
            continue
        k = pa.canon(li)
        if k not in seen:
            seen.add(k)
            succ.append((path + ans, li))
    for p, li in succ:
        x = pa.steps(li)
        if all(s[2] != "?" and s[5] is None for s in x):
            sv += 1
            w = saved(wname, p, li, db)
            if w:
                viol.append((p + ["save new_proof/normal"], w))
    return dict(viol=viol, succ=succ, tr=tr, saved=sv, w=wname, path=path)

def main(c):
    c.cov["rule"] = ("breadth-first exploration of the states of the Proof Assistant (canonical listings) in %d worlds; from each state every command of the "
                     "generated alphabet (every unknown step x every label, LET, IMPROVE variants, REPLACE, DELETE, INITIALIZE, UNIFY with answers, MATCH, MINIMIZE, EXPAND) "
                     "is executed by the program and the new state is checked by the reference" % len(WORLDS))
    seen = set()
    level = []
    for w in WORLDS:
        r, res = probe(w, [], ["unify all"])
        if not res:
            c.violation("init-" + w, "world %s: %s" % (w, r.out[-500:]), dict(w=w, path=["unify all"]))
            continue
        level.append((w, [], res[0][1]))
        seen.add((w, pa.canon(res[0][1])))
    depth = 0
    caps = 400000 if c.thorough else 1500
    while level and not len(c.viol) > 10:
        depth += 1
        nxt = []
        for r in mm.pmap(expand, level, stop=c.enough):
            c.add("transitions", r["tr"]); c.add("traces_validated_against_impl", 1 + r["saved"]); c.add("complete_proofs_saved", r["saved"])
            for p, w in r["viol"]:
                c.violation(mm.digest(r["w"] + str(p)), "%s %s: %s" % (r["w"], p, w), dict(w=r["w"], path=p))
            lim = WORLDS[r["w"]][5 if c.thorough else 4]
            for p, li in r["succ"]:
                k = (r["w"], pa.canon(li))
                if k not in seen:
                    seen.add(k)
                    if depth < lim:
                        nxt.append((r["w"], p, li))
            if r["succ"] and len(c.samples) < 6:
                c.sample("%s: %s" % (r["w"], r["succ"][-1][0]))
        nxt.sort(key=lambda x: (x[0], x[1]))
        level = nxt
        c.cov["states_at_depth_%d" % depth] = len(nxt)
    c.cov["states"] = len(seen)
    c.cov["exhaustive"] = True

def replay(v):
    v = v["replay"]
    lines = ["set width 9999", "read a.mm", "prove t"] + v["path"] + [pa.SHOW, "exit/force", "exit/force"]
    r = mm.sess(lines, {"a.mm": WORLDS[v["w"]][0]}, timeout=60)
    print(r.out)
    o = mm.split_out(r.out)
    db = refmm.Db(WORLDS[v["w"]][0])
    r2 = mm.sess(["set width 9999", "read a.mm", "prove t"] + v["path"][:-1] + [pa.SHOW, "exit/force", "exit/force"], {"a.mm": WORLDS[v["w"]][0]}, timeout=60)
    try:
        before = pa.steps(mm.split_out(r2.out)[-3])
    except (ValueError, IndexError):
        before = None
    w = judge(v["w"], [], v["path"][-1], r.out, o[-3] if len(o) > 3 else "", db, before)
    if not w and "save new_proof" in v["path"][-1]:
        w = saved(v["w"], v["path"][:-1], o[-3], db)
    print(w or "holds")
    return 1 if w or r.status else 0
