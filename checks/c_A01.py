"""VERIFY PROOF accepts exactly the correct uncompressed proofs."""
import itertools, json, re, sys
import mm, refmm, systems, enum_proofs as ep, verdict

LEVEL = "exploration"

def ref_verdict(db, st0, label, stmt, proof):
    """ok | err | open (contains ?: must not be accepted)"""
    if "?" in proof:
        return "open"
    st = refmm.Stmt("$p", label, list(stmt))
    st.no = st0.no; st.hyps = st0.hyps; st.alld = st0.alld
    try:
        db.verify_labels(st, list(proof))
        return "ok"
    except refmm.RefError:
        return "err"

def batch_text(pre, shell, items):
    a, b = ep.shell_db(pre, shell)
    s = [a]
    for i, (stmt, proof) in enumerate(items):
        # "SELF"/"NEXT" stand for this theorem's and the next theorem's label
        pf = " ".join(proof).replace("SELF", "t%d" % i).replace("NEXT", "t%d" % (i + 1))
        s.append("t%d $p %s $= %s $.\n" % (i, " ".join(stmt), pf))
    s.append(b)
    return "".join(s)

def run_batch(pre, shell, items):
    """-> list of verdicts, or a string describing a failure of the run"""
    txt = batch_text(pre, shell, items)
    r = mm.sess(["read a.mm", "verify proof *", "exit"], {"a.mm": txt}, timeout=30)
    if r.status != 0:
        return "status %d" % r.status, r
    o = mm.split_out(r.out)
    if len(o) < 4 or "No errors were found" not in o[2]:
        return "READ rejected a well-formed database", r
    v, allok = verdict.verify_verdicts(o[3], ["t%d" % i for i in range(len(items))])
    vs = [v["t%d" % i] for i in range(len(items))]
    if allok != all(x == "ok" for x in vs):
        # with only $d errors the summary is a listed known finding
        dv = len(re.findall(r"disjoint\s+variable\s+\(\$d\)\s+violation", o[3]))
        if allok and "unproved" not in vs and dv >= vs.count("err"):
            return vs, "summary-after-dv-error"
        return "summary line disagrees with the verdicts", r
    return vs, r

def mismatch(ref, got):
    if ref == "ok":
        return got != "ok"
    return got == "ok"

def check_items(job):
    pre, shell, items = job
    db, st = ep.context(pre, shell)
    viol = []
    refs = [ref_verdict(db, st, "t%d" % i, s, p) for i, (s, p) in enumerate(items)]
    got, r = run_batch(pre, shell, items)
    bad = []
    summary = r == "summary-after-dv-error"
    if isinstance(got, str):
        bad = [(None, got)]
    else:
        bad = [(i, got[i]) for i in range(len(items)) if mismatch(refs[i], got[i])]
    for i, g in bad[:3]:
        if i is None:
            viol.append(dict(pre=pre, shell=shell, items=items, what=g))
            continue
        one, r1 = run_batch(pre, shell, [items[i]])
        if isinstance(one, str) or mismatch(refs[i], one[0]):
            viol.append(dict(pre=pre, shell=shell, items=[items[i]],
                             what="proof %s of %s: reference says %s, program says %s" % (
                                 " ".join(items[i][1]), " ".join(items[i][0]), refs[i], one)))
        else:   # only in company of the others: still deterministic
            viol.append(dict(pre=pre, shell=shell, items=items,
                             what="proof %s of %s in a batch: reference %s, program %s" % (
                                 " ".join(items[i][1]), " ".join(items[i][0]), refs[i], g)))
    return dict(summary=summary, n=len(items), ok=refs.count("ok"), err=refs.count("err"), open=refs.count("open"), viol=viol,
                nontriv=len(set((s, p) for (s, p) in items if len(p) > 1)), sample=items[len(items) // 2])

def gen_items(name, pre, shells, shell, depth, edit_depth, ndev):
    """deviation 0: every valid proof up to depth; 1: each single edit, and each
    wrong statement; '?' edits."""
    # candidate proofs under the most permissive $d shell of this system
    full = shell
    if "$d" in shells[-1] or any("$d" in s for s in shells):
        alld = max(shells, key=lambda s: s.count("$d"))
        full = alld + shell.replace("$d", "$d") if "$e" in shell else alld
    db, st = ep.context(pre, full)
    db0, st0 = ep.context(pre, shell)
    base = ep.enumerate_proofs(db, st, depth)
    alpha = [l for l in db0.order] + ["SELF", "NEXT", "zz", "?", "wff"]
    exprs = sorted(set(e for _, e in base))
    seen = set()
    def put(x):
        if x not in seen and len(x[1]) > 0:
            seen.add(x)
            return True
    for p, e in base:
        if put((e, p)):
            yield (e, p)
    stm = [e for e in exprs][:6]
    for p, e in base:
        for s in stm:
            if put((s, p)):
                yield (s, p)
        if len(p) <= edit_depth:
            for q in ep.edits(p, alpha):
                if put((e, q)):
                    yield (e, q)
    if ndev >= 2:
        for p, e in base:
            if len(p) <= 3:
                for q in ep.edits(p, alpha):
                    for q2 in ep.edits(q, alpha):
                        if put((e, q2)):
                            yield (e, q2)

def big_jobs():
    """Size sweep: assertions with n hypotheses, proofs of n steps (the
    program grows its tables in steps; every size is covered)."""
    for n in list(range(1, 36)) + list(range(60, 70)) + list(range(95, 140)):
        vs = ["v%d" % i for i in range(n)]
        pre = "$c w |- $. $v %s $.\n" % " ".join(vs) + "".join(
            "f%d $f w v%d $.\n" % (i, i) for i in range(n))
        pre += "${ " + "".join("m%d $e |- v%d $. " % (i, i) for i in range(n)) + \
               " big $a |- %s $. $}\n" % " ".join(vs)
        pre += "k $a |- %s $.\n" % " ".join(vs)
        sh = "".join("g%d $e |- v%d $. " % (i, i) for i in range(n))
        p = ["f%d" % i for i in range(n)] + ["g%d" % i for i in range(n)] + ["big"]
        st = tuple(["|-"] + vs)
        its = [(st, tuple(p)), (st, tuple(p[:-2] + ["g0", "big"])), (st, tuple(p[1:])),
               (st, tuple(["f%d" % i for i in range(n)] + ["k"])),
               (st, tuple(p[:n - 1] + p[n:])), (tuple(["|-"] + vs[::-1]), tuple(p))]
        yield (pre, sh, its)
        # n $d variables in one statement, used one missing at a time
        if n >= 2 and n <= 40:
            dv = "$c w s |- $. $v x y %s $. fx $f s x $. fy $f s y $.\n" % " ".join(vs) + "".join(
                "f%d $f s v%d $.\n" % (i, i) for i in range(n))
            dv += "${ $d x y $. q $a |- x y $. $}\n"
            dv += "${ $d %s $. r $a |- %s $. $}\n" % (" ".join(vs), " ".join(vs))
            its = []
            pw = tuple("f%d" % i for i in range(n)) + ("r",)
            its.append((st, pw))
            miss = (0, n - 1)
            prs = [(i, j) for i in range(n) for j in range(i + 1, n)]
            yield (dv, "$d %s $." % " ".join(vs), its)
            for m in ((0, 1), (0, n - 1), (n - 2, n - 1)):
                if m[0] == m[1]:
                    continue
                yield (dv, " ".join("$d v%d v%d $." % p for p in prs if p != m), its)

def length_jobs(thorough):
    """Length sweep: expressions, substitutions and proofs of n symbols or steps. The
    wrong proofs differ from a right one in one symbol, at one end or in the middle."""
    near = [p + d for p in (64, 128, 256, 512, 1024) for d in (-2, -1, 0, 1, 2)]
    if thorough:
        near += list(range(41, 600)) + [p + d for p in (2048, 4096, 8192) for d in (-2, -1, 0, 1, 2)]
    for n in sorted(set(list(range(1, 41)) + near)):
        def a(k, at=None, c="c"):
            r = ["a"] * k + ["b"]
            if at is not None: r[at] = c
            return r
        ds = sorted({0, 1, n // 2, n - 1, n})
        pre = ("$c w |- a b c $. $v x y $. wx $f w x $. wy $f w y $.\nwa $a w a x $. wb $a w b $. wc $a w c $. wd $a w c x $.\n"
               "${ h1 $e |- x $. h2 $e |- x $. r $a |- c $. $}\n${ i1 $e |- x $. i $a |- x $. $}\n${ j1 $e |- x b y $. j $a |- y c x $. $}\n")
        pre += "e $a |- %s $.\nl $a |- %s $.\n" % (" ".join(a(n)), " ".join(a(n + 1)))
        for d in ds: pre += "e%d $a |- %s $.\n" % (d, " ".join(a(n, d)))
        X = ["wb"] + ["wa"] * n
        st = ("|-", "c"); E = ("|-",) + tuple(a(n))
        its = [(st, tuple(X + ["e", "e", "r"])), (st, tuple(X + ["e", "l", "r"])), (st, tuple(X + ["l", "e", "r"])), (E, tuple(X + ["e", "i"])), (E, tuple(["wb"] + ["wa"] * (n - 1) + ["e", "i"])),
               (E, tuple(X + ["wa", "e", "i"])), (("|-",) + tuple(a(n + 1)), tuple(X + ["e", "i"])), (("|-",) + tuple(a(n - 1)), tuple(X + ["e", "i"]))]
        for d in ds:
            its += [(st, tuple(X + ["e", "e%d" % d, "r"])), (st, tuple(X + ["e%d" % d, "e", "r"])), (("|-",) + tuple(a(n, d)), tuple(X + ["e", "i"])), (E, tuple(X + ["e%d" % d, "i"]))]
            if d < n:
                Y = ["wb"] + ["wa"] * (n - 1 - d) + ["wd"] + ["wa"] * d
                its += [(E, tuple(Y + ["e", "i"])), (("|-",) + tuple(a(n, d)), tuple(Y + ["e%d" % d, "i"]))]
        yield (pre, "", its)
        # a proof of n more steps that only rewrites the same expression, in a chain
        ch = ["wb"] * n + ["eb"] + ["i"] * n
        yield (pre + "eb $a |- b $.\n", "", [(("|-", "b"), tuple(ch)), (("|-", "c"), tuple(ch)), (("|-", "b"), tuple(ch[1:])), (("|-", "b"), tuple(["wc"] + ch[1:])), (("|-", "b"), tuple(ch[:n - 1] + ["wc"] + ch[n:]))])

def jobs(thorough):
    cfg = {"PROP": (6, 4), "DV": (6, 5), "MIU": (5, 4), "ORD": (6, 5), "SCO": (7, 5), "SUB": (6, 4)}
    if thorough:
        cfg = {"PROP": (8, 6), "DV": (8, 6), "MIU": (7, 5), "ORD": (8, 6), "SCO": (9, 7), "SUB": (7, 6)}
    for name, (pre, shells) in systems.SYSTEMS.items():
        for k, sh in enumerate(shells):
            d, e = cfg[name]
            if name == "DV" and not thorough and k % 3 and k != len(shells) - 1:
                e = 3
            for c in mm.chunks(gen_items(name, pre, shells, sh, d, e, 2 if thorough and k == 0 else 1), 400):
                yield (pre, sh, c)
    yield from big_jobs()
    yield from length_jobs(thorough)

def main(c):
    c.add("evaluations", 0)
    c.cov["rule"] = ("every legal label sequence up to the depth, every wrong statement from a set, "
                     "and every single label edit (substitute/delete/insert/swap) of each, in every $d/hypothesis "
                     "shell of 6 small systems, plus a size sweep; non-trivial = distinct (statement, proof) of >1 step")
    for r in mm.pmap(check_items, jobs(c.thorough), stop=c.enough):
        c.add("evaluations", r["n"]); c.add("distinct_nontrivial", r["nontriv"])
        c.add("reference_accepts", r["ok"]); c.add("reference_rejects", r["err"]); c.add("with_unknown_step", r["open"])
        c.sample({"statement": " ".join(r["sample"][0]), "proof": " ".join(r["sample"][1])[:200]})
        if r["summary"]:
            c.violation("summary-after-dv-error", "VERIFY PROOF * prints 'All proofs in the database were verified' "
                        "although it reported $d violations", {"pre": "", "shell": "", "items": []})
        for v in r["viol"]:
            c.violation(mm.digest(json.dumps([v["pre"], v["shell"], v["items"]])), v["what"], v)
    c.cov["exhaustive"] = True

def replay(v):
    v = v["replay"]
    items = [(tuple(a), tuple(b)) for a, b in v["items"]]
    r = check_items((v["pre"], v["shell"], items))
    for x in r["viol"]:
        print(x["what"])
    return 1 if r["viol"] else 0
