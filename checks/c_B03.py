"""Saving a proof in any format preserves the proof."""
import itertools, re
import mm, refmm, proofs, systems, enum_proofs as ep, verdict

LEVEL = "model_checking"

FMT = {"N": ("/normal", "normal"), "P": ("/packed", None), "C": ("/compressed", "compressed"), "E": ("/explicit", "explicit"),
       "X": ("/explicit/packed", "explicit-packed"), "O": ("/compressed/old_compression", "compressed"), "F": ("/compressed/fast", "compressed"),
       "G": ("/packed/fast", None), "H": ("/explicit/packed/fast", "explicit-packed"), "M": ("/normal/packed", None)}

def euler(al):
    """closed walk through every ordered pair of formats"""
    out = {a: list(al) for a in al}
    path, cyc = [al[0]], []
    while path:
        v = path[-1]
        if out[v]:
            path.append(out[v].pop())
        else:
            cyc.append(path.pop())
    return cyc[::-1]
WALK = euler("NPCEXOFGH")
SHORT = ["C", "E", "P", "C", "N", "X", "C", "F", "H", "G", "E", "O", "N", "C"]

def run(pre, thms, walk, width=None, sts=None):
    """thms: [(block, stmt, proof tokens)]; -> list of violations"""
    sts = set() if sts is None else sts
    text = pre
    text += "${ %s\n" % thms[0][0].lstrip("\t")     # all theorems of a batch share the block
    pad = " " * (20 * thms[0][0].count("\t"))    # tabs: indentation of the theorems
    for i, (blk, stmt, pf) in enumerate(thms):
        text += pad + "t%d $p %s $= %s $.\n" % (i, " ".join(stmt), " ".join(pf))
    text += "$}\n"
    cmds = ["set width %d" % width] if width else []
    cmds += ["read a.mm", "verify proof *"]
    for k, f in enumerate(walk):
        cmds += ["save proof */%s" % FMT[f][0][1:], "write source o%d/no_versioning" % k]
    cmds += ["verify proof *", "exit"]
    r = mm.sess(cmds, {"a.mm": text}, timeout=20)
    names = ["t%d" % i for i in range(len(thms))]
    if r.status != 0:
        return [(None, "status %d: %s" % (r.status, r.out[-300:]))]
    o = mm.split_out(r.out)
    if "No errors were found" not in o[3 if width else 2]:
        return [(None, "READ rejects: %s" % o[3 if width else 2][-300:])]
    v0, _ = verdict.verify_verdicts(o[4 if width else 3], names)
    v1, _ = verdict.verify_verdicts(o[-2], names)
    bad = []
    db = refmm.Db(text)
    goal = {}
    for n in names:
        try:
            goal[n] = proofs.flatten(db, n, db.labels[n].proof)
        except (refmm.RefError, ValueError, IndexError):
            goal[n] = None       # malformed: must stay as it is
    for n in names:
        if v0[n] != v1[n]:
            bad.append((n, "verdict %s before and %s after the conversions" % (v0[n], v1[n])))
    orig = {s[0]: text[s[4][0]:s[4][1]] for s in proofs.spans(text) if s[4]}
    for k, f in enumerate(walk):
        out = mm.server().read("o%d" % k)
        if out is None:
            return bad + [(None, "no output at step %d" % k)]
        sp = proofs.spans(out)
        for s in sp:
            if not s[4] or s[0] not in goal:
                continue
            t = out[s[4][0]:s[4][1]]
            sts.add(hash((pre, str(thms[int(s[0][1:])]), t)))
            if goal[s[0]] is None:
                if t != orig[s[0]]:
                    bad.append((s[0], "a malformed proof %r was replaced by %r" % (orig[s[0]], t)))
                continue
            try:
                g = proofs.flatten(db, s[0], refmm.tokens(t), FMT[f][1])
            except (refmm.RefError, ValueError, IndexError) as e:
                bad.append((s[0], "after %s the proof is malformed: %r: %s" % (f, t, e)))
                continue
            if g != goal[s[0]]:
                bad.append((s[0], "after %s (step %d of %s) the proof %r has steps %s instead of %s" % (f, k, "".join(walk), t, g, goal[s[0]])))
        if len(bad) > 3:
            break
    return bad

def job(j):
    pre, thms, walk, width = j
    sts = set()
    bad = run(pre, thms, walk, width, sts)
    viol = []
    for n, w in bad[:2]:
        th = thms if n is None else [thms[int(n[1:])]]
        if n is not None and not run(pre, th, walk, width):
            th = thms
        viol.append(dict(pre=pre, thms=[list(map(list, (t[1], t[2]))) + [t[0]] for t in th], walk="".join(walk), width=width, what="%s: %s" % (" ".join(thms[int(n[1:])][2]) if n else "", w)))
    return dict(n=len(thms), saves=len(thms) * len(walk), viol=viol, st=sts,
                sample="%s -> %s" % (" ".join(thms[len(thms) // 2][2])[:200], "".join(walk)))

def holes(db, pf):
    """the proof with each subproof (and each pair of disjoint ones) replaced
    by ?"""
    spans = []
    stack = []
    for i, l in enumerate(pf):
        k = proofs.nhyp(db, l)
        a = stack[len(stack) - k:] if k else []
        if k:
            del stack[len(stack) - k:]
        s = (a[0][0] if a else i, i)
        stack.append(s); spans.append(s)
    for a, b in spans:
        yield pf[:a] + ("?",) + pf[b + 1:]
    for (a, b), (x, y) in itertools.combinations(spans, 2):
        if b < x:
            yield pf[:a] + ("?",) + pf[b + 1:x] + ("?",) + pf[y + 1:]

BIGPRE = "$c w |- ( $. $v x y $. fx $f w x $. fy $f w y $. pr $a w ( x y $.\n${ h $e |- x $. h2 $e |- y $. i $a |- ( x y $. $}\n"
# labels that look like the local labels of packed proofs
NUMPRE = "$c w |- ( $. $v x y $. 1 $f w x $. 2 $f w y $. 3 $a w ( x y $. 4 $a |- x $. 10 $a |- x $.\n${ 11 $e |- x $. 12 $e |- y $. 5 $a |- ( x y $. $}\n"

def big(n, style):
    """theorem using n different axioms; labels of varying length"""
    pre = BIGPRE
    lab = [("a%d" % i) + "x" * ((i * 7) % 11 if style != 1 else 0) for i in range(n)]
    for l in lab:
        pre += "%s $a |- ( x x $.\n" % l
    # |- ( x x  via a_k ; combine all: i
    ex = ("(", "x", "x")
    pf_w = ["fx", "fx", "pr"]
    acc_w, acc_p, acc_e = pf_w, ["fx", lab[0]], ex
    for k, l in enumerate(lab[1:]):
        rep = ["fx", l] if style != 2 or k % 3 else ["fx", lab[0]]
        acc_p = acc_w + pf_w + acc_p + rep + ["i"]
        acc_w = acc_w + pf_w + ["pr"]
        acc_e = ("(",) + acc_e + ex
    return pre, ("", ("|-",) + acc_e, tuple(acc_p))

def small_big(n, style, lens=None):
    """flat version: every axiom is used as a hypothesis-free step nested to
    the right so that the proof stays short"""
    pre = BIGPRE
    lab = [("b%d" % i) + "y" * ((i * 5) % 9 if style else 0) for i in range(n)]
    if lens:
        lab = [l + "y" * max(0, lens[i % len(lens)] - len(l)) for i, l in enumerate(lab)]
    pre += "u $a w ( $.\nz $a |- ( $.\n"
    for l in lab:
        pre += "${ %s.h $e |- ( $. %s $a |- ( $. $}\n" % (l, l)
    pf = ["z"] + [l for l in lab] + (lab[::-1] if style == 2 else lab[:3])
    return pre, ("", ("|-", "("), tuple(pf))

GPRE = ("$c w |- ( $. $v x $. fx $f w x $. u $a |- ( $. ${ h $e |- ( $. k $e |- ( $. a $a |- ( $. $}\n" +
        "".join("${ e%d $e |- ( $. b%d $a |- ( $. $}\n" % (i, i) for i in range(130)))
def growth(top):
    """letter strings of every length around the multiples of 1000 at which
    output buffers grow, with each kind of letter at the boundary"""
    for base in range(1000, top + 1, 1000):
        for n in range(base - 10, base + 3):
            b = ["b0"] * n
            yield ["u"] + b + ["u"] + b + ["a"]                # ... Z D C
            yield ["u"] + b + ["?", "a"]
            for k in (25, 130):                                # two and three letters
                for j in (1, 2, 3):
                    lab = ["b%d" % i for i in range(1, k)]
                    m = n - sum(1 + (i >= 18) + (i >= 118) for i in range(k - 1)) - 2 * j
                    yield ["u"] + b[:m] + lab + lab[-1:] * j + b[:3]

def gen(deep):
    D = {"PROP": 9, "DV": 7, "MIU": 8, "ORD": 7, "SCO": 6, "SUB": 8}
    for name, (pre, shells) in systems.SYSTEMS.items():
        seen = set()
        for sh in shells[:1] + (shells[-1:] if len(shells) > 1 else []):
            thms = []
            db, st = ep.context(pre, sh)
            d = D[name] + (1 if deep else 0)
            ps = ep.enumerate_proofs(db, st, d)
            cap = 40000 if deep else 1200
            if len(ps) > cap:             # keep the longest: they contain the others as subproofs
                ps = sorted(ps, key=lambda p: -len(p[0]))[:cap]
            for pf, ex in ps:
                thms.append((sh, ex, pf))
            for pf, ex in ps[-(4000 if deep else 150):]:
                for h in holes(db, pf):
                    thms.append((sh, ex, h))
                for e in itertools.islice(ep.edits(pf, ["?"] + [l for l in db.order][-4:]), 0, None, 1 if deep else 5):
                    thms.append((sh, ex, e))
            thms = [t for t in thms if t[2] and not (t in seen or seen.add(t))]
            for k, ch in enumerate(mm.chunks(thms, 60)):
                yield pre, ch, (WALK if deep or k % 6 == 0 else SHORT), (None, 40, 133)[k % 3]
    db, st = ep.context(NUMPRE, "")
    thms = [("", ex, pf) for pf, ex in ep.enumerate_proofs(db, st, 9 if deep else 7)]
    for k, ch in enumerate(mm.chunks(thms, 60)):
        yield NUMPRE, ch, (WALK if deep or k % 6 == 0 else SHORT), None
    for n in list(range(1, 27)) + [38, 39, 40, 41, 60, 61, 98, 99, 100, 101, 102] + list(range(112, 126)) + [139, 140, 141, 142, 143, 160, 161]:
        for style in (0, 1, 2):
            pre, t = small_big(n, style)
            for w in (None, 40, 60):
                yield pre, [t], SHORT if w else (WALK if deep else SHORT), w
        if n <= 41 or n == 118:
            for style in (0, 1, 2):
                pre, t = big(min(n, 60), style)
                yield pre, [t], SHORT, (None, 50)[n % 2]
    # labels about as long as a line and longer, indented theorems
    for lens in itertools.product((1, 34, 36, 37, 38, 39, 76, 78, 90), repeat=3):
        for ind in (0, 1, 2, 5):
            if deep or ind == 0 or len(set(lens)) < 3:
                pre, t = small_big(6, 0, lens)
                yield pre, [("\t" * ind,) + t[1:]], "CNEO", 40 if max(lens) < 60 else None
    for n in [520, 560] + list(range(617, 628)) + [640] + list(range(660, 770, 5)) + [1119, 1121, 1619, 1621, 2119, 2130, 2619, 2640] + list(range(3118, 3125)) + [3140, 3170, 3220, 3250, 3620]:
        pre, t = small_big(n, 1)
        yield pre, [t], ["C", "N", "C", "O", "C"], None
    for k, ch in enumerate(mm.chunks(growth(4000 if deep else 2000), 10)):
        yield GPRE, [("", ("|-", "("), tuple(p)) for p in ch], "CNOC", (None, 60)[k % 2]

# ---------------------------------------------- explicit proofs, reordered hyps
EXH = [("fx", "$f w x"), ("fy", "$f w y"), ("h", "$e |- x"), ("h2", "$e |- y")]
def exdb(o1, o2, pf, stmt):
    """database with the hypotheses of i in order o1 and of pr in order o2"""
    t = "$c w |- ( $. $v x y $.\nf0 $f w x $. ax $a |- x $. \n"
    t = "$c w |- ( $.\n${ $v x $. f0 $f w x $. ax $a |- x $. $}\n"
    t += "${ $v x y $. " + " ".join("%s.p %s $." % EXH[i] for i in o2) + " pr $a w ( x y $. $}\n"
    t += "${ $v x y $. " + " ".join("%s %s $." % EXH[i] for i in o1) + " i $a |- ( x y $. $}\n"
    t += "$v z $. fz $f w z $.\nt0 $p %s $= %s $.\n" % (stmt, pf)
    return t

def exjob(j):
    fmts, cases = j
    viol = []
    sts = set()
    n = 0
    for stmt, pf in cases:
        for f in fmts:
            base = exdb((0, 1, 2, 3), (0, 1), pf, stmt)
            r = mm.sess(["read a.mm", "save proof t0" + FMT[f][0], "write source o", "exit"], {"a.mm": base})
            out = mm.server().read("o")
            sp = [s for s in proofs.spans(out) if s[0] == "t0"][0]
            ex = out[sp[4][0]:sp[4][1]].strip()
            for o1 in itertools.permutations(range(4)):
                # a $e must come after the $f of its variable
                if o1.index(0) > o1.index(2) or o1.index(1) > o1.index(3):
                    continue
                for o2 in itertools.permutations(range(2)):
                    new = exdb(o1, o2, ex, stmt)
                    r = mm.sess(["read a.mm", "verify proof *", "save proof t0/normal", "write source o", "exit"], {"a.mm": new})
                    n += 1
                    sts.add(hash(new))
                    out = mm.server().read("o") or ""
                    try:
                        if "No errors were found" not in r.out:
                            raise refmm.RefError("READ rejects")
                        if "All proofs in the database were verified" not in r.out or re.search(r"^\?", r.out, re.M):
                            raise refmm.RefError("not verified")
                        db = refmm.Db(out)
                        db.verify("t0")
                        if sorted(db.labels["t0"].proof) != sorted(pf.split()):
                            raise refmm.RefError("the steps changed")
                    except refmm.RefError as e:
                        if len(viol) < 2:
                            viol.append(dict(explicit=new, what="explicit proof after reordering hypotheses: %s: %s" % (new, e)))
    return dict(n=n, saves=n, viol=viol, st=sts, sample=str(cases[0]))

def exgen(deep):
    db, st = ep.context(exdb((0, 1, 2, 3), (0, 1), "?", "|- z").split("t0 $p")[0], "")
    ps = ep.enumerate_proofs(db, st, 11 if deep else 8)
    cs = [(" ".join(ex), " ".join(pf)) for pf, ex in ps if len(pf) > 2 and ex[0] == "|-"]
    cs += [(" ".join(ex), " ".join(pf)) for pf, ex in ps if len(pf) > 2 and ex[0] == "w"][-20:]
    w3 = "fz fz pr fz pr"
    cs.append(("|- ( ( ( z z z ( z z", w3 + " fz fz pr " + w3 + " ax fz fz pr ax i"))
    cs.append(("|- ( ( z z ( z z", "fz fz pr fz fz pr fz fz fz ax fz ax i fz fz fz ax fz ax i i"))
    for c in mm.chunks(cs, 6):
        yield ["E", "X", "H"], c

def dispatch(j):
    return exjob(j) if len(j) == 2 else job(j)

def main(c):
    c.cov["rule"] = ("state = proof text; transitions = the nine save formats; every ordered pair of formats (a closed walk of 82 saves, a shorter walk "
                     "for most batches in quick) from every enumerated proof: correct, incomplete (every one or two subproofs open), wrong, malformed, with up to "
                     "640 labels, line widths 40-133; explicit proofs re-read under every admissible order of the hypotheses")
    sts = set()
    for r in mm.pmap(dispatch, itertools.chain(gen(c.thorough), exgen(c.thorough)), stop=c.enough):
        c.add("proofs", r["n"]); c.add("transitions", r["saves"]); sts |= r["st"]
        c.sample(r["sample"])
        for v in r["viol"]:
            c.violation(mm.digest(v["what"]), v["what"], v)
    c.cov["states"] = len(sts)
    c.cov["traces_validated_against_impl"] = c.cov["proofs"]
    c.cov["exhaustive"] = True

def replay(v):
    v = v["replay"]
    if "explicit" in v:
        r = mm.sess(["read a.mm", "verify proof *", "save proof t0/normal", "exit"], {"a.mm": v["explicit"]})
        print(r.out)
        ok = "All proofs in the database were verified" in r.out and not re.search(r"^\?", r.out, re.M)
        return 0 if ok else 1
    bad = run(v["pre"], [(t[2], t[0], t[1]) for t in v["thms"]], list(v["walk"]), v["width"])
    print(bad or "holds")
    return 1 if bad else 0
