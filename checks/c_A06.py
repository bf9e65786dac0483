"""Packed and explicit proofs mean exactly what they spell out, also after the
hypotheses of the assertions they use were put into another order."""
import itertools, random, re
import mm, refmm, proofs, verdict

LEVEL = "exploration"
LABEL = re.compile(r"[A-Za-z0-9._-]+\Z")

# ------------------------------------------------------------ the databases
# {0}, {1}, ...: places whose lines may stand in any order that keeps a $f
# before the $e which uses its variable
TEMPLATES = {
 "eq": ("""$c ( , ) w |- $. $v x y z $.
@ fx $f w x $. ;; fy $f w y $. ;; fz $f w z $. @
pr $a w ( x , y ) $.
nil $a w ( ) $.
rf $a |- ( x , x ) $.
${ @ k1 $e |- ( x , y ) $. ;; k2 $e |- ( y , z ) $. @ tr $a |- ( x , z ) $. $}
${ sh $e |- ( x , y ) $. sy $a |- ( y , x ) $. $}
${ a1 $e |- ( x , y ) $. a2 $e |- ( y , x ) $.
""", "$}\nlater $a |- ( x , y ) $.\n", ["fx", "fy", "pr", "rf", "tr", "sy", "a1", "a2"], 11, 14),
 "tree": ("""$c |- a b $.
c0 $a |- a $.
${ u1 $e |- a $. f1 $a |- a $. $}
${ @ p1 $e |- a $. ;; p2 $e |- a $. @ f2 $a |- a $. $}
${ @ q1 $e |- a $. ;; q2 $e |- b $. ;; q3 $e |- a $. @ f3 $a |- a $. $}
${ v1 $e |- a $. g1 $a |- b $. $}
${ h0 $e |- a $.
""", "$}\nlater $a |- a $.\n", ["c0", "h0", "f1", "f2", "f3", "g1"], 8, 10),
 "mix": ("""$c w |- T U $. $v u v s $.
@ fu $f w u $. ;; fv $f w v $. @
ww $a w u v $.
w0 $a w T $.
${ @ d1 $e |- u $. ;; fs $f w s $. ;; d2 $e |- s $. @ cj $a |- u s $. $}
${ o1 $e |- u $. o1a $a |- u u $. $}
${ gone $f w s $. $}
${ g1 $e |- T $. g2 $e |- U $.
tt $a |- T T $.
""", "$}\nlater $a |- u $.\n", ["fu", "ww", "w0", "cj", "o1a", "g1", "g2", "tt"], 9, 12),
}

def orders(lines):
    """orders in which every $e comes after the $f of its variables"""
    for p in itertools.permutations(range(len(lines))):
        seen, ok = set(), True
        inside = {l.split()[3] for l in lines if "$f" in l}
        for i in p:
            t = lines[i].split()
            if t[1] == "$f":
                seen.add(t[3])
            elif any(x in inside and x not in seen for x in t[2:-1]):
                ok = False
        if ok:
            yield [lines[i] for i in p]

def variants(tpl):
    """-> texts; the first is the order of the template"""
    parts = tpl.split("@")
    opts = [[p] if i % 2 == 0 else ["\n".join(o) for o in orders([l.strip() for l in p.split(";;")])] for i, p in enumerate(parts)]
    return ["".join(c) for c in itertools.product(*opts)]

# ------------------------------------------------------------ reference reader
def toks(text):
    return re.findall(r"[:=?()]|[^\s:=?()]+", text)

class Vague(Exception):
    """not laid down: any answer will do"""

def tree(db, label, text):
    """-> tree (label, [children in the order of the hypotheses]) or '?';
    raises RefError when the proof is malformed"""
    st = db.labels[label]
    ts = toks(text)
    i, stack, local, explicit, mixed, vague, used = 0, [], {}, False, False, False, 0
    n = len(ts)
    sym = (":", "=", "?", "(", ")")
    explicit = "=" in ts
    for t in ts:
        if t in "()":
            raise Vague()
    steps = []
    while i < n:
        name = target = None
        if ts[i] not in sym and i + 1 < n and ts[i + 1] == ":":
            name, i = ts[i], i + 2
            if i + 1 < n and ts[i] not in sym and ts[i + 1] == ":":
                raise Vague()      # two labels for one step
        if i + 1 < n and ts[i] not in sym and ts[i + 1] == "=":
            target, i = ts[i], i + 2
        if i >= n or ts[i] in sym and ts[i] != "?":
            raise refmm.RefError("syntax")
        steps.append((name, target, ts[i]))
        i += 1
    names = [s[0] for s in steps if s[0]]
    if len(set(names)) != len(names):
        raise refmm.RefError("local label twice")
    for x in names:
        if not LABEL.match(x):
            raise refmm.RefError("illegal local label")
        l = db.labels.get(x)
        if l and (l.no <= st.no and l.kind in ("$a", "$p") or x in st.hyps):
            raise refmm.RefError("local label is a label")
        if l and l.kind in ("$e", "$f"):
            vague = True           # a hypothesis that is not active here
    for k, (name, target, src) in enumerate(steps):
        if src == "?":
            if name:
                vague = True
            node = "?"
        elif src in names:
            if name or src not in local:
                raise refmm.RefError("local label")
            node = local[src]
        else:
            x = db.labels.get(src)
            if not x or x.no >= st.no or x.kind in ("$e", "$f") and src not in st.hyps:
                raise refmm.RefError("unknown label")
            if x.kind in ("$e", "$f"):
                if name:
                    raise refmm.RefError("local label on a hypothesis")
                node = (src, [])
            else:
                h = x.mand
                if len(stack) < len(h):
                    raise refmm.RefError("underflow")
                args = stack[len(stack) - len(h):]
                del stack[len(stack) - len(h):]
                if explicit and h:
                    d = {t: a for t, a in args}
                    if set(d) != set(h):
                        raise refmm.RefError("targets")
                    node = (src, [d[y] for y in h])
                else:
                    node = (src, [a for _, a in args])
        if name:
            local[name] = node
        stack.append((target, node))
    if len(stack) != 1:
        raise refmm.RefError("stack")
    if explicit and stack[0][0] != label:
        vague = True
    if vague:
        raise Vague()
    return stack[0][1]

def flat(t):
    if t == "?":
        return ["?"]
    return [x for c in t[1] for x in flat(c)] + [t[0]]

def expected(db, label, text):
    """-> (verdict or None when not laid down, list of steps or None)"""
    try:
        f = flat(tree(db, label, text))
    except refmm.RefError:
        return "err", None
    except Vague:
        return None, None
    if "?" in f:
        return "open", f
    st = db.labels[label]
    try:
        db.verify_labels(st, f)
        return "ok", f
    except refmm.RefError:
        return "err", f

# ------------------------------------------------------------ the program
def run(base, tail, thms):
    """thms: [(formula, proof text)] -> list of (index, what), set of states"""
    text = base + "".join("t%d $p %s $= %s $.\n" % (i, s, p) for i, (s, p, *_) in enumerate(thms)) + tail
    saves = ["explicit/packed/fast", "explicit/packed", "normal"]
    cmds = ["read a.mm", "verify proof */syntax_only", "verify proof *"]
    for k, s in enumerate(saves):
        cmds += ["save proof */" + s, "write source o%d/no_versioning" % k]
    cmds += ["exit"]
    mm.server().clean()
    r = mm.sess(cmds, {"a.mm": text}, timeout=30, clean=False)
    if r.status != 0:
        return [(None, "status %d: %s" % (r.status, r.out[-400:]))], 0, 0
    o = mm.split_out(r.out)
    if "No errors were found" not in o[2]:
        return [(None, "READ rejects: %s" % o[2][-300:])], 0, 0
    names = ["t%d" % i for i in range(len(thms))]
    vs, _ = verdict.verify_verdicts(o[3], names)
    v, _ = verdict.verify_verdicts(o[4], names)
    try:
        db = refmm.Db(text)
    except refmm.RefError as e:
        raise AssertionError("reference rejects: %s" % e)
    bad, judged, acc = [], 0, 0
    outs = []
    for k, s in enumerate(saves):
        out = mm.server().read("o%d" % k)
        if out is None:
            return [(None, "no output of save %s" % s)], 0, 0
        outs.append({x[0]: out[x[4][0]:x[4][1]] for x in proofs.spans(out) if x[4]})
    for i, n in enumerate(names):
        want, f = expected(db, n, thms[i][1])
        if want is None:
            continue
        judged += 1
        got = v[n]
        if want == "ok" and got != "ok" or want == "open" and (got == "ok" or got == "err" and len(thms[i]) > 2) or want == "err" and got == "ok":
            bad.append((i, "is %s according to the reference, VERIFY PROOF says %s" % (want, got)))
            continue
        syn = "ok" if f and "?" not in f else "unproved" if f else "err"
        if vs[n] != syn and not (syn == "err" and vs[n] == "unproved" and "?" in thms[i][1]):
            bad.append((i, "VERIFY PROOF /SYNTAX_ONLY says %s instead of %s" % (vs[n], syn)))
            continue
        if f is None:
            for k, s in enumerate(saves):
                if outs[k].get(n, "").split() != thms[i][1].split():
                    bad.append((i, "a malformed proof was changed by SAVE PROOF /%s: %s" % (s.upper(), outs[k].get(n))))
                    break
            continue
        acc += 1
        for k, s in enumerate(saves):
            t = outs[k].get(n, "")
            try:
                g = flat(tree(db, n, t)) if k < 2 else t.split()
            except (refmm.RefError, Vague) as e:
                g = "malformed: %s" % e
            if g != f:
                bad.append((i, "SAVE PROOF /%s writes %s: the steps are %s instead of %s" % (s.upper(), " ".join(t.split()), g if isinstance(g, str) else " ".join(g), " ".join(f))))
                break
    return bad, judged, acc

def job(j):
    tname, base, tail, thms = j
    bad, judged, acc = run(base, tail, thms)
    viol = []
    for i, w in bad[:3]:
        th = thms if i is None else [thms[i]]
        if i is not None and not run(base, tail, th)[0]:
            th = thms
        viol.append(dict(base=base, tail=tail, thms=[list(t) for t in th], what="%s%s" % ("" if i is None else thms[i][1] + " for " + thms[i][0] + " ", w)))
    return dict(n=len(thms), judged=judged, acc=acc, viol=viol, key=mm.digest(base), sample="%s: %s" % (tname, thms[len(thms) // 2][1]))

# ------------------------------------------------------------ generation
def build(db, st, labels, depth, maxlen, cap):
    """correct proofs as trees, by exhaustive forward enumeration"""
    import enum_proofs as ep
    out = []
    for seq, ex in ep.enumerate_proofs(db, st, depth, labels, maxlen):
        if len(ex) > 1 and ex[0] == "|-":
            out.append((list(seq), " ".join(ex)))
    return out

def totree(db, seq):
    stack = []
    for l in seq:
        k = proofs.nhyp(db, l)
        a = stack[len(stack) - k:]
        del stack[len(stack) - k:]
        stack.append((l, tuple(a)))
    return stack[0]

def size(t):
    return 1 + sum(size(c) for c in t[1])

def subtrees(t):
    for c in t[1]:
        yield from subtrees(c)
    yield t

def write(db, t, share, explicit, final, sep, order=None, holes=()):
    """text of the tree; share: {subtree: number of first occurrences that
    are spelt out}; order: how to arrange children (explicit only)"""
    out, seen, cnt = [], {}, [0]
    left = {}
    for s in subtrees(t):
        left[s] = left.get(s, 0) + 1
    def rec(t, target):
        pre = target + sep[1] + "=" + sep[1] if explicit else ""
        if t in holes:
            out.append(pre + "?")
            return
        if t in seen:
            out.append(pre + seen[t])
            return
        mand = db.labels[t[0]].mand if t[1] else []
        ch = list(zip(mand, t[1]))
        if order and explicit:
            ch = [ch[i] for i in order(len(ch))]
        for h, c in ch:
            rec(c, h)
        name = ""
        if t in share and t not in seen and db.labels[t[0]].kind not in ("$e", "$f"):
            share[t] -= 1
            if share[t] <= 0:
                cnt[0] += 1
                seen[t] = "%d" % cnt[0]
                name = seen[t] + sep[0] + ":" + sep[0]
        out.append(name + pre + t[0])
    share = dict(share)
    rec(t, final)
    return sep[2].join(out)

SEPS = [("", "", " "), (" ", "", " "), ("", " ", "\n"), ("\n", " ", "  \n ")]

def forms(db, t, label, deep):
    """packed and explicit texts of one proof"""
    reps = {}
    for s in subtrees(t):
        if db.labels[s[0]].kind not in ("$e", "$f"):
            reps[s] = reps.get(s, 0) + 1
    rep = [s for s, k in reps.items() if k > 1]
    shares = [{}]
    for r in range(1, len(rep) + 1):
        for c in itertools.combinations(rep, r):
            shares.append({s: 1 for s in c})
            if any(reps[s] > 2 for s in c):
                shares.append({s: reps[s] - 1 for s in c})
    shares.append({t: 1})             # a label that is never referred to
    rots = [None, lambda n: range(n - 1, -1, -1), lambda n: [(i + 1) % n for i in range(n)]]
    for k, sh in enumerate(shares[:24 if deep else 10]):
        for ex in (False, True):
            if not sh and not ex:
                yield write(db, t, sh, False, label, SEPS[0])
                continue
            for r, o in enumerate(rots if ex else rots[:1]):
                yield write(db, t, sh, ex, label, SEPS[(k + r) % 4], o)

def edits(text, extra):
    ts = toks(text)
    alpha = list(dict.fromkeys(ts)) + [x for x in extra if x not in ts]
    alpha += [x for x in dict.fromkeys(t[:-1] for t in ts) if x and x not in alpha]
    for i in range(len(ts)):
        yield ts[:i] + ts[i + 1:]
        yield ts[:i] + [ts[i]] + ts[i:]
        for a in alpha:
            if a != ts[i]:
                yield ts[:i] + [a] + ts[i + 1:]
        if i + 1 < len(ts) and ts[i] != ts[i + 1]:
            yield ts[:i] + [ts[i + 1], ts[i]] + ts[i + 2:]
    for i in range(len(ts) + 1):
        for a in ("=", ":", "?", alpha[0], "1"):
            yield ts[:i] + [a] + ts[i:]

def gen(deep):
    for tname, (tpl, tail, labels, dq, dt) in TEMPLATES.items():
        vs = variants(tpl)
        db = refmm.Db(vs[0] + "t $p |- T $= ? $.\n".replace("|- T", {"eq": "w x", "mix": "w u", "tree": "|- a"}[tname]) + tail)
        st = db.labels["t"]
        ps = build(db, st, labels, dt if deep else dq, 12, None)
        texts, seen = [], set()
        good = []
        for seq, ex in ps:
            t = totree(db, seq)
            good.append((t, ex))
            for f in forms(db, t, "@", deep):
                if (f, ex) not in seen:
                    seen.add((f, ex))
                    texts.append((ex, f))
        # incomplete proofs
        for t, ex in good[-(400 if deep else 60):]:
            for s in list(dict.fromkeys(subtrees(t)))[:6]:
                if s is t:
                    continue
                for e in (False, True):
                    f = write(db, t, {x: 1 for x in subtrees(t) if x != s and db.labels[x[0]].kind == "$a"}, e, "@", SEPS[0], None, (s,))
                    texts.append((ex, f, True))
        # other formulas
        texts += [(good[(i * 7 + 3) % len(good)][1], x[1]) for i, x in enumerate(texts[::5])]
        for vi, v in enumerate(vs):
            sub = texts if vi % 6 == 0 or deep else [x for x in texts if "=" in x[1]]
            if not deep and len(sub) > 3000:
                st_ = len(sub) // 3000 + 1
                sub = sub[vi % st_::st_]
            for ch in mm.chunks(sub, 60):
                yield tname, v, tail, [(x[0], x[1].replace("@", "t%d" % i)) + (tuple(x[2:]) if vi == 0 or "=" in x[1] else ()) for i, x in enumerate(ch)]
        # edits: longest proofs with and without shared parts
        pick = [x for x in sorted(texts, key=lambda x: len(toks(x[1]))) if len(toks(x[1])) <= (32 if deep else 22)]
        n = 4000 if deep else 60
        pick = pick[::max(1, len(pick) // n)]
        for vi in (range(len(vs)) if deep else (0, len(vs) // 2, len(vs) - 1)):
            eds = []
            for k, (s, f, *_) in enumerate(pick):
                if deep and k % len(vs) != vi and vi:
                    continue
                for e in edits(f.replace("@", "THIS"), ["?", "later", "gone", {"eq": "fz", "mix": "fv", "tree": "p1"}[tname], "nosuch", "THIS", "a_b", "a/b", "2"]):
                    if e:
                        eds.append((s, " ".join(e)))
            for ch in mm.chunks(eds, 60):
                yield tname, vs[vi], tail, [(s, f.replace("THIS", "t%d" % i)) for i, (s, f) in enumerate(ch)]

        # every sequence of labels of a length
        al = (["fx", "pr", "rf", "tr", "sy", "a1", "?", "nil", "fz", "gone", "later", "THIS"] if tname == "eq" else
              ["c0", "h0", "f1", "f2", "g1", "?", "p1", "later", "THIS"] if tname == "tree" else ["fu", "ww", "w0", "cj", "o1a", "g1", "?", "fs", "later", "THIS"])
        for n in range(1, 6 if deep else 5):
            for ch in mm.chunks(itertools.product(al, repeat=n), 100):
                yield tname, vs[-1], tail, [(good[0][1], " ".join(e).replace("THIS", "t%d" % i)) for i, e in enumerate(ch)]

def main(c):
    dbs = set()
    for r in mm.pmap(job, gen(c.thorough), stop=c.enough):
        c.add("proofs_executed", r["n"])
        c.add("proofs_judged", r["judged"])
        c.add("proofs_well_formed", r["acc"])
        dbs.add(r["key"])
        c.sample(r["sample"])
        for v in r["viol"]:
            c.violation(v["what"][:300], v["what"], v)
    c.cov["databases"] = len(dbs)
    c.cov["rule"] = "all correct proofs of two systems up to a length, in every packed and explicit form (which repeated subproofs are shared, from which occurrence on, order of the hypotheses), read against every legal order of the $e and $f statements; all single-token edits of a selection; all label sequences up to a length; verdict of VERIFY PROOF and /SYNTAX_ONLY, and the steps written by SAVE PROOF in three formats, against a reference reader"

def replay(v):
    r = v["replay"]
    bad = run(r["base"], r["tail"], [tuple(t) for t in r["thms"]])[0]
    for b in bad:
        print(b)
    return 1 if bad else 0
