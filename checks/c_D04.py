"""D04: every correct proof of a small system up to a length, stored plainly and with
every choice of shared subproofs, and the proofs with subproofs replaced by unknown
steps; listed with every combination of the display options.  A listing is compared
with one computed from the proof by a reference evaluator."""
import itertools, re
import mm, refmm, enum_proofs
from refmm import RefError
LEVEL = "model_checking"

PRE = """$c w |- O N C $. $v x y $. fx $f w x $. fy $f w y $.
o $a w O $. n $a w N x $. a $a |- x $.
${ s.1 $e |- x $. s $a |- N x $. $}
${ c.1 $e |- x $. c.2 $e |- y $. c $a |- C x y $. $}
k $a |- N O $.
"""
SHELL = "h.1 $e |- y $."

# ---------------------------------------------------------------- proofs
def tree(db, seq):
    """(label, children) of the proof"""
    st = []
    for l in seq:
        k = 0 if l == "?" or db.labels[l].kind in ("$e", "$f") else len(db.labels[l].mand)
        args = tuple(st[len(st) - k:]); del st[len(st) - k:]
        st.append((l, args))
    assert len(st) == 1
    return st[0]

def size(t): return 1 + sum(size(a) for a in t[1])

def shared(db, t, choice):
    """Steps of the proof when the subproofs in `choice` are stored once and referred
    to afterwards: [(label or int (step referred to, from 0), [steps of the hypotheses])]."""
    steps, where = [], {}
    def rec(t):
        if t in choice and t in where:
            steps.append((where[t], []))
            return len(steps) - 1
        kids = [rec(a) for a in t[1]]
        steps.append((t[0], kids))
        if t in choice: where[t] = len(steps) - 1
        return len(steps) - 1
    rec(t)
    return steps

def repeated(db, t):
    cnt = {}
    def rec(t):
        cnt[t] = cnt.get(t, 0) + 1
        for a in t[1]: rec(a)
    rec(t)
    return [u for u in cnt if cnt[u] > 1 and u[0] != "?" and db.labels[u[0]].kind in ("$a", "$p")]

def plain(steps):
    """the steps without references"""
    out = []
    def rec(i):
        s, kids = steps[i]
        if isinstance(s, int): return rec(s)
        k = [rec(j) for j in kids]
        out.append((s, k)); return len(out) - 1
    rec(len(steps) - 1)
    return out

def encode(db, mand, steps):
    """the steps as a compressed proof"""
    labs = []
    for s, k in steps:
        if isinstance(s, str) and s != "?" and s not in mand and s not in labs: labs.append(s)
    refd = sorted(set(s for s, k in steps if isinstance(s, int)))
    out = ""
    for i, (s, k) in enumerate(steps):
        if s == "?": out += "?"
        elif isinstance(s, int): out += refmm.encode_number(len(mand) + len(labs) + 1 + refd.index(s))
        elif s in mand: out += refmm.encode_number(mand.index(s) + 1)
        else: out += refmm.encode_number(len(mand) + 1 + labs.index(s))
        if i in refd: out += "Z"
    return "( %s%s) %s" % (" ".join(labs), " " if labs else "", out)

def world():
    db, st = enum_proofs.context(PRE, SHELL)
    return db, st

# ---------------------------------------------------------------- expected listings
class Proof:
    """A stored proof with what a listing needs."""
    def __init__(self, db, st, label, steps):
        self.label, self.steps = label, steps
        n = len(steps)
        self.form = [None] * n; self.kind = [None] * n; self.target = [None] * n; self.depth = [0] * n; self.parent = [None] * n
        for i, (s, kids) in enumerate(steps):
            if isinstance(s, int):
                self.form[i] = self.form[s]; self.kind[i] = self.kind[s]
            elif s == "?":
                self.form[i] = None; self.kind[i] = "$?"
            else:
                x = db.labels[s]; self.kind[i] = x.kind
                if x.kind in ("$e", "$f"): self.form[i] = tuple(x.math)
                elif all(self.form[k] is not None for k in kids):
                    self.form[i] = tuple(db.apply(st, x, [self.form[k] for k in kids]))
                for h, k in zip(x.mand if kids else [], kids):
                    self.target[k] = h; self.parent[k] = i
        self.target[n - 1] = label
        self.ess = [False] * n
        for i in reversed(range(n)):
            p = self.parent[i]
            if p is None: self.ess[i] = True
            else:
                self.depth[i] = self.depth[p] + 1
                self.ess[i] = self.ess[p] and db.labels[self.target[i]].kind == "$e"
        self.refd = set(s for s, k in steps if isinstance(s, int))
        self.db = db

def listing(p, o):
    """The expected lines: (number, column of the target or None, text, formula or None)."""
    n = len(p.steps); db = p.db
    src = [s for s, k in p.steps]
    if o.get("norep"):
        first = {}
        for i in range(n):
            s = src[i]
            if isinstance(s, str) and s != "?" and (db.labels[s].kind in ("$e", "$f") or not db.labels[s].mand):
                if s in first: src[i] = first[s]
                else: first[s] = i
    def final(i): return src[i] if isinstance(src[i], int) else i
    num = {}; c = 0
    for i in range(n):
        if o.get("renum") and not o.get("all") and not p.ess[i]: continue
        if o.get("norep") and (isinstance(src[i], int) or src[i] == "?"): continue
        c += 1; num[i] = c
    width = len(str(c))
    refd = set(s for s in src if isinstance(s, int))
    out = []
    for i in (reversed(range(n)) if o.get("rev") else range(n)):
        if not o.get("all") and not p.ess[i]: continue
        if "from" in o and i + 1 < o["from"]: continue
        if "to" in o and i + 1 > o["to"]: continue
        if "depth" in o and p.depth[i] + 1 > o["depth"]: continue
        if o.get("unk") and src[i] != "?": continue
        if o.get("norep") and i not in num: continue
        s = src[i]
        decl = ""
        if o.get("lemmon"):
            if isinstance(s, int): t = "@%d" % num[s]
            else:
                hs = [k for k, h in zip(p.steps[i][1], db.labels[s].mand if p.steps[i][1] else []) if o.get("all") or db.labels[h].kind == "$e"]
                t = " ".join(([",".join("?" if src[final(k)] == "?" and o.get("norep") else str(num[final(k)] if o.get("norep") else num[k]) for k in hs)] if hs else []) + [s])
            if i in refd and not o.get("norep"): decl = "@%d:" % num[i]
            col = None; t = t + (" " + decl if decl else "")
        else:
            if i in refd: decl = "%d:" % num[i]
            t = decl + p.target[i] + "=" + (str(num[s]) if isinstance(s, int) else s)
            col = width + 1 + max(0, 2 * p.depth[i] - len(decl))
        out.append((num[i], col, t, p.kind[i], p.form[i]))
    return out

def parse(text, o):
    out = []
    for l in text.split("\n"):
        if not l.strip(): continue
        m = re.fullmatch(r"( *)(\d+)( +)(\S.*?) +(\$[aefp?]) (.*)", l)
        if not m: raise ValueError(l)
        t = m.group(4); num = int(m.group(2)); col = None
        if o.get("unk") and not o.get("lemmon"): pass
        elif not o.get("lemmon"): col = m.start(4)
        out.append((num, col, re.sub(r" +", " ", t), m.group(5), tuple(m.group(6).split())))
    return out

def same(exp, got, o):
    if len(exp) != len(got): return "lists %d steps instead of %d" % (len(got), len(exp))
    for e, g in zip(exp, got):
        if e[0] != g[0] or e[2] != g[2] or e[3] != g[3]: return "has the line %s instead of %s" % (g, e)
        if g[1] is not None and e[1] != g[1]: return "has the line %s at column %s instead of %s" % (g, g[1], e[1])
        if e[4] is not None and tuple(e[4]) != g[4]: return "has the formula %s instead of %s" % (" ".join(g[4]), " ".join(e[4]))
    return None

def cmd(label, o, pa=False):
    q = "show new_proof" if pa else "show proof " + label
    for k, t in (("all", "/all"), ("lemmon", "/lemmon"), ("norep", "/no_repeated_steps"), ("renum", "/renumber"), ("rev", "/reverse"), ("unk", "/unknown")):
        if o.get(k): q += t
    if "col" in o: q += "/start_column %d" % o["col"]
    for k, t in (("from", "/from_step"), ("to", "/to_step"), ("depth", "/depth")):
        if k in o: q += "%s %d" % (t, o[k])
    return q

def options(n, maxd, deep, unknown):
    for a, s, r, v in itertools.product((0, 1), ({}, {"lemmon": 1}, {"lemmon": 1, "norep": 1}, {"lemmon": 1, "col": 9}), (0, 1), (0, 1)):
        o = dict(s)
        if a: o["all"] = 1
        if r: o["renum"] = 1
        if v: o["rev"] = 1
        yield o
        if "col" in o or ("norep" in o and not deep): continue
        sels = [{"depth": d} for d in range(1, maxd + 3)] + ([{"unk": 1}] if unknown else [])
        if not r:
            sels += [{"from": i} for i in range(1, n + 2)] + [{"to": i} for i in range(1, n + 2)]
            if deep or (a and not v): sels += [{"from": i, "to": j} for i in range(1, n + 1) for j in range(max(1, i - 1), n + 1)]
            if deep: sels += [{"from": i, "depth": d} for i in range(1, n + 1) for d in range(1, maxd + 2)]
        for x in sels: yield dict(o, **x)

# ---------------------------------------------------------------- detail of a step
def subst_table(text):
    t = re.search(r"Variable  Substituted with\n((?:     \S+ .*\n?)*)", text)
    return dict((l.split()[0], tuple(l.split()[1:])) for l in t.group(1).split("\n") if l.strip()) if t else {}

def sub_of(db, label, args):
    return {db.labels[h].math[1]: a[1:] for h, a in zip(db.labels[label].mand, args) if db.labels[h].kind == "$f"}

def detail(p, st, i, text):
    """DETAILED_STEP: the step, its hypotheses, its parent and the substitutions"""
    db = p.db; s, kids = p.steps[i]; flat = " ".join(text.split())
    ref = isinstance(s, int); head = "Proof step %d: " % (i + 1)
    want = ["%s%s%s=%s %s %s" % (head, "%d:" % (i + 1) if i in p.refd else "", p.target[i], s + 1 if ref else s, p.kind[i], " ".join(p.form[i]))]
    if ref: want.append('This step assigns step %d (via local label reference "%d")' % (s + 1, s + 1))
    else: want.append('This step assigns source "%s" (%s)' % (s, p.kind[i]))
    q = p.parent[i]
    if q is None: want.append("to the final assertion being proved.")
    else:
        h = db.labels[p.target[i]]
        want.append('to target "%s" (%s).' % (p.target[i], h.kind))
        want.append('The parent assertion of the target hypothesis is "%s" (%s, step %d).' % (p.steps[q][0], p.kind[q], q + 1))
        want.append('The target hypothesis before substitution was: %s %s %s' % (p.target[i], h.kind, " ".join(h.math)))
    if not ref and p.kind[i] in ("$a", "$p"):
        hs = ['"%s" (%s, step %d)' % (h, db.labels[h].kind, k + 1) for h, k in zip(db.labels[s].mand, kids)]
        want.append("The source assertion requires " + ("no hypotheses." if not hs else "the hypothesis %s." % hs[0] if len(hs) == 1 else "the hypotheses %s and %s." % tuple(hs) if len(hs) == 2 else "the hypotheses %s, and %s." % (", ".join(hs[:-1]), hs[-1])))
        want.append("The source assertion before substitution was: %s %s %s" % (s, p.kind[i], " ".join(db.labels[s].math)))
    for w in want:
        if w not in flat: return "does not say %r but %r" % (w, flat)
    parts = re.split(r"The target hypothesis before substitution was:", text)
    if not ref and p.kind[i] in ("$a", "$p"):
        e = sub_of(db, s, [p.form[k] for k in kids]); e = {v: x for v, x in e.items() if v in db.labels[s].math}
        g = {v: x for v, x in subst_table(parts[0]).items()}
        if {v: g.get(v) for v in e} != {v: tuple(x) for v, x in e.items()}: return "has the substitution %s instead of %s for the source" % (g, e)
    if q is not None:
        e = sub_of(db, p.steps[q][0], [p.form[k] for k in p.steps[q][1]]); hm = db.labels[p.target[i]].math
        e = {v: x for v, x in e.items() if v in hm}
        g = subst_table(parts[1])
        if {v: g.get(v) for v in e} != {v: tuple(x) for v, x in e.items()}: return "has the substitution %s instead of %s for the target" % (g, e)
    return None

# ---------------------------------------------------------------- exploration
def cases(maxlen):
    """(expression, steps): every proof, plain and with every choice of shared
    subproofs, and with every subproof replaced by an unknown step."""
    db, st = world()
    alpha = ["fx", "fy", "h.1", "o", "n", "a", "s", "c", "k"]
    out = []
    for seq, expr in enum_proofs.enumerate_proofs(db, st, maxlen, alphabet=alpha):
        if expr[0] != "|-": continue
        t = tree(db, seq)
        out.append((expr, shared(db, t, ()), 0))
        rp = repeated(db, t)
        for k in range(1, len(rp) + 1):
            for ch in itertools.combinations(rp, k):
                s = shared(db, t, ch)
                if any(isinstance(x, int) for x, _ in s) and (expr, s, 1) not in out[-9:]: out.append((expr, s, 1))
        def holes(t):
            yield ("?", ())
            for i, a in enumerate(t[1]):
                for h in holes(a): yield (t[0], t[1][:i] + (h,) + t[1][i + 1:])
        for h in holes(t):
            s = shared(db, h, ())
            out.append((expr, s, 0))
            if repeated(db, h): out.append((expr, shared(db, h, tuple(repeated(db, h))), 1))
    seen, res = set(), []
    for e, s, comp in out:
        key = (e, tuple((x, tuple(k)) for x, k in s), comp)
        if key not in seen: seen.add(key); res.append((e, s, comp))
    return res

def source(group, db, st):
    src = PRE + "${ " + SHELL + "\n"
    for i, (e, s, comp) in enumerate(group):
        vs = [h for h in st.hyps if db.labels[h].kind == "$e" or db.labels[h].math[1] in e or any(db.labels[h].math[1] in db.labels[x].math for x in st.hyps if db.labels[x].kind == "$e")]
        pf = encode(db, vs, s) if comp else " ".join(x for x, _ in s)
        src += "p%d $p %s $= %s $.\n" % (i, " ".join(e), pf)
    return src + "$}\n"

def run(group, deep, pa=False):
    db, st = world()
    src = source(group, db, st)
    cmds, want = [], []
    for i, (e, s, comp) in enumerate(group):
        p = Proof(db, st, "p%d" % i, s)
        hasunk = any(x == "?" for x, _ in s)
        maxd = max(p.depth)
        if pa:
            # the Proof Assistant shows the same complete proof without local labels
            if hasunk: continue
            if comp: p = Proof(db, st, "p%d" % i, plain(s))
            cmds.append("prove p%d" % i); want.append(None)
            for o in options(len(p.steps), maxd, False, False):
                cmds.append(cmd("p%d" % i, o, True)); want.append((i, o))
            cmds.append("_exit_pa/force"); want.append(None)
            continue
        for o in options(len(s), maxd, deep, hasunk):
            cmds.append(cmd("p%d" % i, o)); want.append((i, o))
        if not hasunk:
            for k in range(len(s)):
                cmds.append("show proof p%d/detailed_step %d" % (i, k + 1)); want.append((i, k))
    r = mm.sess(["set width 9999", "read f.mm"] + cmds, {"f.mm": src}, timeout=60)
    parts = mm.split_out(r.out)[4:]
    vs = []; n = 0; ds = set()
    case = lambda i, o: dict(case=[group[i][0], group[i][1], group[i][2]], opt=o, pa=pa)
    if r.crashed or len(parts) < len(cmds):
        return 0, ds, [("session", "a session ends early: %s" % r.out[-300:], dict(group=group, deep=deep, pa=pa))]
    for q, io, x in zip(cmds, want, parts):
        if io is None: continue
        n += 1; i, o = io
        p = Proof(db, st, "p%d" % i, plain(group[i][1]) if pa else group[i][1])
        if isinstance(o, int):
            w = detail(p, st, o, x)
            if w: vs.append(("detail", "%s of %s %s" % (q, " ".join(str(y) for y, _ in group[i][1]), w), case(i, o)))
            continue
        # an incomplete proof is announced before the listing
        k = re.search(r"(?m)^ *\d+ +\S.* \$[aefp?] ", x)
        body = x[k.start():] if k else ""
        rest = x[:k.start()] if k else x
        unk = any(y == "?" for y, _ in group[i][1])
        try: got = parse(body, o)
        except ValueError as err: got = None
        w = "cannot be read: %r" % body[:300] if got is None else same(listing(p, o), got, o)
        if not w and rest.strip() and not unk: w = "also prints %r" % rest
        if w: vs.append(("listing", "%s of %s %s" % (q, " ".join(str(y) for y, _ in group[i][1]), w), case(i, o)))
        else: ds.add(mm.digest(repr((group[i][1], sorted(o.items())))))
        if len(vs) > 4: break
    return n, ds, vs

def j_run(t): return run(*t)

def main(c):
    cs = cases(12 if c.thorough else 10)
    c.add("proofs", len(cs))
    groups = [cs[i:i + 12] for i in range(0, len(cs), 12)]
    for n, ds, vs in mm.pmap(j_run, [(g, c.thorough, pa) for g in groups for pa in (False, True)], stop=c.enough):
        c.add("evaluations", n); c.distinct(ds)
        for v in vs: c.violation(*v)
    for e, s, comp in cs[-1:-40:-9]: c.sample("%s: %s" % (" ".join(e), " ".join(str(x) for x, _ in s)))

def replay(v):
    r = v["replay"]
    if "group" in r: vs = run([(tuple(a), [tuple(x) for x in b], d) for a, b, d in r["group"]], r["deep"], r["pa"])[2]
    else:
        e, s, comp = r["case"]
        vs = [x for x in run([(tuple(e), [tuple(x) for x in s], comp)], True, r["pa"])[2]]
    print(vs[0][1] if vs else "holds")
    return 1 if vs else 0
