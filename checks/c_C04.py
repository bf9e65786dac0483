"""Proof Assistant commands change only what they are asked to change."""
import itertools, re
import mm, pa, refmm, systems
import c_C02 as c2

LEVEL = "model_checking"
EXTRA = {
    # theorems to expand inside each other, with a hypothesis used twice, one not used, a dummy variable and an incomplete proof
    "nest": (pa.goal(systems.PROP + """
${ a1i.1 $e |- p $. a1i $p |- ( q -> p ) $= wp wq wp wi a1i.1 wp wq ax1 mp $. $}
${ k1 $e |- p $. k2 $e |- q $. k $p |- ( q -> p ) $= wp wq k1 a1i $. $}
${ d1 $e |- p $. d $p |- ( q -> ( r -> p ) ) $= wr wp wi wq wp wr d1 a1i a1i $. $}
${ $v s $. ws $f wff s $. m1 $e |- p $. m $p |- ( q -> p ) $= wp wq wp wi m1 ws wp wq wp wi wi ? ? mp mp $. $}
""", "|- ( q -> ( r -> ( p -> p ) ) )", "wr wp wp wi wi wq wp wp wi wr h1 a1i a1i", "h1 $e |- ( p -> p ) $. "),
             ["k", "d", "m", "h1", "mp"], [], ["p"], 2, 3),
    # texts with several unifications
    "cat": ("""$c A B C wff |- $. $v p q r $. wp $f wff p $. wq $f wff q $. wr $f wff r $. wa $a wff A $. wb $a wff B $. wc $a wff C $. wj $a wff p q $.
${ x1 $e |- p $. x2 $e |- q $. x $a |- p q $. $}
y $a |- p q p $.
${ z1 $e |- q p $. z $a |- p q $. $}
a $a |- A $.
t $p |- A B C $= ? $.
""", ["x", "y", "z", "a", "wj", "wa"], ["|- $1 $2", "|- A $2", "|- $1 B $2"], ["A", "B C", "$1 $2", "$3"], 2, 3),
    "mb": (pa.goal(systems.PROP + """
$( (New usage is discouraged.) $)
a1d $a |- ( p -> ( q -> ( p -> p ) ) ) $.
id $a |- ( p -> p ) $.
""", "|- ( p -> ( q -> ( p -> p ) ) )", "?"),
           ["a1d", "id", "a1d/override", "mp"], ["|- ( $1 -> $2 )"], ["p"], 2, 3),
}
WORLDS = dict(c2.WORLDS)
WORLDS.update(EXTRA)

def work(t):
    return t[0] == "$" and len(t) > 1 and t[1:].isdigit()

# ---- substitutions of working variables

def match(pairs, sub=None, fixed=lambda t: not work(t), minlen=1):
    """-> a substitution with sub(old) = new for every pair, or None"""
    sub = dict(sub or {})
    def go(i, a, b, sub):
        while True:
            if i == len(pairs):
                return sub
            x, y = pairs[i]
            if a == len(x):
                if b != len(y):
                    return None
                i, a, b = i + 1, 0, 0
                continue
            t = x[a]
            if fixed(t):
                if b < len(y) and y[b] == t:
                    a, b = a + 1, b + 1
                    continue
                return None
            if t in sub:
                s = sub[t]
                if list(y[b:b + len(s)]) == s:
                    a, b = a + 1, b + len(s)
                    continue
                return None
            for n in range(minlen, len(y) - b + 1):
                s2 = dict(sub)
                s2[t] = list(y[b:b + n])
                r = go(i, a + 1, b + n, s2)
                if r is not None:
                    return r
            return None
    return go(0, 0, 0, sub)

def unifiers(eqs, limit=4000, empty=False):
    """unification of a system of equations between strings over constants and working variables. -> (solutions, complete?); a solution
    is (values, plain?): not plain when a variable takes a part of another one, which no unification of expressions does"""
    sols, n = [], 0
    todo = [([(tuple(a), tuple(b)) for a, b in eqs], {}, frozenset(), True)]
    while todo:
        n += 1
        if n > limit:
            return sols, False
        es, sub, ext, plain = todo.pop()
        es = [e for e in es if e[0] != e[1]]
        if not es:
            sols.append((sub, plain))
            if len(sols) > 40:
                return sols, False
            continue
        a, b = es[0]
        while a and b and a[0] == b[0]:
            a, b = a[1:], b[1:]
        while a and b and a[-1] == b[-1]:
            a, b = a[:-1], b[:-1]
        if len(a) + len(b) > 60:
            return sols, False
        choices = []
        x, y = a[0] if a else "", b[0] if b else ""
        if not x or not y:
            if not x and not y:
                todo.append((es[1:], sub, ext, plain))
            elif empty and all(work(t) for t in a + b):
                choices = [((a + b)[0], ())]
        else:
            if work(x):
                choices.append((x, (y,)))
                if len(b) > 1 or empty:
                    choices.append((x, (y, x)))
                if empty:
                    choices.append((x, ()))
            if work(y):
                if not work(x):
                    choices.append((y, (x,)))
                if len(a) > 1 or empty:
                    choices.append((y, (x, y)))
                if empty:
                    choices.append((y, ()))
        for v, r in choices:
            f = lambda s: tuple(itertools.chain.from_iterable(r if t == v else (t,) for t in s))
            ns = {k: f(s) for k, s in sub.items()}
            ns.setdefault(v, r)        # a variable keeps its name for the rest of its value
            pl = plain and not (len(r) == 2 and r[0] in ext) and not (len(r) == 1 and v in ext and r[0] in ext)
            e = ext | {v} if len(r) == 2 else (ext - {v} | {r[0]} if len(r) == 1 and v in ext and work(r[0]) else ext)
            todo.append(([(f(p), f(q)) for p, q in [(a, b)] + es[1:]], ns, e, pl))
    return sols, True

class Grammar:
    """expressions of a database; working variables stand for anything. The program leaves out (some) unifications which give a
    variable a value that is not an expression (brackets, first and last constants)."""
    def __init__(self, db):
        self.prod = {}
        for x in db.labels.values():
            if x.kind == "$f":
                self.prod.setdefault(x.math[0], [])
        for x in db.labels.values():
            if x.kind == "$f":
                self.prod[x.math[0]].append((x.math[1],))
            elif x.kind in ("$a", "$p") and x.math[0] in self.prod and x.label != "t" and not any(db.labels[h].kind == "$e" for h in x.mand):
                ty = {db.labels[h].math[1]: db.labels[h].math[0] for h in x.mand}
                self.prod[x.math[0]].append(tuple((ty[t],) if t in ty else t for t in x.math[1:]))
        self.memo = {}
        self.empty = any(x.kind == "$a" and len(x.math) == 1 for x in db.labels.values())
    def derives(self, nt, v):
        k = (nt, v)
        if k not in self.memo:
            self.memo[k] = False       # no left recursion through the same string
            self.memo[k] = len(v) == 1 and work(v[0]) or any(self.seq(p, v) for p in self.prod[nt])
        return self.memo[k]
    def seq(self, p, v):
        if not p:
            return not v
        if not v:
            return False
        if isinstance(p[0], str):
            return v[0] == p[0] and self.seq(p[1:], v[1:])
        return any(self.derives(p[0][0], v[:k]) and self.seq(p[1:], v[k:]) for k in range(1, len(v) - len(p) + 2))
    def expr(self, v):
        return any(self.derives(nt, tuple(v)) for nt in self.prod)

def unifiable(g, a, b):
    """True, False or None (not known)"""
    sols, full = unifiers([(a, b)], empty=g.empty)
    if any(plain and all(g.expr(v) for v in s.values()) for s, plain in sols):
        return True
    return None if sols or not full else False

def fresh(st, tag):
    """math string of an assertion with its variables replaced by new working variables"""
    m = {}
    return lambda s, isvar: [m.setdefault(t, "$%d" % (900000 + 100 * tag + len(m))) if isvar(t) else t for t in s]

# ---- proofs as trees

def tree(rpn, arity):
    st = []
    for s in rpn:
        k = arity(s)
        ch = tuple(st[len(st) - k:]) if k else ()
        if k:
            del st[len(st) - k:]
        st.append((s, ch))
    return st[0] if len(st) == 1 else None

def flat(t):
    return [x for c in t[1] for x in flat(c)] + [t[0]]

def known(t):
    return t[0] != "?" and all(known(c) for c in t[1])

class State:
    def __init__(self, db, listing):
        self.db, self.raw, self.g = db, listing, db.grammar
        self.ls = pa.steps(listing)
        self.rpn = [s[2] for s in self.ls]
        self.t = tree(self.rpn, self.arity)
        self.tg = [s[4] for s in self.ls]
        self.src = [s[5] if s[5] is not None else (s[4] if s[2] != "?" else None) for s in self.ls]
        self.user = [s[6] for s in self.ls]
        self.kids = c2.step_trees(db, db.labels["t"], self.ls)
    def arity(self, s):
        if s == "?":
            return 0
        x = self.db.labels[s]
        return 0 if x.kind in ("$e", "$f") else len(x.mand)
    def size(self, i):
        return 1 + sum(self.size(k) for k in self.kids[i])
    def essential(self):
        """steps that are not inside the subproof of a floating hypothesis"""
        ess = [True] * len(self.rpn)
        def mark(i, e):
            ess[i] = e
            for k in self.kids[i]:
                mark(k, e and self.db.labels[self.ls[k][1]].kind != "$f")
        root = len(self.rpn) - 1
        mark(root, True)
        # the theorem itself is essential even when its hypotheses are not
        return ess
    def unknown(self):
        e = self.essential()
        return [i + 1 for i in range(len(self.rpn)) if self.rpn[i] == "?" and e[i]]

def same_targets(a, b, m, skip=()):
    for i, j in m:
        if i not in skip and a.tg[i] != b.tg[j]:
            return "step %d had the target %s and step %d now has %s" % (i + 1, " ".join(a.tg[i]), j + 1, " ".join(b.tg[j]))
    return None

def instances(a, b, m, extra=(), skip=()):
    """all texts of the old steps are carried over under one substitution of working variables"""
    pr = [(x, y) for x, y in extra]
    for i, j in m:
        if i in skip:
            continue
        pr.append((a.tg[i], b.tg[j]))
        if a.user[i] is not None:
            if b.user[j] is None:
                return "the LET STEP string of step %d is gone" % (i + 1)
            pr.append((a.user[i], b.user[j]))
        elif b.user[j] is not None:
            return "step %d now has a LET STEP string" % (j + 1)
        if a.rpn[i] != "?" and a.rpn[i] == b.rpn[j]:
            pr.append((a.src[i], b.src[j]))
    pr.sort(key=lambda p: (sum(work(t) for t in p[0]), len(p[1])))
    s = match(pr, minlen=0 if a.g.empty else 1)
    if s is None:
        return "the texts of the other steps do not come from the old ones by one substitution of working variables"
    return s

def smap(n, m, s):
    """steps before s (0-based, exclusive) keep their numbers, those after it move"""
    return [(i, i) for i in range(min(s, n))] + [(i, i + m - n) for i in range(s, n)]

def expanded(db, t, label):
    """the tree with every use of label replaced by its proof"""
    st = db.labels[label]
    pf = tree(list(st.proof), lambda s: 0 if s == "?" or db.labels[s].kind in ("$e", "$f") else len(db.labels[s].mand))
    def put(p, env):
        if p[0] in env:
            return env[p[0]]
        if p[0] != "?" and db.labels[p[0]].kind == "$f" and not p[1]:
            return ("?", ())       # a dummy variable
        return (p[0], tuple(put(c, env) for c in p[1]))
    def go(x):
        ch = tuple(go(c) for c in x[1])
        if x[0] != label:
            return (x[0], ch)
        return put(pf, dict(zip(st.mand, ch)))
    return go(t)

def wild(pat, s):
    return re.fullmatch("".join(".*" if ch == "*" else "." if ch == "?" else re.escape(ch) for ch in pat), s) is not None

def rpn_err(b, want, what):
    if b.rpn != want:
        return "%s: the proof should be %s but is %s" % (what, " ".join(want), " ".join(b.rpn))
    return None

def candidate(a, db, s, label):
    """may the statement be assigned to step s? True, False or None (not decided)"""
    st = db.labels["t"]
    if label not in db.labels or db.labels[label].no >= st.no:
        return False
    x = db.labels[label]
    if x.kind in ("$e", "$f"):
        if label not in st.hyps:
            return False
        m = list(x.math)
    else:
        m = fresh(x, 1)(x.math, db.isvar)
    r = unifiable(a.g, m, a.tg[s])
    if a.user[s] is not None:
        r2 = unifiable(a.g, m, a.user[s])
        if r2 is False or r is False:
            return False
        if r is None or r2 is None:
            return None
        # both at once
        sols, full = unifiers([(m, a.tg[s]), (m, a.user[s])], empty=a.g.empty)
        return None if not (full and not sols) else None
    return r

def changed(a, b):
    return a.raw != b.raw

def lost(a, b, m, extra=(), new=()):
    """a solution of the old state which the automatic unification has cut off"""
    eqs = []
    for i in range(len(a.rpn)):
        if a.src[i] is not None and a.src[i] != a.tg[i]:
            eqs.append((a.src[i], a.tg[i]))
        if a.user[i] is not None and a.user[i] != a.tg[i]:
            eqs.append((a.user[i], a.tg[i]))
    eqs += list(extra)
    if not eqs:
        return None
    sols, full = unifiers(eqs, 1500, a.g.empty)
    old = [(a.tg[i], b.tg[j]) for i, j in m] + list(new)
    for s, plain in sols:
        if not plain or not all(a.g.expr(v) for v in s.values()):
            continue
        inst = lambda x: [u for t in x for u in s.get(t, (t,))]
        if match([(bt, inst(at)) for at, bt in old], minlen=0 if a.g.empty else 1) is None:
            return "the unification was not the only one: %s was also possible" % ", ".join("%s = %s" % (k, " ".join(v)) for k, v in sorted(s.items()) if k[1:] < "9")
    return None

def tidy(rep):
    return [l for l in rep.strip("\n").split("\n") if l.strip() and not l.startswith(">>> ?Warning")]

def listed(a, rep, c):
    """the statements which MATCH and UNIFY list are those that fit"""
    for s, ls in re.findall(r"^Step (\d+) matches statements:  (.*)$", rep, re.M):
        ls, s = ls.split(), int(s)
        if s > len(a.rpn) or "all" in c or a.rpn[s - 1] != "?":
            continue
        for l in a.db.labels:
            if a.db.labels[l].no >= a.db.labels["t"].no:
                continue
            ok = candidate(a, a.db, s - 1, l)
            if l in a.db.disc:
                ok = False
            if ok is False and l in ls:
                return "MATCH lists %s, which cannot be unified with step %d" % (l, s)
            if ok is True and l not in ls:
                return "MATCH does not list %s, which can be unified with step %d" % (l, s)
    return None

def effect(wname, c, rep, a, b):
    """-> what is wrong with the effect of the command, or None"""
    db = a.db
    n = len(a.rpn)
    lines = tidy(rep)
    cmd = c.split("\n")[0]
    w = cmd.split("/")[0].split()
    opts = cmd.split("/")[1:]
    ml = listed(a, rep, c)
    if ml:
        return ml
    refused = bool(lines) and lines[0].lstrip("> ").startswith("?") and not lines[0].startswith(("?Error in step", "?Warning"))
    def step(x):
        """step number meant by an argument, or None if there is none"""
        u = a.unknown()
        x = x.lower()
        if re.fullmatch(r"\d+", x):
            return int(x) if 1 <= int(x) <= n else None
        k = None
        if x == "first"[:len(x)]: k = 0
        elif x == "last"[:len(x)]: k, u = 0, u[::-1]
        elif re.fullmatch(r"\+\d+", x): k = int(x)
        elif re.fullmatch(r"-\d+", x): k, u = int(x[1:]), u[::-1]
        return u[k] if k is not None and k < len(u) else None
    if refused and changed(a, b):
        return "the command was refused (%s) but the proof has changed" % lines[0]
    if w[0] == "assign" or (w[0] == "match" and "\n" in c):
        if w[0] == "match":
            s, label = step(w[2]), c.split("\n")[1].split("/")[0]
            if not label or a.rpn[s - 1] != "?" or "What statement to select" not in rep:
                r = rpn_err(b, a.rpn, "MATCH without a selection")
                if r:
                    return r
                r = instances(a, b, [(i, i) for i in range(n)])
                return r if isinstance(r, str) else None
            if a.rpn == b.rpn:
                return None
        else:
            s, label = step(w[1]), w[2]
        if s is None or a.rpn[s - 1] != "?":
            return None if refused else "ASSIGN to a step that does not exist or is known was not refused"
        if not refused or w[0] == "assign":
            ok = candidate(a, db, s - 1, label)
            if label in db.disc and "override" not in c:
                ok = False
            if ok is False and not refused:
                return "%s cannot be unified with step %d but was assigned" % (label, s)
            if ok is True and refused:
                return "%s can be unified with step %d but was refused" % (label, s)
        if refused:
            return None
        k = a.arity(label)
        r = rpn_err(b, a.rpn[:s - 1] + ["?"] * k + [label] + a.rpn[s:], "step %d assigned" % s)
        if r:
            return r
        m = smap(n, len(b.rpn), s - 1)
        r = instances(a, b, m)
        if isinstance(r, str):
            return r
        if "/no_unify" in c or "Accept (A)" not in rep:
            x = db.labels[label]
            fr = fresh(x, 1) if x.kind not in ("$e", "$f") else lambda t, f: list(t)
            m1 = fr(x.math, db.isvar)
            hyps = [(fr(db.labels[h].math, db.isvar), b.tg[s - 1 + i]) for i, h in enumerate(x.mand if k else ())]
            ex = [(m1, a.tg[s - 1])] + ([(m1, a.user[s - 1])] if a.user[s - 1] is not None else [])
            # a unifier that gives a variable of the statement a part of a working
            # variable is none the program looks for, so the hypotheses count only
            # for a step that is completely known
            ground = not any(t[:1] == "$" and t[1:].isdigit() for t in a.tg[s - 1])
            return lost(a, b, m, ex, hyps if ground else ())
        return None
    if w[0] == "delete":
        if w[1] == "step" or w[1] == "all":
            s = (int(w[2]) if 1 <= int(w[2]) <= n else None) if w[1] == "step" else n
            if s is None or a.rpn[s - 1] == "?":
                return None if refused else "DELETE of an unknown or missing step was not refused"
            if refused:
                return "DELETE was refused: %s" % lines[0]
            q = a.size(s - 1)
            r = rpn_err(b, a.rpn[:s - q] + ["?"] + a.rpn[s:], "step %d deleted" % s)
            if r:
                return r
            m = [(i, i) for i in range(s - q)] + [(i, i - q + 1) for i in range(s - 1, n)]
            r = same_targets(a, b, m)
            if r:
                return r
            for i, j in m:
                if a.user[i] != b.user[j] and i != s - 1 or (i != s - 1 and a.src[i] != b.src[j]):
                    return "step %d has changed" % (i + 1)
            return None
        fl = lambda t, f: ("?", ()) if f else (t[0], tuple(fl(ch, db.labels[h].kind == "$f") for ch, h in zip(t[1], db.labels[t[0]].mand if t[1] else ())))
        want = flat(fl(a.t, False))
        if want == a.rpn:
            return None if not changed(a, b) else "there was nothing to delete but the proof has changed"
        if refused:
            return "DELETE FLOATING_HYPOTHESES was refused"
        r = rpn_err(b, want, "floating hypotheses deleted")
        if r:
            return r
        # the essential steps keep their texts
        ea, eb = a.essential(), b.essential()
        for i, j in zip([i for i in range(n) if ea[i]], [j for j in range(len(b.rpn)) if eb[j]]):
            if (a.tg[i], a.src[i], a.user[i]) != (b.tg[j], b.src[j], b.user[j]):
                return "step %d has changed" % (i + 1)
        return None
    if w[0] == "initialize":
        if refused:
            return None if w[1] == "step" and not 1 <= int(w[2]) <= n else "INITIALIZE was refused"
        r = rpn_err(b, a.rpn, cmd)
        if r:
            return r
        if w[1] == "user":
            if any(u is not None for u in b.user):
                return "a LET STEP string remains"
            return same_targets(a, b, [(i, i) for i in range(n)]) or ("a source has changed" if a.src != b.src else None)
        if w[1] == "all":
            if a.user != b.user and [None if u is None else len(u) for u in a.user] != [None if u is None else len(u) for u in b.user]:
                return "a LET STEP string has changed"
            # every LET VARIABLE assignment and unification of steps that are not completely known is void
            for i in range(n):
                if a.rpn[i] == "?" or known(subtree(a, i)):
                    continue
                x = db.labels[a.rpn[i]]
                inst = {db.labels[h].math[1]: None for h in x.mand if db.labels[h].kind == "$f"}
                for h, k in zip(x.mand, a.kids[i]):
                    if db.labels[h].kind == "$f" and not known(subtree(a, k)) and not (len(b.tg[k]) == 2 and work(b.tg[k][1])):
                        if not any(known(subtree(a, k2)) for k2 in a.kids[i]):
                            return "step %d still has the target %s" % (k + 1, " ".join(b.tg[k]))
            return None
        s = int(w[2]) - 1
        if b.user[s] is not None:
            return "the LET STEP string of step %d remains" % (s + 1)
        for i in range(n):
            if i != s and i not in a.kids[s] and (a.tg[i], a.user[i]) != (b.tg[i], b.user[i]):
                return "step %d has changed" % (i + 1)
            if i != s and a.src[i] != b.src[i]:
                return "step %d has another source" % (i + 1)
            if i in a.kids[s] and a.user[i] != b.user[i]:
                return "the LET STEP string of step %d has changed" % (i + 1)
        if a.tg[s] != b.tg[s]:
            return "the target of step %d has changed" % (s + 1)
        return None
    if w[0] == "unify" or w[0] == "let":
        r = rpn_err(b, a.rpn, cmd)
        if r:
            return r
        m = [(i, i) for i in range(n)]
        if w[0] == "unify":
            if refused:
                return None
            s = instances(a, b, m)
            if isinstance(s, str):
                return s
            if "Accept (A)" not in rep:
                return lost(a, b, m)
            # what was accepted is what was shown
            for blk in re.findall(r"Unification #\d+ of \d+[^\n]*\n((?:(?!Accept \(A\)).*\n)*).*Accept \(A\)[^\n]*?\? (?=a)", rep):
                pass
            return None
        text = re.search(r"= '(.*)'", cmd).group(1).split()
        if w[1] == "variable":
            v = w[2]
            if refused or "?Warning" in rep:
                return None
            # LET VARIABLE means exactly this value; unification may then give values to more variables
            put = lambda x: [u for t in x for u in (text if t == v else [t])]
            pr = [(put(x), y) for i in range(n) for x, y in ((a.tg[i], b.tg[i]), (a.user[i] or [], b.user[i] or [])) + (((a.src[i], b.src[i]),) if a.src[i] else ())]
            pr.sort(key=lambda p: (sum(work(t) for t in p[0]), len(p[1])))
            if match(pr, minlen=0 if a.g.empty else 1) is None:
                return "the texts are not the old ones with %s for %s" % (" ".join(text), v)
            return None
        s = step(w[2])
        if s is None:
            return None if refused else "LET STEP for a step that does not exist was not refused"
        if any(t not in db.symbols and not work(t) for t in text):
            return None if refused else "LET STEP accepts an unknown symbol"
        ok = unifiable(a.g, text, a.tg[s - 1])
        if a.src[s - 1] is not None:
            o2 = unifiable(a.g, text, a.src[s - 1])
            ok = False if ok is False or o2 is False else (True if ok and o2 else None)
        if ok is False and not refused:
            return "LET STEP accepts a text that cannot be unified with step %d" % s
        if ok is True and refused:
            return "LET STEP refuses a text that can be unified with step %d" % s
        if refused:
            return None
        if b.user[s - 1] is None:
            return "step %d has no LET STEP string" % s
        a2 = State.__new__(State)
        a2.__dict__.update(a.__dict__)
        a2.user = list(a.user)
        a2.user[s - 1] = text
        r = instances(a2, b, m)
        if isinstance(r, str):
            return r
        return lost(a2, b, m)
    if w[0] == "replace":
        s, label = step(w[1]), w[2]
        if refused:
            return None
        if s is None:
            return "REPLACE of a step that does not exist was not refused"
        if not changed(a, b):
            return None
        q = a.size(s - 1)
        return partial(a, b, s, q, label, "REPLACE")
    if w[0] == "improve" and w[1] != "all":
        s = step(w[1])
        if s is None:
            return None if refused else "IMPROVE of a step that does not exist was not refused"
        if refused or "was not found" in rep:
            if not refused and wname in ("mp", "long", "nest", "mb") and a.tg[s - 1][0] == "wff" and wff(a.tg[s - 1][1:]):
                return "no proof of %s was found" % " ".join(a.tg[s - 1])
            return "the proof has changed" if changed(a, b) else None
        q = a.size(s - 1)
        r = partial(a, b, s, q, None, "IMPROVE")
        if r:
            return r
        new = subtree(b, s - 1 + len(b.rpn) - n)
        mo = re.search(r"A (\d+)-step proof was found for step (\d+)", rep)
        k = len(flat(new))
        if not mo or (int(mo.group(1)), int(mo.group(2))) != (len(b.rpn) - n + 1 if q == 1 else int(mo.group(1)), s):
            return "the message does not fit: %s" % lines[0]
        if q == 1 and int(mo.group(1)) != k:
            return "%d steps were added, not %s" % (k, mo.group(1))
        return searched(a, new, opts)
    if w[0] == "improve":
        if "/subproofs" in cmd:
            free = lambda i: not known(subtree(a, i))
        else:
            free = lambda i: a.rpn[i] == "?" or (not known(subtree(a, i)) and a.src[i] != a.tg[i])
        bad = []
        def cmp(i, j):
            x, y = a.rpn[i], b.rpn[j]
            if x == y == "?" and wname in ("mp", "long", "nest", "mb") and a.tg[i][0] == "wff" and wff(a.tg[i][1:]):
                bad.append("no proof of %s was found for step %d" % (" ".join(a.tg[i]), i + 1))
            if free(i) and known(subtree(b, j)):
                if x == "?":
                    r = searched(a, subtree(b, j), opts)
                    if r:
                        bad.append(r)
                return
            if x != y:
                bad.append("step %d (%s) has become %s" % (i + 1, x, y))
                return
            for p, q in zip(a.kids[i], b.kids[j]):
                cmp(p, q)
        cmp(n - 1, len(b.rpn) - 1)
        if bad:
            return bad[0]
        if a.rpn == b.rpn and a.tg != b.tg and match([(x, y) for x, y in zip(a.tg, b.tg)], minlen=0 if a.g.empty else 1) is None:
            return "the targets have changed"
        return None
    if w[0] == "expand":
        t = a.t
        for l in sorted((x for x in db.labels if db.labels[x].kind == "$p" and db.labels[x].no < db.labels["t"].no), key=lambda x: -db.labels[x].no):
            if wild(w[1], l):
                t = expanded(db, t, l)
        if t == a.t:
            return "nothing was to be expanded but the proof has changed" if a.rpn != b.rpn else None
        return rpn_err(b, flat(t), cmd)
    return None

def wff(s):
    """is it a formula of PROP over its variables?"""
    def f(i):
        if i >= len(s):
            return None
        if s[i] in ("p", "q", "r"):
            return i + 1
        if s[i] == "-.":
            return f(i + 1)
        if s[i] == "(":
            j = f(i + 1)
            if j is None or j >= len(s) or s[j] != "->":
                return None
            j = f(j + 1)
            return j + 1 if j is not None and j < len(s) and s[j] == ")" else None
        return None
    return f(0) == len(s)

def subtree(a, i):
    return (a.rpn[i], tuple(subtree(a, k) for k in a.kids[i]))

def partial(a, b, s, q, label, what):
    """only the subproof of step s is new"""
    n, m = len(a.rpn), len(b.rpn)
    if b.rpn[:s - q] != a.rpn[:s - q] or b.rpn[m - (n - s):] != a.rpn[s:]:
        return "%s of step %d has changed another step: %s -> %s" % (what, s, " ".join(a.rpn), " ".join(b.rpn))
    j = m - (n - s) - 1
    if b.size(j) != j + 1 - (s - q):
        return "%s: the new subproof does not have the right length" % what
    t = subtree(b, j)
    if label is not None and t[0] != label:
        return "%s used %s" % (what, t[0])
    mp = [(i, i) for i in range(s - q)] + [(i, i + m - n) for i in range(s, n)]
    if not known(t):
        return "%s: the subproof is not complete: %s" % (what, " ".join(flat(t)))
    if what == "REPLACE":
        # the texts of what is now completely known are those of its proof
        mp = [(i, j) for i, j in mp if not known(subtree(b, j)) and not any(j in b.kids[k] and all(known(subtree(b, x)) for x in b.kids[k]) for k in range(m))]
    r = instances(a, b, mp)
    if isinstance(r, str):
        return r
    return None

def subtrees(t):
    yield t
    for c in t[1]:
        for x in subtrees(c):
            yield x

def searched(a, new, opts):
    """a proof found by IMPROVE without qualifiers uses statements without $e hypotheses and subproofs that are already there"""
    o = [x.strip() for x in opts]
    db = a.db
    for l in flat(new):
        if l in db.disc and "override" not in o and l not in a.rpn:
            return "IMPROVE used %s, whose use is discouraged" % l
    if any(x in ("2", "3") or x.startswith("depth") for x in o):
        return None
    have = set(subtrees(a.t))
    def ok(t):
        if t in have:
            return True
        x = db.labels[t[0]]
        if x.kind in ("$a", "$p") and any(db.labels[h].kind == "$e" for h in x.mand):
            return False
        return all(ok(c) for c in t[1])
    if not ok(new):
        return "IMPROVE used a statement with hypotheses: %s" % " ".join(flat(new))
    return None

def alphabet(wname, a):
    labels = WORLDS[wname][1]
    lets = WORLDS[wname][2]
    r = [x for x in c2.commands(wname, a.raw, a.ls) if not x.startswith(("minimize", "undo"))] if wname in c2.WORLDS else None
    if r is None:
        c2.WORLDS[wname] = WORLDS[wname]
        r = [x for x in c2.commands(wname, a.raw, a.ls) if not x.startswith(("minimize", "undo"))]
    n = len(a.rpn)
    u = a.unknown()
    kn = [i + 1 for i in range(n) if a.rpn[i] != "?"]
    rel = ["+%d" % i for i in range(len(u) + 1)] + ["-%d" % i for i in range(len(u) + 1)] + ["first", "last", "0", str(n + 1)]
    e = [l for l in labels if l in a.db.labels]
    for x in rel:
        for l in e[:2]:
            r.append("assign %s %s/no_unify" % (x, l))
        r.append("improve %s" % x)
        for l in e[:1]:
            r.append("replace %s %s" % (x, l))
        if lets:
            r.append("let step %s = '%s'" % (x, lets[0]))
    for s in kn[:2]:
        r.append("assign %d %s/no_unify" % (s, e[0]))
        if lets:
            r.append("let step %d = '%s'" % (s, lets[0]))
    for s in [u[0]] if u else []:
        r += ["delete step %d" % s, "assign %d nolabel" % s, "assign %d t" % s, "let step %d = '$9 nosuch'" % s]
    r += ["delete step 0", "delete step %d" % (n + 1), "initialize step 0", "initialize step %d" % (n + 1), "expand a*", "expand ?", "expand nolabel"]
    return list(dict.fromkeys(r))

def refs(wname):
    db = refmm.Db(WORLDS[wname][0])
    txt, disc = WORLDS[wname][0], set()
    for x in db.labels:
        m = re.search(r"\$\(((?:(?!\$\)).)*)\$\)\s+%s\s" % re.escape(x), txt, re.S)
        if m and "usage is discouraged" in m.group(1):
            disc.add(x)
    db.disc = disc
    db.grammar = Grammar(db)
    db.symbols = set(t for x in db.labels.values() for t in x.math)
    return db

def probe(wname, path, cmds):
    lines = ["set width 9999", "read a.mm"]
    pos = []
    for c in cmds:
        lines.append("prove t")
        lines += path
        pos.append(len(lines))
        lines += [c, pa.SHOW, "exit/force"]
    r = mm.sess(lines + ["exit/force"], {"a.mm": WORLDS[wname][0]}, timeout=120)
    o = mm.split_out(r.out)[2:]
    if r.status != 0 or len(o) < len(lines):
        return r, None
    return r, [(o[k], o[k + 1]) for k in pos]

def one(wname, path, c):
    """reply and listing of a command which may ask questions (answers on further lines)"""
    lines = ["set width 9999", "read a.mm", "prove t"] + path + [c, pa.SHOW, "exit/force", "exit/force"]
    r = mm.sess(lines, {"a.mm": WORLDS[wname][0]}, timeout=60)
    o = mm.split_out(r.out)
    if r.status != 0 or len(o) < 5:
        return r, None
    return r, (o[-4], o[-3])

def judge(wname, db, a, c, rep, li):
    if "?BUG CHECK" in rep.upper():
        return "bug check: %s" % rep, None
    try:
        b = State(db, li)
    except (refmm.RefError, ValueError, IndexError, KeyError) as e:
        return "unreadable state (%s):\n%s" % (e, li), None
    return effect(wname, c, rep, a, b), b

def expand(j):
    wname, path, listing = j
    db = refs(wname)
    res = dict(viol=[], succ=[], tr=0, w=wname, path=path, moved=0)
    try:
        a = State(db, listing)
    except (refmm.RefError, ValueError, IndexError, KeyError):
        return res
    if len(a.rpn) > 45:
        return res
    seen = {pa.canon(listing)}
    cmds = alphabet(wname, a)
    r, out = probe(wname, path, cmds)
    if out is None:
        out = []
        for c in cmds:
            r, x = probe(wname, path, [c])
            if x is None:
                res["viol"].append((path + [c], "abnormal end, status %d: %s" % (r.status, r.out[-400:])))
                return res
            out.append(x[0])
    todo = list(zip(cmds, out))
    for ans in c2.interactive(wname, a.ls):
        nans, c = len(ans) - 1, "\n".join(ans)
        r, x = one(wname, path, c)
        if len(re.findall("Accept \\(A\\)|What statement to select", r.out)) - sum(p.count("\n") for p in path) != nans or x is None:
            continue
        todo.append((c, x))
    for c, (rep, li) in todo:
        res["tr"] += 1
        w, b = judge(wname, db, a, c, rep, li)
        if w:
            if len(res["viol"]) < 2:
                res["viol"].append((path + [c], w + "\nbefore:\n%s\nafter:\n%s" % (listing, li)))
            continue
        if li != listing:
            res["moved"] += 1
        k = pa.canon(li)
        if k not in seen:
            seen.add(k)
            res["succ"].append((path + [c], li))
    return res

def main(c):
    c.cov["rule"] = ("breadth-first exploration of the states of the Proof Assistant in %d worlds (canonical listings); from each state every command of the alphabet (absolute, relative, "
                     "missing and known steps x labels, LET, IMPROVE, REPLACE, DELETE, INITIALIZE, UNIFY and MATCH with answers, EXPAND) is executed by the program, and the proof and the "
                     "texts of all steps afterwards are compared with what the command is allowed to change" % len(WORLDS))
    seen, level = set(), []
    for w in WORLDS:
        r, res = probe(w, [], ["unify all"])
        if not res:
            c.violation("init-" + w, "world %s: %s" % (w, r.out[-500:]), dict(w=w, path=["unify all"]))
            continue
        level.append((w, [], res[0][1]))
        seen.add((w, pa.canon(res[0][1])))
    depth = 0
    while level and not len(c.viol) > 10:
        depth += 1
        nxt = []
        for r in mm.pmap(expand, level, stop=c.enough):
            c.add("transitions", r["tr"]); c.add("traces_validated_against_impl", r["tr"]); c.add("commands_with_an_effect", r["moved"])
            for p, w in r["viol"]:
                c.violation(mm.digest(r["w"] + str(p)), "%s %s: %s" % (r["w"], p, w), dict(w=r["w"], path=p))
            lim = WORLDS[r["w"]][5 if c.thorough else 4]
            for p, li in r["succ"]:
                k = (r["w"], pa.canon(li))
                if k not in seen:
                    seen.add(k)
                    if depth < lim:
                        nxt.append((r["w"], p, li))
            if r["succ"] and len(c.samples) < 6:
                c.sample("%s: %s" % (r["w"], r["succ"][-1][0]))
        nxt.sort(key=lambda x: (x[0], x[1]))
        level = nxt
        c.cov["states_at_depth_%d" % depth] = len(nxt)
    c.cov["states"] = len(seen)
    c.cov["exhaustive"] = True

def replay(v):
    v = v["replay"]
    w, path = v["w"], v["path"]
    db = refs(w)
    r0, x0 = one(w, path[:-1] + ["unify step 0"][:0], path[-1]) if False else (None, None)
    r1, s1 = one(w, path[:-1], pa.SHOW)
    r2, s2 = one(w, path[:-1], path[-1])
    print(r2.out)
    if s1 is None or s2 is None:
        print("abnormal end")
        return 1
    a = State(db, s1[1])
    x, b = judge(w, db, a, path[-1], s2[0], s2[1])
    print(x or "holds")
    return 1 if x else 0
