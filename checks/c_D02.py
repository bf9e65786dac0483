"""D02: every search pattern over an alphabet of words (symbols, symbols with
character wildcards, any-symbols wildcards) up to a length, in a database with every
short formula, in every mode, against a reference matcher on lists of symbols."""
import itertools, re
import mm
LEVEL = "model_checking"

SYM = ["p", "q", "pq", "-"]
COMMENTS = ["Alpha beta.", "alpha\n   BETA gamma", "Two  blanks", "beta", "al pha", "a.b (c) [D] $ x", "Alphabeta's \"quote\"", "x\n\n\ty", "~ p ` q `", "gamma\ndelta\n\nE"]

def make_db(maxlen, more=()):
    """-> (text, [(no, label, kind, symbols, essential hyps, comment)])"""
    t = "$c |- w - $. $v p q pq $.\n"
    st = []; no = 2
    def add(label, kind, math, hyps=(), comment=None):
        nonlocal t, no
        no += 1
        if comment is not None: t += "$( %s $)\n" % comment
        t += "%s %s %s%s $.\n" % (label, kind, " ".join(math), " $= ?" if kind == "$p" else "")
        st.append((no, label, kind, tuple(math), tuple(hyps), comment))
    def scope(b):
        nonlocal t, no
        no += 1
        t += "${\n" if b else "$}\n"
    for i, v in enumerate(("p", "q", "pq")): add("f" + v, "$f", ("w", v), comment="float %s alpha" % v)
    k = 0
    for n in range(maxlen + 1):
        for x in itertools.product(SYM, repeat=n):
            k += 1
            add("s%d" % k, "$a" if k % 3 else "$p", ("|-",) + x, comment=COMMENTS[k % len(COMMENTS)] if k % 2 else None)
    for i, (a, b, c) in enumerate(itertools.product([("p",), ("q", "-"), ("pq", "p")], repeat=3)):
        scope(True)
        h1, h2 = ("|-",) + a, ("|-",) + b
        add("h%d.1" % i, "$e", h1, comment="hyp Alpha beta" if i % 4 == 0 else None); add("h%d.2" % i, "$e", h2)
        add("h%d" % i, "$p" if i % 2 else "$a", ("|-",) + c, (h1, h2))
        scope(False)
    for i, (a, b, n) in enumerate(itertools.product([("-",), ("-", "-"), ()], [("-",), (), ("-", "p")], (1, 2))):   # the first hypothesis may be a $e
        scope(True)
        hy = [("|-",) + a, ("|-",) + b][:n]
        for j, h in enumerate(hy): add("k%d.%d" % (i, j), "$e", h)
        add("k%d" % i, "$a" if i % 2 else "$p", ("|-", "-") if i % 3 else ("|-",), hy)
        scope(False)
    return t, st

# ---------------------------------------------------------------- reference
def word(w, tok):
    """a word of the pattern against a symbol; ? is any one character"""
    return len(w) == len(tok) and all(a == "?" or a == b for a, b in zip(w, tok))

def found(pat, toks):
    """Is there a run of symbols that the words match?  None is any number of symbols."""
    pos = set(range(len(toks) + 1))
    for w in pat:
        if w is None: pos = set(range(min(pos), len(toks) + 1)) if pos else pos
        else: pos = set(i + 1 for i in pos if i < len(toks) and word(w, toks[i]))
    return bool(pos)

def squash(s): return " ".join(s.split())

def expected(st, pattern, mode):
    """[(no, label, kind, text)]; text None if it is not compared"""
    out = []
    for no, label, kind, math, hyps, comment in st:
        if kind in ("$f", "$e") and "/all" not in mode: continue
        if "/comments" in mode:
            if squash(pattern).upper() in squash(comment or "").upper(): out.append((no, label, kind, None))
            continue
        toks = list(math)
        if "/join" in mode and kind in ("$a", "$p") and hyps:
            toks = sum((["$e"] + list(h) for h in hyps), []) + [kind] + toks
        pat = [None if w in ("$*", "$") else w.replace("$?", "?") for w in pattern.split()]
        if found(pat, toks): out.append((no, label, kind, toks))
    return out

def parse(text):
    out = []
    for l in text.split("\n"):
        if not l.strip(): continue
        m = re.fullmatch(r"(\d+) (\S+) (?:(\$[aefp]) )?(.*)", l)
        out.append((int(m.group(1)), m.group(2), m.group(3), m.group(4)) if m else (0, l, "", ""))
    return out

def judge(st, pattern, mode, text):
    if "no statements" in text.lower(): text = ""
    exp = expected(st, pattern, mode); got = parse(text)
    if [e[:2] for e in exp] != [g[:2] for g in got]:
        a, b = set(e[1] for e in exp), set(g[1] for g in got)
        by = dict((s[1], s) for s in st)
        show = lambda ls: ["%s %s" % (l, " ".join(by[l][3]) if l in by else "") for l in sorted(ls)[:4]]
        return "misses %s, lists %s wrongly" % (show(a - b), show(b - a))
    for e, g in zip(exp, got):
        if e[3] is not None:
            if g[2] and g[2] != e[2] and "/join" not in mode: return "shows %s as %s" % (e[1], g[2])
            sh = ([g[2]] if g[2] and e[3][0] == "$e" else []) + g[3].split()
            if sh != list(e[3]): return "shows %s as %r" % (e[1], g[3])
    return None

def job(t):
    maxlen, pats, mode = t
    text, st = make_db(maxlen)
    quote = lambda p: "'%s'" % p if "'" not in p else '"%s"' % p
    cmds = ["search * %s%s" % (quote(p), mode) for p in pats]
    r = mm.sess(["set width 9999", "read f.mm"] + cmds, {"f.mm": text}, timeout=100)
    parts = mm.split_out(r.out)[4:]
    case = lambda p: dict(maxlen=maxlen, pattern=p, mode=mode)
    if r.crashed or len(parts) < len(cmds): return 0, set(), [("session", "a session ends early: %s" % r.out[-300:], case(pats[0]))]
    vs = []; ds = set()
    for p, x in zip(pats, parts):
        w = judge(st, p, mode, x)
        if w:
            vs.append(("search", "SEARCH * '%s'%s %s" % (p, mode, w), case(p)))
            if len(vs) > 4: break
        elif x.strip(): ds.add(mm.digest(mode + p + str(maxlen)))
    return len(pats), ds, vs

def patterns(depth):
    """every pattern of up to `depth` words, and its spellings for the shorter ones"""
    words = ["p", "q", "pq", "|-", "$*", "$?", "$?$?", "p$?", "$?q"]
    for n in range(1, depth + 1):
        for x in itertools.product(words, repeat=n):
            yield " ".join(x)
            if n <= 3:
                s = [w.replace("$*", "$").replace("$?", "?") for w in x]
                if s != list(x): yield " ".join(s)
            if n in (2, 3): yield "  ".join(x) + " "; yield " " + "\t".join(x)

def texts(deep):
    cs = set()
    for t in COMMENTS + ["float p alpha", "hyp Alpha beta"]:
        t = t.strip()
        for i in range(len(t)):
            for j in range(i + 1, min(len(t), i + (14 if deep else 9)) + 1):
                cs.add(t[i:j].replace("\n", " "))
    cs |= set(s.upper() for s in cs) | set(s.swapcase() for s in cs) | {"zzz", "$*", "alpha  beta", "alph?", "al pha", "alp ha"}
    return sorted(s for s in cs if s.strip() and not ("'" in s and '"' in s))

def main(c):
    deep = c.thorough
    tasks = []
    ps = list(dict.fromkeys(patterns(5 if deep else 4)))
    for mode in ("", "/all", "/join", "/all/join"):
        qs = ps if mode in ("", "/join") or deep else [p for p in ps if len(p.split()) <= 3]
        tasks += [(3, x, mode) for x in mm.chunks(qs, 300)]
    cs = texts(deep)
    for mode in ("/comments", "/all/comments", "/comments/join"): tasks += [(3, x, mode) for x in mm.chunks(cs, 300)]
    for n, ds, vs in mm.pmap(job, tasks, stop=c.enough):
        c.add("evaluations", n); c.distinct(ds)
        for v in vs: c.violation(*v)
    for p in ps[::len(ps) // 6]: c.sample("search * '%s'" % p)

def replay(v):
    r = v["replay"]
    vs = job((r["maxlen"], [r["pattern"]], r["mode"]))[2]
    print(vs[0][1] if vs else "holds")
    return 1 if vs else 0
