"""Label patterns select exactly the matching statements.

A database whose labels are all the short strings over a small alphabet (on $a, $p,
$f and $e statements) is asked, for every pattern over the alphabet with the two
wildcards, every range, numeric form and comma list, which statements match, by
several commands that use patterns; a reference matcher gives the expected set."""
import itertools, re
import mm

LEVEL = "exploration"

def make_db(order):
    """-> (text, [(label, kind, no, pink)])"""
    st = []
    t = "$c w |- $.  $v " + " ".join("v%d" % i for i in range(len(order))) + " $.\n"
    no = 2
    pink = 0
    for i, (l, k) in enumerate(order):
        no += 1
        if k == "$f":
            t += "%s $f w v%d $.\n" % (l, i)
        elif k == "$e":
            t += "%s $e |- w $.\n" % l
        elif k == "$a":
            t += "%s $a |- w w $.\n" % l
        else:
            t += "%s $p |- w w w $= ? $.\n" % l
        if k in ("$a", "$p"):
            pink += 1
        st.append((l, k, no, pink if k in ("$a", "$p") else 0))
    return t, st

ALPHA = ["a", "b"]
SHORT = ["".join(x) for n in (1, 2, 3) for x in itertools.product(ALPHA, repeat=n)]
EXTRA = ["A", "aA", "a.b", "a-b", "a_b", "aabb", "abab", "baab", "aaaa", "abba", "abbab", "bbb.a", "aabab", "0", "10", "1"]
def databases():
    kinds = ["$a", "$p", "$f", "$e", "$p", "$a", "$p"]
    ls = SHORT + EXTRA
    yield make_db([(l, kinds[i % len(kinds)]) for i, l in enumerate(ls)])
    ls = ls[::-1]
    yield make_db([(l, kinds[(i + 3) % len(kinds)]) for i, l in enumerate(ls)])

def glob(pat, s):
    """wildcards, straight from the definition"""
    if not pat:
        return not s
    if pat[0] == "*":
        return any(glob(pat[1:], s[i:]) for i in range(len(s) + 1))
    return bool(s) and (pat[0] == "?" or pat[0] == s[0]) and glob(pat[1:], s[1:])

def match1(p, db, saved=(), proved=None):
    """the set of labels that match one pattern; None for a statement means
    that the documentation leaves it open ($e and $f statements and ranges)"""
    labs = {l: no for l, k, no, pk in db if k in ("$a", "$p")}
    r = set(); may = set()
    if "~" in p:
        a, b = p.split("~", 1)
        lo = labs.get(a) if a else 0
        hi = labs.get(b) if b else 10 ** 9
        if lo is not None and hi is not None:
            for l, k, no, pk in db:
                if lo <= no <= hi:
                    (r if k in ("$a", "$p") else may).add(l)
        return r, may
    if re.fullmatch(r"#\d+", p):
        return set(l for l, k, no, pk in db if no == int(p[1:])), may
    if re.fullmatch(r"@\d+", p):
        return set(l for l, k, no, pk in db if pk and pk == int(p[1:])), may
    if p == "%":
        return set(saved), may
    if p == "=":
        return set([proved] if proved else []), may
    return set(l for l, k, no, pk in db if glob(p, l)), may

def expected(pat, db, kinds, saved=(), proved=None):
    must, may = set(), set()
    for p in pat.split(","):
        r, m = match1(p, db, saved, proved)
        must |= r; may |= m
    ok = set(l for l, k, no, pk in db if k in kinds)
    return must & ok, (must | may) & ok

# ------------------------------------------------------------- commands
def q(pat):
    return "'%s'" % pat
AP = ("$a", "$p"); ALL = ("$a", "$p", "$f", "$e")
CMDS = {
    "labels": (lambda p: "show labels %s/linear" % q(p), AP, lambda o: re.findall(r"^\d+ (\S+) \$[apfe]$", o, re.M)),
    "labels2": (lambda p: "show labels %s" % q(p), AP, lambda o: re.findall(r"(?:^|\s)\d+ (\S+) \$[apfe](?=\s)", o.split("type.\n", 1)[-1])),
    "labels/all": (lambda p: "show labels %s/all/linear" % q(p), ALL, lambda o: re.findall(r"^\d+ (\S+) \$[apfe]$", o, re.M)),
    "search": (lambda p: "search %s 'w'" % q(p), AP, lambda o: re.findall(r"^\d+ (\S+) \$[apfe] ", o, re.M)),
    "search/all": (lambda p: "search %s 'w'/all" % q(p), ALL, lambda o: re.findall(r"^\d+ (\S+) \$[apfe] ", o, re.M)),
    "verify": (lambda p: "verify proof %s" % q(p), ("$p",), lambda o: [x for x in re.split(r"[,\s]+", o.split("not proved:", 1)[1]) if x] if "not proved:" in o else []),
    "proof": (lambda p: "show proof %s" % q(p), ("$p",), lambda o: re.findall(r"^\s*\d+\s+(\S+?)=\?", o, re.M)),
    "usage": (lambda p: "show usage %s" % q(p), None, lambda o: re.findall(r'^Statement "(\S+)" is', o, re.M)),
    "usage/all": (lambda p: "show usage %s/all" % q(p), ALL, lambda o: re.findall(r'^Statement "(\S+)" is', o, re.M)),
    "save": (lambda p: "save proof %s/normal" % q(p), ("$p",), lambda o: re.findall(r'The proof of\s+"(\S+)"', o)),
    "trace": (lambda p: "show trace_back %s" % q(p), ("$p",), lambda o: re.findall(r'The proof of statement "(\S+)"', o)),
}
def patterns(deep):
    one = []
    for n in range(1, 7 if deep else 6):
        for x in itertools.product("ab*?", repeat=n):
            one.append("".join(x))
    return one

def lists(db, deep):
    pool = ["a", "b*", "?", "*b", "ab~ba", "~aa", "b~", "~", "#5", "@3", "nolabel", "", "a?b", "%", "=", "#0", "@0", "#999", "A", "a.*", "**", "1", "#1"]
    for n in (2, 3) if deep else (2,):
        for x in itertools.product(pool, repeat=n):
            yield ",".join(x)
    for x in itertools.product(pool[:7], repeat=3):
        yield ",".join(x)

def ranges(db, deep):
    ls = [l for l, k, no, pk in db]
    for a in ls + ["", "q"]:
        for b in ls + ["", "q"]:
            yield a + "~" + b
    for n in list(range(0, len(ls) + 5)) + [99, 100, 1000, 12345]:
        yield "#%d" % n
        yield "@%d" % n
    yield "a~b~c"
    for l in ls:
        yield l
        yield l.upper()
        yield l + "*"; yield "*" + l; yield l[0] + "*" + l[-1]
        for c in "%=#@~":                  # the characters are special only in their form
            if c in "%=":
                yield l + c; yield c + l

def job(x):
    i, cmds, pats = x
    db = DBS[i]
    viol = []
    n = 0
    for c in cmds:
        mk, kinds, rd = CMDS[c]
        todo = [p for p in pats if c not in ("save",) or "%" not in p]
        out = mm.split_out(mm.sess(["set width 9999", "read a.mm"] + [mk(p) for p in todo] + ["exit", "y"], {"a.mm": db[0]}, timeout=30).out)
        for p, o in zip(todo, out[4:]):
            n += 1
            k = kinds
            if k is None:
                k = AP if re.search(r"[*?,~%]", p) else ALL
            got = rd(o)
            lo, hi = expected(p, db[1], k)
            if kinds is None and not re.search(r"[*?]", p):
                hi = expected(p, db[1], ALL)[1]            # only said for wildcards
                lo = expected(p, db[1], AP)[0]
            g = set(got)
            if not (lo <= g <= hi) or len(got) != len(g):
                viol.append(dict(key="%s %s" % (c, p), what="db %d: %s selects %s instead of %s%s" % (i, mk(p), sorted(g)[:30], sorted(lo)[:30], "" if len(got) == len(g) else " (some twice)"),
                                 i=i, cmd=c, pat=p))
    return dict(n=n, viol=viol, d=set(hash((i, p)) for p in pats))

# % and =: the sessions that save proofs and enter the Proof Assistant
SDB = "$c w |- $. $v x $. x $f w x $.\na $a |- x $. b $p |- x $= x a $. ab $p |- x $= x a $. c $p |- x $= x a $. d $a w w $.\n"
SLIST = [("x", "$f", 3, 0), ("a", "$a", 4, 1), ("b", "$p", 5, 2), ("ab", "$p", 6, 3), ("c", "$p", 7, 4), ("d", "$a", 8, 5)]
def sjob(x):
    seq, pats = x
    cmds = ["set width 9999", "read a.mm"]
    saved, proved = set(), None
    exp = []
    inpa = False
    for op in list(seq) + [None]:
        for p in pats:
            cmds.append("show labels %s/linear" % q(p))
            exp.append((len(cmds), p, set(saved), proved))
        if op is None:
            break
        w, l = op
        if w == "save":
            cmds.append("save proof %s/compressed" % l)
            saved |= set(a for a in ("b", "ab", "c") if glob(l, a))
        elif w == "prove":
            if inpa:
                cmds.append("exit/force")
            cmds.append("prove %s" % l); proved = l; inpa = True
        elif w == "leave":
            if not inpa:
                return dict(n=0, viol=[], d=set())
            cmds.append("exit/force"); inpa = False
        elif w == "write":
            cmds.append("write source o.mm")
        elif w == "new":
            if not inpa:
                return dict(n=0, viol=[], d=set())
            cmds += ["delete all", "save new_proof"]; saved.add(proved)
    out = mm.split_out(mm.sess(cmds + ["exit/force", "exit/force"], {"a.mm": SDB}).out)
    viol = []
    for i, p, s, pr in exp:
        got = set(CMDS["labels"][2](out[i + 1]))
        lo, hi = expected(p, SLIST, AP, s, pr)
        if not lo <= got <= hi:
            viol.append(dict(key="session %s %s" % (seq, p), what="%s: SHOW LABELS %s gives %s instead of %s" % (seq, p, sorted(got), sorted(lo)), seq=seq, pats=pats))
    return dict(n=len(exp), viol=viol, d=set([hash(seq)]))

OPS = [("save", "b"), ("save", "ab"), ("save", "*b"), ("prove", "b"), ("prove", "c"), ("leave", ""), ("new", ""), ("write", "")]
DBS = list(databases())
def tasks(deep):
    main = ["labels", "search/all", "labels/all"]
    every = list(CMDS)
    for i, db in enumerate(DBS):
        ps = patterns(deep)
        for ch in mm.chunks(ps, 100):
            yield job, (i, ["labels/all"] if not deep else main, ch)
        for ch in mm.chunks([p for p in ps if len(p) <= 3 + deep], 60):
            yield job, (i, every, ch)
        for ch in mm.chunks(ranges(db[1], deep), 100):
            yield job, (i, main if not deep else every, ch)
        for ch in mm.chunks(lists(db[1], deep), 100):
            yield job, (i, ["labels/all", "search"] if not deep else every, ch)
        for ch in mm.chunks([x for k, x in enumerate(lists(db[1], False)) if k % 7 == 0], 60):
            yield job, (i, every, ch)
    for n in range(0, 4 if deep else 4):
        for seq in itertools.product(OPS, repeat=n):
            yield sjob, (seq, ["%", "=", "*,=", "%,a", "b*"])

def run(t):
    return t[0](t[1])

def main(c):
    for r in mm.pmap(run, tasks(c.thorough), stop=c.enough):
        c.add("evaluations", r["n"]); c.distinct(r["d"])
        for v in r["viol"]:
            c.violation(v["key"], v["what"], v)
    for p in ("a*b", "ab~ba", "#5,b*", "?*?"):
        c.sample("%s -> %s" % (p, sorted(expected(p, DBS[0][1], ALL)[0])[:12]))

def replay(v):
    v = v["replay"]
    r = job((v["i"], [v["cmd"]], [v["pat"]])) if "pat" in v else sjob((tuple(tuple(x) for x in v["seq"]), v["pats"]))
    for x in r["viol"]:
        print(x["what"])
    return 1 if r["viol"] else 0
