"""Splitting and merging source files is lossless.

Model: for every file of the inclusion structure its logical text (what it
contained, with the proofs saved since).  Operations are read, save, write
merged, write merged keeping the included files, write split.  Every operation
sequence up to the depth is run on the real program and the directory is
compared with the model."""
import itertools, re
import mm, refmm, proofs
from c_B01 import lists

LEVEL = "model_checking"

NAMES = ["a.mm", "b.mm", "d.mm"]
# file names of which one is the beginning of another
NAMESETS = {"names1": ["a.mm", "b.mmx", "b.mm"], "names2": ["a.mm", "b.mm", "b.mmx"], "names3": ["a.mm", "a.mmb", "a.mm-d"]}
HEAD = "$c w |- ( $. $v x $. fx $f w x $. ax $a |- x $. ${ h $e |- x $. i $a |- ( x $. $}"
FORM = {0: " fx fx ax i ", 1: "\n  ( ax i ) AABC ", 2: "\n  fx fx ax i "}

OPS = {"R": ["erase", "read a.mm"], "W": ["write source a.mm"], "K": ["write source a.mm/keep_includes"],
       "S": ["write source a.mm/split"], "V": ["write source a.mm/split/no_versioning"],
       "D": ["write source a.mm/no_versioning"],
       "p": ["save proof tb/compressed", "save proof tb/normal"], "q": ["save proof ta/compressed", "save proof ta/normal"],
       "r": ["save proof td/compressed", "save proof td/normal"]}

def thm(c, form):
    return "t%s $p |- ( x $=%s$." % (c, FORM[form])

def build(graph, sep, endnl, extra, form):
    """texts of the files; form: {letter: proof form}"""
    out = {}
    for i, tg in enumerate(graph):
        c = "abd"[i]
        items = [HEAD] if i == 0 else []
        if extra == "cmt":
            items.append("$( about %s (Contributed by X, 1-Jan-2020.) $)" % c)
        items.append(thm(c, form[c]))
        for k, t in enumerate(tg):
            if extra == "scope":
                items.append("${")
            items.append("$[ %s $]" % NAMES[t])
            if extra != "adjacent":
                items.append("%s%d $a w x $." % (c, k + 1))
            if extra == "scope":
                items.append("$}")
        if extra == "lastincl" and len(tg):
            items = items[:-1]
        if extra == "first" and i:
            items = items[1:] + items[:1]
        out[NAMES[i]] = sep.join(items) + ("\n" if endnl else "")
    return out

def norm(t):
    return t if t.endswith("\n") else t + "\n"

def reach(graph):
    """files reachable from main (main first)"""
    seen = [0]
    todo = [0]
    while todo:
        for t in graph[todo.pop(0)]:
            if t not in seen:
                seen.append(t); todo.append(t)
    return seen

BEG = re.compile(r"\$\( Begin \$\[ (\S+) \$\] \$\)\s")
def unmerge(text, me, out):
    """reference split of a merged text -> {file: text}"""
    res = ""
    while True:
        m = BEG.search(text)
        s = re.search(r"\$\( Skip \$\[ (\S+) \$\] \$\)", text)
        if s and (not m or s.start() < m.start()):
            res += text[:s.start()] + "$[ %s $]" % s.group(1)
            text = text[s.end():]
            continue
        if not m:
            break
        e = text.index("$( End $[ %s $] $)" % m.group(1), m.end())
        unmerge(text[m.end():e], m.group(1), out)
        res += text[:m.start()] + "$[ %s $]" % m.group(1)
        text = text[e + len("$( End $[ %s $] $)" % m.group(1)):]
    out[me] = res + text
    return out

TR = [set(), set()]
def case(graph, sep, endnl, extra, seq):
    NAMES[:] = NAMESETS.get(extra, ["a.mm", "b.mm", "d.mm"])
    form = {"a": 0, "b": 0, "d": 0}
    files = build(graph, sep, endnl, extra, form)
    rc = reach(graph)
    if set(seq) & set("SV") and any(0 in graph[i] for i in rc):
        return None, 0          # the program refuses to split a file that includes itself
    cmds = ["read a.mm"]
    st = lambda: (graph, tuple(mem.values()), tuple(ondisk.values()), merged)
    tog = {"a": 0, "b": 0, "d": 0}
    disk = dict(files)              # model of the directory: name -> text
    mem = dict(form)                # proof forms in memory
    merged = None                   # None = a.mm split on disk
    ondisk = dict(form)
    cur = st()
    TR[0].add(cur)
    for o in seq:
        old = cur
        if o in "pqr":
            c = {"p": "b", "q": "a", "r": "d"}[o]
            if "abd".index(c) not in rc:
                return None, 0
            cmds.append(OPS[o][tog[c]])
            mem[c] = 1 + tog[c]
            tog[c] ^= 1
        else:
            cmds += OPS[o]
            if o == "R":
                mem = dict(ondisk)
                # (the toggles go on; a save always rewrites the proof)
            else:
                ondisk = dict(mem)
                merged = o in "WKD"
        cur = st()
        TR[0].add(cur); TR[1].add((old, o, cur))
    r = mm.sess([c if c != "erase" else "erase" for c in _answers(cmds)] + ["verify proof *", "exit", "y"], files)
    if r.status != 0:
        return "status %d: %s" % (r.status, r.out[-400:]), 1
    if re.search(r"^\?(?!Warning)", r.out.replace("?No ", ""), re.M) and "?Expected DBG" not in r.out:
        return "error message: %s" % re.search(r"^\?.*", r.out, re.M).group(0), 1
    if "All proofs in the database were verified" not in r.out:
        return "the database does not verify at the end", 1
    d = mm.server().ls()
    logical = {n: norm(t) for n, t in build(graph, sep, endnl, extra, ondisk).items()}
    used = [NAMES[i] for i in rc]
    if merged is None:
        if d != files:
            return "files changed although nothing was written", 1
        return None, 1
    if "a.mm" not in d:
        return "no a.mm", 1
    if merged:
        got = unmerge(d["a.mm"], "a.mm", {})
    else:
        got = {n: norm(d[n]) for n in used if n in d}
    for n in used:
        if n not in got:
            return "%s is lost" % n, 1
        if got[n] != logical[n]:
            return "%s is %r, expected %r" % (n, got[n], logical[n]), 1
    for i, n in enumerate(NAMES):
        if i not in rc and d.get(n) != files[n]:
            return "%s was not part of the database but changed" % n, 1
    # nothing is lost: the original of every file still exists somewhere
    if not set(seq) & set("VD"):
        for n in NAMES:
            if not any(norm(d[x]) == norm(files[n]) for x in d if x == n or x.startswith(n + "~")):
                return "the original contents of %s are gone" % n, 1
    # the last write decides which included files exist
    w = [o for o in seq if o in "WKSVD"]
    if w[-1] in "WD":
        for n in used[1:]:
            if n in d:
                return "%s still exists after a merged write" % n, 1
    if not set(seq) & set("pqr") and not set(w) & set("WD"):
        for n in used[1:]:
            if d[n] != files[n] or n + "~1" in d:
                return "%s was rewritten although its content did not change" % n, 1
    return None, 1

def _answers(cmds):
    """ERASE asks when there are unsaved changes"""
    out = []
    dirty = False
    for c in cmds:
        out.append(c)
        if c.startswith("save"):
            dirty = True
        elif c.startswith("write"):
            dirty = False
        elif c == "erase":
            if dirty:
                out.append("y")
            dirty = False
    return out

def job(items):
    n = 0
    viol = []
    for it in items:
        w, k = case(*it)
        n += k
        if w and len(viol) < 2:
            viol.append(dict(item=list(it), what="%s %s: %s" % (build(it[0], it[1], it[2], it[3], {"a": 0, "b": 0, "d": 0}), it[4], w)))
    a, b = TR
    TR[:] = [set(), set()]
    return dict(n=n, viol=viol, st=set(hash(x) for x in a), tr=set(hash(x) for x in b), sample=str(items[len(items) // 2])[:300])

HAND = [((1,), (2,), ()), ((1, 2), (), ()), ((1, 1), (), ()), ((1, 2), (2,), ()), ((2, 1), (), (1,)), ((1,), (1, 2), (0,)), ((1,), (2,), (1,))]
def gen(deep):
    for g in HAND:
        for d in range(1, 6 if deep else 5):
            for s in itertools.product("RWKSpq", repeat=d):
                yield g, "\n", True, "", s
        for extra in NAMESETS:
            for d in range(1, 4 if deep else 3):
                for s in itertools.product("RWSKpVD", repeat=d):
                    yield g, "\n", True, extra, s
        for sep in ("\n", " ", "\n\n"):
            for endnl in (True, False):
                for extra in ("", "cmt", "scope", "adjacent", "lastincl", "first"):
                    for d in range(1, 5 if deep else 3):
                        for s in itertools.product("RWSpV" if deep else "RWSKpVD", repeat=d):
                            yield g, sep, endnl, extra, s
    for g in itertools.product(lists(range(3), 2), lists(range(3), 2 if deep else 1), lists(range(3), 1)):
        for s in (("S",), ("W",), ("p", "S"), ("W", "R", "S"), ("W", "S"), ("S", "R", "W"), ("r", "W", "R", "p", "S"), ("p", "S", "R", "q", "W", "R", "r", "S")):
            for sep in ("\n", " "):
                yield g, sep, True, "", s
    # inclusions side by side
    for g in itertools.product(lists((1, 2), 4), lists((1, 2), 2), lists((1, 2), 2 if deep else 1)):
        for s in (("S",), ("W", "R", "p", "S", "R", "W")) if deep or len(g[0]) < 4 else (("S",),):
            for sep in ("\n", " "):
                yield g, sep, True, "adjacent", s

def main(c):
    c.cov["rule"] = ("operation sequences (read, write merged, write keeping includes, write split, with and without versions, saves in each file) up to "
                     "the depth for seven inclusion structures x layouts, and eight fixed sequences for every inclusion graph over three files")
    sts, trs = set(), set()
    for r in mm.pmap(job, mm.chunks(gen(c.thorough), 100), stop=c.enough):
        c.add("traces_validated_against_impl", r["n"])
        sts |= r["st"]; trs |= r["tr"]
        c.sample(r["sample"])
        for v in r["viol"]:
            c.violation(mm.digest(str(v["item"])), v["what"], v)
    c.cov["states"] = len(sts); c.cov["transitions"] = len(trs)
    c.cov["exhaustive"] = True
    c.cov["model_binding"] = "every sequence of the model is executed on the program and the resulting files are compared"

def replay(v):
    it = v["replay"]["item"]
    w, _ = case(tuple(tuple(x) for x in it[0]), it[1], it[2], it[3], tuple(it[4]))
    print(w or "holds")
    return 1 if w else 0
