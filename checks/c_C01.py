"""UNDO and REDO restore exactly the previous proofs."""
import itertools, re
import mm, pa

LEVEL = "model_checking"

def word(c):
    return c.split()[0].upper()

def norm(c):
    return re.sub(r"\s+", " ", c)

class Model:
    """set of possible (past, future) histories; each entry = (state, command)"""
    def __init__(self, state, limit):
        self.h = {((), ())}
        self.cur = state
        self.limit = limit
    def push(self, states, cmd, new, maybe):
        r = set()
        for past, fut in self.h:
            if maybe:
                r.add((past, fut))
            p = past + ((self.cur, word(cmd)),)
            r.add((p[max(0, len(p) - self.limit):], ()))
        self.h = r
        self.cur = new
    def undo(self, seen, info):
        r = set()
        for past, fut in self.h:
            if past:
                st, w = past[-1]
                if st == seen and info == w:
                    r.add((past[:-1], ((self.cur, w),) + fut))
            elif info is None and seen == self.cur:
                r.add((past, fut))
        self.h = r
        self.cur = seen
    def redo(self, seen, info):
        r = set()
        for past, fut in self.h:
            if fut:
                st, w = fut[0]
                if st == seen and info == w:
                    r.add((past + ((self.cur, w),), fut[1:]))
            elif info is None and seen == self.cur:
                r.add((past, fut))
        self.h = r
        self.cur = seen

def outputs(db, pre, seq, show=True):
    cmds = ["set width 9999", "read a.mm"] + pre + ["show settings", "prove t"]
    n = len(cmds)
    for c in seq:
        cmds.append(c)
        if show:
            cmds.append(pa.SHOW)
    r = mm.sess(cmds + ["exit/force", "exit/force"], {"a.mm": db}, timeout=30)
    return r, mm.split_out(r.out)[2 + n:]

def follow(db, limit0, pre, seq):
    """run the sequence; -> (violation or None, transitions, states)"""
    r, o = outputs(db, pre, [pa.SHOW] + list(seq))
    # o: alternating reply / listing; starts with the listing twice
    if r.status != 0 or len(o) < 2 + 2 * len(seq):
        return "abnormal end (status %d) %s" % (r.status, r.out[-300:]), 0, set()
    lim = int(re.search(r"maximum number of UNDOs is (\d+)", r.out).group(1))
    if limit0 is not None and lim != limit0:
        return "SET UNDO %s gives a limit of %d" % (limit0, lim), 0, set()
    m = Model(o[0], lim)
    seen = {o[0]}
    for k, c in enumerate(seq):
        rep, st = o[2 + 2 * k], o[3 + 2 * k]
        w = word(c)
        info = re.search(r"^ ?(?:Undid|Redid):  (\S+)", rep, re.M)
        info = info.group(1) if info else None
        err = re.search(r"^\?|^ *\^\n\?", rep, re.M)
        prev = m.cur
        if w == "UNDO":
            m.undo(st, info)
        elif w == "REDO":
            m.redo(st, info)
        elif c.startswith("set undo"):
            n = int(c.split()[2])
            if st != prev:
                return "SET UNDO changed the proof", k, seen
            if n != m.limit:
                m.limit = n
                m.h = {((), ())}
        elif w in ("SHOW", "SAVE", "VERIFY", "HELP", "SEARCH"):
            if st != prev:
                return "%r changed the proof from\n%s\nto\n%s" % (c, prev, st), k, seen
        elif err and st != prev:
            return "%r reports an error but changes the proof from\n%s\nto\n%s" % (c, prev, st), k, seen
        elif err:
            pass
        else:
            m.push(None, c, st, st == prev)
        if not m.h:
            return ("after %r (step %d of %s, limit %d) the program says %r and shows\n%s\nwhich no history allows" %
                    (c, k + 1, list(seq), m.limit, info, st)), k, seen
        seen.add(st)
    return None, len(seq), seen

def job(j):
    kind = j[0]
    viol, tr, states, n = [], 0, set(), 0
    if kind == "seq":
        _, wname, limit, pre, seqs = j
        db = pa.WORLDS[wname][0]
        for s in seqs:
            tail = ["undo"] * (len(s) + 1) + ["redo"] * (len(s) + 1)
            if len(s) > 30:
                tail = ["undo"] * 22 + ["redo"] * 22
            v, t, st = follow(db, limit, pre, tuple(s) + tuple(tail))
            tr += t; n += 1
            states |= {hash((wname, x)) for x in st}
            if v and len(viol) < 2:
                viol.append(dict(kind="seq", world=wname, limit=limit, pre=pre, seq=list(s) + tail, what="%s %s: %s" % (wname, list(s), v)))
    else:
        _, wname, xs = j
        db = pa.WORLDS[wname][0]
        for x, c, ys in xs:
            for y in ys:
                v = differ(db, x, c, y)
                n += 1; tr += len(x) + 5
                if v and len(viol) < 2:
                    viol.append(dict(kind="diff", world=wname, x=list(x), c=c, y=y, what="%s: %s" % (wname, v)))
    return dict(n=n, tr=tr, states=states, viol=viol, sample=str(j[-1][0])[:200])

def last(db, seq):
    """-> replies, and the last command's reply + final listing"""
    r, o = outputs(db, [], list(seq) + [pa.SHOW], show=False)
    return [pa.canon(x) for x in o[len(seq) - 1:len(seq) + 1]], o

def differ(db, x, c, y):
    """y behaves the same whether or not c was done and undone before it,
    and the same after c as after c, undo, redo"""
    x = list(x)
    b, ob = last(db, x + [pa.SHOW, c, pa.SHOW, "undo", pa.SHOW, y])
    n = len(x)
    if ob[n] == ob[n + 2] or ob[n] != ob[n + 4]:
        return None          # c changed nothing (what UNDO then does is checked by follow)
    a, oa = last(db, x + [y])
    if a != b:
        return "after %s, %r behaves differently when %r was done and undone before:\n%s\n--- instead of\n%s" % (x, y, c, "\n".join(b), "\n".join(a))
    a, oa = last(db, x + [c, y])
    b, ob = last(db, x + [c, "undo", "redo", y])
    if a != b:
        return "after %s, %r behaves differently when %r was undone and redone before:\n%s\n--- instead of\n%s" % (x, y, c, "\n".join(b), "\n".join(a))
    return None

INERT = ["show statement t", "search * 'p'", "save new_proof/normal", "assign last nosuch", "delete step 77", "verify proof t", "show new_proof/normal"]

def gen(deep):
    for wname, (db, cmds) in pa.WORLDS.items():
        pick = {"mp": [0, 1, 4, 5], "min": [0, 2, 3, 6], "sub": [0, 2, 4, 9], "match": [0, 1, 5, 3]}[wname]
        small = [cmds[i] for i in pick]
        # A: every sequence of the full alphabet up to depth 3
        al = cmds + pa.CTRL
        seqs = itertools.product(al, repeat=4 if deep else 3)
        for ch in mm.chunks(seqs, 60):
            yield "seq", wname, None, [], ch
        # B: every sequence over a small alphabet, deeper, and small limits
        for lim in (None, 0, 1, 2, 3):
            al = small[:3 if lim is None or deep else 2] + pa.CTRL
            d = 6 if deep else (5 if lim is None else 4)
            for ch in mm.chunks(itertools.product(al, repeat=d), 60):
                yield "seq", wname, lim, ["set undo %d" % lim] if lim is not None else [], ch
        for lim, d in ((2, 3), (1, 2)) + (((3, 4),) if deep else ()):
            for ch in mm.chunks(itertools.product(cmds + ["undo"], repeat=d), 60):
                yield "seq", wname, lim, ["set undo %d" % lim], ch
        # C: commands that do not change the proof, and SET UNDO, in between
        al = small[:2] + ["undo", "redo"]
        seqs = [tuple(s[:k]) + (i,) + tuple(s[k:]) for s in itertools.product(al, repeat=4 if deep else 3) for k in range(1, len(s) + 1)
                for i in INERT + ["set undo 2", "set undo 19", "set undo 25", "set undo 0"]]
        for ch in mm.chunks(seqs, 60):
            yield "seq", wname, None, [], ch
        # D: histories longer than the limit
        nop = {"mp": ("assign last mp", "delete all"), "min": ("delete all", "improve all", "assign last a1i"), "sub": ("assign last r2", "delete all"), "match": ("match all", "delete all")}[wname]
        seqs = []
        for n in list(range(17, 26)) + [40, 41, 42, 43]:
            s = list(itertools.islice(itertools.cycle(nop), n))
            seqs.append(s)
            for u in (1, 5, 18, 19, 20):
                seqs.append(s + ["undo"] * u + [nop[0]])
                seqs.append(s + ["undo"] * u + ["redo"] * (u // 2 + 1) + [nop[1]])
        for ch in mm.chunks(seqs, 8):
            yield "seq", wname, None, [], ch
        # E: behaviour after undo
        xs = []
        for d in range(0, 4 if deep else 3):
            for x in itertools.product(cmds if d < 3 else small, repeat=d):
                for c in cmds:
                    xs.append((x, c, cmds if deep or d < 2 else [cmds[i] for i in pick[:3]]))
        # working variables used up before INITIALIZE ALL / EXPAND
        if wname == "mp":
            for x in itertools.product(["assign last mp", "delete step 8", "assign last a1i"], repeat=4):
                xs.append((x, "initialize all", ["assign last mp", "assign first a1i", "improve all"]))
        for ch in mm.chunks(xs, 12):
            yield "diff", wname, ch

def main(c):
    c.cov["rule"] = ("state = (listing of the proof in progress, undo history, redo history) of the model; every command sequence up to the depth in four worlds, "
                     "limits 0-3 and 20, histories past the limit; every transition's listing and Undid/Redid message compared with the program; then the "
                     "whole history is walked back and forth; every command after UNDO/REDO compared with the same command without them")
    sts = set()
    for r in mm.pmap(job, gen(c.thorough), stop=c.enough):
        c.add("traces_validated_against_impl", r["n"]); c.add("transitions", r["tr"]); sts |= r["states"]
        c.sample(r["sample"])
        for v in r["viol"]:
            c.violation(mm.digest(v["what"]), v["what"], v)
    c.cov["states"] = len(sts)
    c.cov["exhaustive"] = True

def replay(v):
    v = v["replay"]
    db = pa.WORLDS[v["world"]][0]
    if v["kind"] == "seq":
        b = follow(db, v["limit"], v["pre"], v["seq"])[0]
    else:
        b = differ(db, v["x"], v["c"], v["y"])
    print(b or "holds")
    return 1 if b else 0
