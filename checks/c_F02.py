"""SUBMIT behaves as if the commands had been typed."""
import itertools, re
import mm, units

LEVEL = "model_checking"

EX = units.EXITQ
M = {k: v for k, v in units.MAIN.items()}
M.update(prove=units.U("prove t"), tools=units.U("tools"), exitn=units.U("exit", "n", q=(EX,)), exity=units.U("exit", "y", q=(EX,)), exitf=units.U("exit/force"),
         blank=units.U(""), spaces=units.U("  show \t labels  t "), sys=units.U("'true"), missing=units.U("submit missing.cmd"), slog=units.U("show labels *"),
         vm=units.U("verify markup */file_skip"), upper=units.U("SHOW LABELS I"))
P = dict(units.PA, xy=units.U("exit", "y", q=(EX,)), xn=units.U("exit", "n", q=(EX,)), xf=units.U("exit/force"), labels=M["labels"], tools=M["tools"], pblank=units.U(""))
T = dict(units.TOOLS, exit=units.U("exit"), tblank=units.U(""))
CORE_M = ["labels", "bad", "save", "asks", "prove", "tools", "exitn", "exitf", "missing", "blank", "erase"]
CORE_P = ["delete", "assign", "undo", "savep", "xy"]
CORE_T = ["ask", "sub", "exit"]
OBS = ["show settings", "show labels */all", "show proof t/all", "show proof i/normal", "verify proof *", "show statement t/full", "show memory"]

def gen(n, ms, ps, ts):
    """sequences of n (mode, name) that the mode grammar allows"""
    def rec(seq, mode):
        if len(seq) == n:
            yield tuple(seq), mode
            return
        for o in (ms if mode == "m" else ps if mode == "p" else ts):
            m = mode
            if mode == "m" and o == "prove": m = "p"
            elif o == "tools": m = "t" if mode == "m" else "T"
            elif mode == "p" and o in ("xy", "xf"): m = "m"
            elif mode == "t" and o == "exit": m = "m"
            elif mode == "T" and o == "exit": m = "p"
            if m == "T" and mode == "p" or True:
                yield from rec(seq + [(mode, o)], m)
    yield from rec([], "m")

def forests(lo, hi, d):
    """all ways to put the atoms lo..hi-1 into nested files (int, or tuple = file)"""
    if lo == hi:
        yield ()
        return
    for mid in range(lo + 1, hi + 1):
        elems = ([lo] if mid == lo + 1 else []) + ([f for f in forests(lo, mid, d - 1)] if d else [])
        for e in elems:
            for rest in forests(mid, hi, d):
                yield (e,) + rest

def nfiles(f): return sum(1 + nfiles(e) for e in f if isinstance(e, tuple))
def depth(f): return max([1 + depth(e) for e in f if isinstance(e, tuple)] or [0])

def lines_of(mode, name, k):
    ls, q = (M if mode == "m" else P if mode == "p" else T)[name]
    return [l.replace("@", str(k)) for l in ls], q

def layout(seq, forest, silent, ends):
    """-> (typed lines, files, events (text, is command, from file, silent, questions))"""
    files, events, num = {}, [], [0]
    def put(es, sink, infile, sil):
        for e in es:
            if isinstance(e, tuple):
                k = num[0]; num[0] += 1
                name = "z%d.cmd" % k
                s = bool(silent[k % len(silent)])
                l = "submit " + name + (" / silent" if s else "")
                sink.append(l)
                events.append((l, (), infile, sil))
                inner = []
                put(e, inner, True, sil or s)
                events.append((None, (), True, sil or s))
                end = ends[k % len(ends)]
                body = "".join(x + ("\r\n" if end == "cr" else "\n") for x in inner)
                if end == "none" and inner and inner[-1]: body = body[:-1]
                files[name] = body
            else:
                ls, q = lines_of(*seq[e], e)
                sink.extend(ls)
                events.append((ls[0], tuple(zip(q, ls[1:])), infile, sil))
    typed = []
    put(forest, typed, False, False)
    return typed, files, events

PROMPT = re.compile(r"^(MM> |MM-PA> |TOOLS> )", re.M)
def normal(t):
    t = re.sub(r"\d+\.\d+( s\b| sec)", "N\\1", t)
    t = re.sub(r"\d+ bytes", "N bytes", t)
    return re.sub(r"\d+[:-]\w+[:-]?\d*( [AP]M)?", "N", t)

def strip(t):
    """the session without the submitting"""
    t = re.sub(r'^(MM|MM-PA|TOOLS)> (submit z\d+\.cmd( / silent)?|\[End of command file "z\d+\.cmd"\.\]|)\n', "", t, flags=re.M)
    t = re.sub(r'^!SUBMIT z\d+\.cmd( / SILENT)?\n', "", t, flags=re.M)       # SET ECHO ON
    return re.sub(r'^Taking command lines from file "z\d+\.cmd"\.\.\.\n', "", t, flags=re.M)

def finish(mode):
    return {"m": [], "p": ["show new_proof/all", "exit/force"], "t": ["exit"], "T": ["exit", "show new_proof/all", "exit/force"]}[mode] + OBS + ["close log"]

def play(seq, mode, forest, silent=(0,), ends=("lf",)):
    typed, files, events = layout(seq, forest, silent, ends)
    r = mm.sess(["read f.mm", "open log y.x"] + typed + finish(mode), dict(units.FILES, **files))
    fs = {f: mm.server().read(f) for f in mm.server().ls()}
    log = fs.pop("y.x", "")
    for f in files:
        if fs.pop(f, None) != files[f]:
            return None, "the command file %s was changed" % f, None
    if r.status != 0:
        return None, "status %d: %s" % (r.status, r.out[-200:]), None
    out = r.out
    i = out.find("MM> ", out.find("was opened"))
    return (normal(strip(log)), {f: normal(t) for f, t in fs.items()}), shown(log, out[i:] if i >= 0 else "", events, finish(mode)), log

def shown(log, out, events, fin):
    """the screen shows the log without the typed lines and what /SILENT suppresses"""
    i = PROMPT.search(log)
    t, exp = log[i.start():], ""
    ev = list(events) + [(l, (), False, False) for l in fin]
    hidden = False
    while True:
        m = PROMPT.match(t)
        if not m:
            if t: return "driver: %r" % t[:80]
            break
        p = m.group(1)
        while ev and ev[0][0] == "" and not ev[0][2]:
            ev.pop(0); exp += p
        if not ev:                       # the end of the input
            return None
        text, qa, infile, sil = ev.pop(0)
        e = "[End of command file" if text is None else text
        t = t[m.end():]
        if not t.startswith(e):
            return "instead of %r the next command is %r" % (e, t[:60])
        if not infile:
            exp += p
            t = t[len(e) + 1:]
            if qa == () and False: pass
        elif not sil:
            j = t.index("\n") + 1
            exp += p + t[:j]; t = t[j:]
        else:
            t = t[t.index("\n") + 1:]
        for q, a in qa:
            n = PROMPT.search(t)
            m = re.compile(r"\s+".join(re.escape(w) for w in q.split()) + " ").search(t, 0, n.start() if n else len(t))
            if not m:                     # not asked: the answer is a command of its own
                ev[:0] = [(x[1], (), infile, sil) for x in qa[qa.index((q, a)):]]
                break
            if not t[m.end():].startswith(a + "\n"):
                return "the answer %r to %r is %r" % (a, q, t[m.end():m.end() + 20])
            if not sil: exp += t[:m.end()] + (a + "\n" if infile else "")
            t = t[m.end() + len(a) + 1:]
        n = PROMPT.search(t)
        reply, t = (t[:n.start()], t[n.start():]) if n else (t, "")
        if not sil: exp += reply
        if not n: break
    # what the program prints at the end of the input is not in the log
    if not out.startswith(exp):
        k = next((k for k in range(len(exp)) if exp[k:k + 1] != out[k:k + 1]), len(exp))
        return "the screen shows %r where the log has %r" % (out[max(0, k - 60):k + 80], exp[max(0, k - 60):k + 80])
    return None

def describe(seq, forest, silent, ends):
    def d(es):
        return " ".join("%s{%s}" % ("", d(e)) if isinstance(e, tuple) else "'%s'" % " / ".join(lines_of(*seq[e], e)[0]) for e in es)
    return d(forest) + (" silent=%s" % (silent,) if any(silent) else "") + (" ends=%s" % (ends,) if set(ends) != {"lf"} else "")

def compare(seq, mode, base, forest, silent=(0,), ends=("lf",)):
    got, w, log = play(seq, mode, forest, silent, ends)
    if got is None or w:
        return w
    if got[0] != base[0]:
        a, b = base[0], got[0]
        i = next((i for i in range(max(len(a), len(b))) if a[i:i + 1] != b[i:i + 1]), 0)
        return "the session is %r, typed it is %r" % (b[max(0, i - 60):i + 100], a[max(0, i - 60):i + 100])
    if got[1] != base[1]:
        return "the files %s differ" % sorted(f for f in set(got[1]) | set(base[1]) if got[1].get(f) != base[1].get(f))
    return None

def job(task):
    seqs, shapes, silents, ends = task
    viol, n, states, kinds, tr = [], 0, set(), set(), 0
    for seq, mode in seqs:
        base, w, _ = play(seq, mode, tuple(range(len(seq))))
        if base is None or w:
            viol.append(dict(what="typed %s: %s" % (describe(seq, tuple(range(len(seq))), (0,), ("lf",)), w), seq=[list(x) for x in seq], mode=mode, shape=None, silent=[0], ends=["lf"]))
            continue
        states.add(hash((mode, base[0], tuple(sorted(base[1].items())))))
        for sh in shapes:
            k = nfiles(sh)
            if not k and sh != (): continue
            for si in (silents(k) if callable(silents) else silents):
                for en in ends:
                    w = compare(seq, mode, base, sh, si, en)
                    n += 1; tr += len(seq) + 2 * k
                    kinds.add(hash((sh, si, en)))
                    if w and len(viol) < 2:
                        viol.append(dict(what="%s: %s" % (describe(seq, sh, si, en), w), seq=[list(x) for x in seq], mode=mode, shape=sh, silent=list(si), ends=list(en)))
    return dict(n=n, tr=tr, states=states, kinds=kinds, viol=viol, sample=describe(seqs[-1][0], shapes[-1], (0,), ("lf",)) if seqs and shapes else "")

def allsil(k): return list(itertools.product((0, 1), repeat=k))
def both(k): return [(0,) * max(k, 1), (1,) * max(k, 1)]
def plain(k): return [(0,)]

def withempty(shapes):
    """the shapes with an empty file inserted at every place"""
    def ins(f):
        for i in range(len(f) + 1):
            yield f[:i] + ((),) + f[i:]
        for i, e in enumerate(f):
            if isinstance(e, tuple):
                for x in ins(e):
                    yield f[:i] + (x,) + f[i + 1:]
    return sorted({x for f in shapes for x in ins(f)}, key=repr)

SIL = dict(all=allsil, both=both, plain=plain)
def shift(f): return tuple(shift(e) if isinstance(e, tuple) else e + 1 for e in f)

class S:                                # picklable selection
    def __init__(s, n): s.n = n
    def __call__(s, k): return SIL[s.n](k)

def levels():
    """n nested levels with commands before and after the inner file; more than the limit is an error"""
    out = []
    for n in range(1, 13):
        files = {}
        for k in range(n):
            files["z%d.cmd" % k] = "show labels t\n" + ("submit z%d.cmd\n" % (k + 1) if k + 1 < n else "") + "search * 'x'\n"
        typed = ["show labels t"] * n + ["search * 'x'"] * n
        lim = 10
        if n > lim:
            typed = ["show labels t"] * lim + ["submit z%d.cmd" % lim] + ["search * 'x'"] * lim
        def go(cmds):
            r = mm.sess(["read f.mm", "open log y.x"] + cmds + OBS + ["close log"], dict(units.FILES, **files))
            return r.status, normal(strip(mm.server().read("y.x")))
        a, b = go(["submit z0.cmd"]), go(typed)
        if n > lim:                     # the refused SUBMIT was stripped in both logs; its message stays
            b = (b[0], b[1].replace("Taking command lines", ""))
            if a[0] or a[1].count("?The SUBMIT nesting level has been exceeded.\n") != 1 or a[1].count("MM> show labels t\n") != lim or a[1].count("MM> search * 'x'\n") != lim:
                out.append((n, "%d nested command files: %r" % (n, a[1][:800])))
        elif a != b:
            out.append((n, "%d nested command files: the session is %r, typed it is %r" % (n, a[1][:600], b[1][:600])))
    return out

def main(c):
    t = c.thorough
    shapes = lambda n, d: [f for f in forests(0, n, d) if nfiles(f)]
    one, two = list(gen(1, M, P, T)), [s for s in gen(2, ["prove", "tools"], P, T)]
    inner = lambda fs: [(0,) + shift(f) for f in fs]     # the first command is typed
    core = [(CORE_M, CORE_P, CORE_T)]
    plans = [
        (one, withempty(shapes(1, 2)) + shapes(1, 3), "all", [("lf",), ("cr",), ("none",), ("none", "cr")]) if t else
        (one, withempty(shapes(1, 1)) + shapes(1, 3), "all", [("lf",), ("cr",), ("none",)]),
        (two, inner(withempty(shapes(1, 1)) + shapes(1, 2)), "both", [("lf",), ("cr",), ("none",)]),
        (list(gen(2, M, P, T)), shapes(2, 3 if t else 1), "both", [("lf",)]),
        (list(gen(2, *core[0])), shapes(2, 2), "all" if t else "both", [("lf",), ("none", "cr")]),
        (list(gen(3, *core[0])), shapes(3, 2 if t else 1), "both" if t else "plain", [("lf",)]),
    ]
    if t:
        plans.append((list(gen(4, CORE_M[:6] + ["exitn"], CORE_P, CORE_T)), shapes(4, 1), "plain", [("lf",)]))
    kinds = set()
    for seqs, sh, si, en in plans:
        # sequences with EXIT in the middle never read the rest; one atom after it is enough
        cut = 10 if len(sh) > 8 else 40
        # longer sequences first end in a Proof Assistant or Text Tools session too
        for res in mm.pmap(job, [(x, sh, S(si), en) for x in mm.chunks(seqs, cut)], stop=c.enough):
            c.add("traces_validated_against_impl", res["n"]); c.add("transitions", res["tr"]); c.distinct(res["states"]); kinds |= res["kinds"]
            c.sample(res["sample"])
            for v in res["viol"]:
                c.violation(mm.digest(v["what"]), v["what"], v)
    for n, w in levels():
        c.violation("levels-%d" % n, w, dict(levels=n))
    c.cov["nestings"] = len(kinds)
    c.cov["states"] = len(c._d)
    c.cov["exhaustive"] = True
    c.cov["rule"] = ("state = session text and files after a typed sequence of commands; all sequences of 1, 2 and 3%s units (%d main, %d Proof Assistant, %d Text Tools; 3: core units), each put into every nesting of command files "
                     "within the bound, with and without /SILENT, with LF, CRLF and no final line end, with empty files at every place, and 1 to 12 levels" % (" and 4" if t else "", len(M), len(P), len(T)))

def untuple(x): return tuple(untuple(y) for y in x) if isinstance(x, (list, tuple)) else x

def replay(v):
    p = v["replay"]
    if "levels" in p:
        b = [w for n, w in levels() if n == p["levels"]]
        print(b or "holds"); return 1 if b else 0
    seq = tuple(tuple(x) for x in p["seq"])
    base, w, _ = play(seq, p["mode"], tuple(range(len(seq))))
    if base is not None and not w and p["shape"] is not None:
        w = compare(seq, p["mode"], base, untuple(p["shape"]), tuple(p["silent"]), tuple(p["ends"]))
    print(w or "holds")
    return 1 if w else 0
