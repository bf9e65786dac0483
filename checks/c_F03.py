"""A log file contains exactly the session between OPEN and CLOSE."""
import itertools, re
import mm, units

LEVEL = "model_checking"

SUB = "show labels *\nset width 60\nshow proof t/normal\n"
SUBLOG = "show labels t\nopen log inner.x\nshow labels i\n"
FILES = dict(units.FILES, **{"s.cmd": SUB, "e.cmd": "", "r.cmd": "submit r.cmd\n", "n.cmd": "submit s.cmd\nshow labels i\n", "o.cmd": SUBLOG, "c.cmd": "show labels t\nclose log\nshow labels i\n"})
EX = units.EXITQ
OPEN, CLOSE = "open", "close"
M = dict(units.MAIN, sub=units.U("submit s.cmd"), nest=units.U("submit n.cmd"), empty=units.U("submit e.cmd"), subclose=units.U("submit c.cmd"), subopen=units.U("submit o.cmd"),
         opentex=units.U("open tex l@.tex"), closetex=units.U("close tex"), opens=units.U("open log"), sys=units.U("'true"), reopen=units.U("open log again@.x"), openbad=units.U("open log nodir/l.x"),
         prove=units.U("prove t"), tools=units.U("tools"), exitn=units.U("exit", "n", q=(EX,)), exity=units.U("exit", "y", q=(EX,)), exitf=units.U("exit/force"))
M["vm"] = units.U("verify markup */file_skip")
M["deep"] = units.U("submit r.cmd")
M["opens"] = units.U("open log", "asked@.x", q=("?",))
P = dict(units.PA, xy=units.U("exit", "y", q=(EX,)), xn=units.U("exit", "n", q=(EX,)), xf=units.U("exit/force"), labels=M["labels"], tools=M["tools"])
T = dict(units.TOOLS, exit=units.U("exit"))
CORE = ["labels", "save", "echo", "asks", "prove", "tools", "exity", "nest"]

def gen(depth, names_m, names_p, names_t, maxlogs=2):
    """sequences of (mode, name); every sequence opens a log at least once"""
    def rec(seq, mode, opened, is_open):
        if len(seq) == depth:
            if opened:
                yield tuple(seq)
            return
        if not opened and len(seq) == depth - 1 and depth > 1:
            opts = [OPEN] if mode in "mp" else []
        else:
            opts = list(names_m if mode == "m" else names_p if mode == "p" else names_t)
            if mode in "mp":
                if is_open:
                    opts.append(CLOSE)
                elif opened < maxlogs:
                    opts.append(OPEN)
        for o in opts:
            if o in (OPEN, CLOSE):
                yield from rec(seq + [(mode, o)], mode, opened + (o == OPEN), o == OPEN)
                continue
            m = mode
            if mode == "m" and o == "prove": m = "p"
            elif o == "tools": m = "t" if mode == "m" else "T"
            elif mode == "p" and o in ("xy", "xf"): m = "m"
            elif mode == "t" and o == "exit": m = "m"
            elif mode == "T" and o == "exit": m = "p"
            elif mode == "m" and o in ("exity", "exitf"):
                if opened:
                    yield tuple(seq) + ((mode, o),)
                continue
            yield from rec(seq + [(mode, o)], m, opened, is_open)
    yield from rec([], "m", 0, False)

def unit(mode, name, k):
    if name == OPEN: return ("open log l%d.x" % k,), ()
    if name == CLOSE: return ("close log",), ()
    ls, q = (M if mode == "m" else P if mode == "p" else T)[name]
    return tuple(l.replace("@", str(k)) for l in ls), q

SUBQ = {"s.cmd": ["show labels *", "set width 60", "show proof t/normal", "[End"], "e.cmd": ["[End"], "o.cmd": ["show labels t", "open log inner.x", "show labels i", "[End"],
        "c.cmd": ["show labels t", "close log", "show labels i", "[End"]}
SUBQ["r.cmd"] = ["submit r.cmd"] * 10 + ["[End"] * 10
SUBQ["n.cmd"] = ["submit s.cmd"] + SUBQ["s.cmd"] + ["show labels i", "[End"]

def play(seq, log=True):
    """-> (result, transcript: what the user sees including the typed lines, files, replies)"""
    cmds, exp = ["read f.mm"], [("set scroll continuous", ()), ("read f.mm", ())]
    for k, (m, n) in enumerate(seq):
        if not log and (n in (OPEN, CLOSE)):
            continue
        ls, q = unit(m, n, k)
        cmds += ls
        exp.append((ls[0], list(zip(q, ls[1:]))))
        for i, l in enumerate(ls[1 + len(q):]):
            exp.append((l, ()))
    r = mm.sess(cmds, FILES)
    files = {f: mm.server().read(f) for f in mm.server().ls()}
    out, t, queue = "", r.out, []
    replies = []
    k = 0
    rx = re.compile(r"^(MM> |MM-PA> |TOOLS> )", re.M)
    unasked = []
    while True:
        m = rx.search(t)
        if not m:
            out += t
            replies.append(t)
            break
        out += t[:m.end()]
        replies.append(t[:m.start()])
        t = t[m.end():]
        if queue:
            e = queue.pop(0)
            if not t.startswith(e):
                raise ValueError("the command file's line %r is not shown: %r" % (e, t[:80]))
            j = t.index("\n") + 1
            out += t[:j]; t = t[j:]
            continue
        if unasked:                   # answers that were not asked for: commands
            l, qa = unasked.pop(0), ()
        elif k < len(exp):
            l, qa = exp[k]; k += 1
        else:
            continue                   # the end of the input: the program types EXIT itself
        if l == "":                   # an empty line is no command and not logged
            out = out[:len(out) - len(m.group())]
            continue
        out += l + "\n"
        if l.startswith("submit ") and l[7:] in SUBQ:
            queue = list(SUBQ[l[7:]])
        for i, (q, a) in enumerate(qa):
            nx = rx.search(t)
            m = re.compile(r"\s+".join(re.escape(w) for w in q.split()) + " ").search(t, 0, nx.start() if nx else len(t))
            if not m:
                unasked = [x[1] for x in qa[i:]]
                break
            out += t[:m.end()] + a + "\n"
            t = t[m.end():]
        # the text up to the next prompt is the reply
        if t and rx.match(t) and t[0] != "\n":
            pass
    return r, out, files, replies

def normal(t):
    t = re.sub(r"\d+\.\d+( s\b| sec)", "N\\1", t)
    return re.sub(r"\d+[:-]\w+[:-]?\d*( [AP]M)?", "N", t)

spread = lambda w: r"\s*".join(w)
OPENED = re.compile(r'The log file "([^"]+)"\s*%s\s*%s[^.]*\.\n' % (spread("was"), spread("opened")))
CLOSED = re.compile(r'The log file "([^"]+)"\s*%s\s*%s[^.]*\.\n' % (spread("was"), spread("closed")))

def logs_of(t):
    logs, cur = {}, None
    while True:
        m = OPENED.search(t)
        if not m:
            return logs
        e = CLOSED.search(t, m.end())
        end = e.end() if e else len(t)
        logs[m.group(1)] = t[m.start():end]
        t = t[end:]

def follow(seq):
    """-> (violation or None, transitions, states)"""
    r, out, files, replies = play(seq)
    states = {("closed",)}
    if r.status != 0:
        return "%s: status %d: %s" % (seq, r.status, r.out[-200:]), 0, states
    want = logs_of(out)
    have = {f: t for f, t in files.items() if re.match(r"(l\d|again|asked|inner).*\.x(~\d)?$", f)}
    for f in sorted(set(want) | set(have)):
        if want.get(f) != have.get(f):
            a, b = want.get(f), have.get(f)
            if a is None or b is None:
                return "%s: log file %s %s" % (names(seq), f, "was written although no log was opened" if a is None else "is missing"), 0, states
            i = next((i for i in range(max(len(a), len(b))) if a[i:i + 1] != b[i:i + 1]), 0)
            return "%s: log file %s differs from the session at %r: it has %r" % (names(seq), f, a[max(0, i - 60):i + 80], b[max(0, i - 60):i + 80]), 0, states
        states.add(hash(normal(want[f])))
    # logging does not change the output
    if not any(n in ("subopen", "subclose", "reopen", "openbad", "opens") for _, n in seq):
        r2, out2, files2, replies2 = play(seq, False)
        def strip(t):
            t = re.sub(r'^(MM|MM-PA)> (open log l\d+\.x|close log)\n', "", t, flags=re.M)
            t = re.sub(r'!(OPEN LOG \S+|CLOSE LOG)\n', "", t)
            return CLOSED.sub("", OPENED.sub("", t))
        a, b = normal(strip(out)), normal(strip(out2))
        if a != b:
            i = next((i for i in range(max(len(a), len(b))) if a[i:i + 1] != b[i:i + 1]), 0)
            return "%s: logging changes the output %r to %r" % (names(seq), b[max(0, i - 60):i + 80], a[max(0, i - 60):i + 80]), 0, states
        fa = {f: normal(t) for f, t in files.items() if f not in have}
        fb = {f: normal(t) for f, t in files2.items()}
        if fa != fb:
            return "%s: logging changes the files %s" % (names(seq), sorted(f for f in set(fa) | set(fb) if fa.get(f) != fb.get(f))), 0, states
    return None, len(seq), states

def names(seq):
    return " ; ".join(unit(m, n, k)[0][0] for k, (m, n) in enumerate(seq))

def silent():
    """the log of a silent command file contains what a normal one's contains"""
    out = []
    for body in [SUB, "show labels t\nfoo\n", "prove t\nundo\nexit\n", "", "tools\ncount g.txt x\nexit\n"]:
        res = []
        for sw in ("", "/silent"):
            r = mm.sess(["read f.mm", "open log l.x", "submit b.cmd" + sw, "show labels i", "close log"], dict(FILES, **{"b.cmd": body}))
            t = mm.server().read("l.x") if "l.x" in mm.server().ls() else ""
            t = "\n".join(l for l in t.split("\n") if not l.startswith(("Taking command", "MM> submit")) and "[End of command" not in l and "log file" not in l)
            res.append(normal(t))
        if res[0] != res[1]:
            out.append("a silent command file is logged as %r, a normal one as %r (lines %r)" % (res[1][:300], res[0][:300], body))
    return out

def job(seqs):
    viol, n, tr, states = [], 0, 0, set()
    for s in seqs:
        v, t, st = follow(s)
        n += 1; tr += t; states |= st
        if v and len(viol) < 2:
            viol.append(dict(seq=[list(x) for x in s], what=v))
    return dict(n=n, tr=tr, states=states, viol=viol, sample=names(seqs[0]))

def main(c):
    d = 1 if c.thorough else 0
    plan = [gen(3 + d, M, P, T), gen(5 + d, CORE, ["assign", "xy", "savep"], ["type", "exit"])]
    # every pair of commands in one log, in every mode
    plan.append(((("m", OPEN),) + x + (("m", CLOSE), ("m", "labels")) for x in gen_body(2)))
    seen = set()
    for g in plan:
        todo = [s for s in g if s not in seen and sum(n == "subopen" for _, n in s) < 2]
        seen |= set(todo)
        for res in mm.pmap(job, list(mm.chunks(todo, 50)), stop=c.enough):
            c.add("traces_validated_against_impl", res["n"]); c.add("transitions", res["tr"]); c.distinct(res["states"])
            c.sample(res["sample"])
            for v in res["viol"]:
                c.violation(mm.digest(v["what"]), v["what"], v)
    for v in silent():
        c.violation("silent", v, dict(seq=[], what=v))
    c.cov["states"] = len(c._d)
    c.cov["exhaustive"] = True
    c.cov["rule"] = ("state = (mode, log open, settings of the session); all sequences of %d commands of the alphabet (%d main, %d Proof Assistant, %d Text Tools units, OPEN, CLOSE) and of %d core commands, "
                     "all pairs in one log; each log compared with the session's text character by character, and the session with the same session without logging" % (3 + d, len(M), len(P), len(T), 5 + d))

def gen_body(n):
    for x in itertools.product([k for k in M if k not in ("exity", "exitf", "prove", "tools", "subclose", "subopen")], repeat=n):
        yield tuple(("m", k) for k in x)
    for x in itertools.product([k for k in P if k not in ("xy", "xf", "tools")], repeat=n):
        yield (("m", "prove"),) + tuple(("p", k) for k in x) + (("p", "xf"),)
    for x in itertools.product([k for k in T if k != "exit"], repeat=n):
        yield (("m", "tools"),) + tuple(("t", k) for k in x) + (("t", "exit"),)

def replay(v):
    s = v["replay"]["seq"]
    b = follow(tuple(tuple(x) for x in s))[0] if s else (silent() or [None])[0]
    print(b or "holds")
    return 1 if b else 0
