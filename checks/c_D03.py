"""TRACE_BACK and USAGE report exactly the proof dependencies.

Every dependency graph over a few theorems (each theorem uses any subset of the
earlier assertions, in several proof shapes) is written as a database; the answers
of SHOW TRACE_BACK and SHOW USAGE with their options are compared with the
reference closure of the graph."""
import itertools, re
import mm

LEVEL = "exploration"
PRE = """$c w |- n $. $v x $. wx $f w x $. sn $a w n x $.
${ h1 $e |- x $. h2 $e |- x $. j $a |- x $. $}
${ g $e |- n x $. k $a |- x $. $}
"""
BASE = ["wx", "sn", "j", "k"]
NAMES = ["t", "tt", "att", "t.t", "ta"] + ["u%d" % i for i in range(80)]           # one label inside another
MODES = ("plain", "wrap", "dup", "unknown")

def proof(s, mode):
    """RPN proof of |- x that uses exactly the labels of s (besides j, sn, k, wx)"""
    if not s:
        return "?"
    def leaf(l):
        return "wx wx sn %s k" % l if mode == "wrap" else "wx %s" % l
    p = leaf(s[0])
    for l in s[1:]:
        p = "wx %s %s j" % (p, leaf(l))
    if mode == "dup":
        p = "wx %s %s j" % (p, p)
    if mode == "unknown":
        p = "wx %s ? j" % p
    return p

def compress(p, comment):
    ls = [l for l in dict.fromkeys(p.split()) if l not in ("wx", "?")]
    if p == "?":
        return p
    num = {l: i + 2 for i, l in enumerate(ls)}; num["wx"] = 1
    return "( " + comment + " ".join(ls) + " ) " + "".join("?" if l == "?" else chr(64 + num[l]) for l in p.split())

class World:
    def __init__(self, axs, sets, modes, fmt):
        self.axs, self.labels = axs, BASE + axs + NAMES[:len(sets)]
        t = PRE + "".join("%s $a |- x $.\n" % a for a in axs)
        self.use, self.steps, self.proofs, self.memo = {}, {}, {}, {}
        for n, s, m in zip(NAMES, sets, modes):
            p = proof(s, m)
            self.proofs[n] = p.split()
            self.use[n] = set(p.split()) - {"?"}
            q = {"normal": p, "compressed": compress(p, ""), "comment": compress(p, "$( not) ) $) ")}[fmt]
            t += "%s $p |- x $= %s $.\n" % (n, q)
        self.text = t
        self.thms = NAMES[:len(sets)]
    def ess(self, n):
        """labels used at the essential steps"""
        return self.use[n] - {"wx", "sn"}
    def closure(self, n, essential=False):
        if ("c", n, essential) in self.memo:
            return self.memo["c", n, essential]
        r, todo = set(), [n]
        while todo:
            for l in (self.ess if essential else self.use.get)(todo.pop()) or ():
                if l not in r:
                    r.add(l)
                    if l in self.use:
                        todo.append(l)
        self.memo["c", n, essential] = r
        return r
    def trace(self, n, essential=False, to=None):
        r = self.closure(n, essential) - {"wx"}
        if to is not None:
            r = set(l for l in r if l in to or (l in self.use and self.closure(l) & to))
        return r
    def unproved(self, n, used):
        return set(l for l in [n] + list(used) if "?" in self.proofs.get(l, ()))
    def usage(self, l, rec):
        return set(n for n in self.thms if l in (self.closure(n) if rec else self.use[n]))
    # numbers of /COUNT_STEPS
    def nreq(self, essential):
        return 0 if essential else 1
    def plen(self, n, essential):
        return len(self.proofs[n]) if not essential else sum(1 for l in self.proofs[n] if l not in ("wx", "sn"))
    def full(self, n, essential, memo):
        if n not in memo:
            memo[n] = sum(1 if l not in self.use else self.full(l, essential, memo) - self.nreq(essential)
                          for l in self.proofs[n] if not essential or l not in ("wx", "sn"))
        return memo[n]
    def path(self, n, essential):
        if (n, essential) not in self.memo:
            self.memo[n, essential] = max(1 + (self.path(l, essential) if l in self.use else 0) for l in self.proofs[n] if not essential or l not in ("wx", "sn"))
        return self.memo[n, essential]

TRACE = re.compile(r'(?:The proof of statement|Statement) "(\S+)" (?:uses the following earlier statements|assumes the following axioms \(\$a statements\)|traces back to "[^"]*" via):\n *([^\n]*)\n(?:Warning: The following traced statement\(s\) were not proved:\n([^\n]*)\n)?')
def rd_trace(o):
    r = {}
    for n, l, u in TRACE.findall(o):
        ls = [] if l.strip() == "(None)" else l.split()
        r[n] = ([re.sub(r"\(\$[aef]\)$", "", x) for x in ls], u.split())
    return r
USE = re.compile(r'Statement "(\S+)" (is not referenced|is directly referenced|directly or indirectly affects)[^\n]*?(?:the proofs? of (\d+) statements?)?[:.]\n *([^\n]*)')
def rd_usage(o):
    return {n: ([] if l.strip() == "(None)" else l.split(), k, c) for n, c, k, l in USE.findall(o)}
TREE = re.compile(r"^( *)(\S+) \$[ap]", re.M)

def queries(w):
    yield "show trace_back *", lambda o: cmp_trace(w, o, w.thms)
    yield "show trace_back */axioms", lambda o: cmp_trace(w, o, w.thms, axioms=True)
    yield "show trace_back */essential", lambda o: cmp_trace(w, o, w.thms, essential=True)
    yield "show trace_back */essential/axioms", lambda o: cmp_trace(w, o, w.thms, essential=True, axioms=True)
    yield "show trace_back %s" % w.thms[-1], lambda o: cmp_trace(w, o, w.thms[-1:])
    for to in (["k"], [w.axs[0]], [w.thms[0]], [w.thms[1]], w.axs + [w.thms[1]], ["sn"]):
        yield "show trace_back */to %s" % ",".join(to), lambda o, to=to: cmp_trace(w, o, w.thms, to=set(to))
    yield "show trace_back */axioms/to %s" % w.thms[0], lambda o: cmp_trace(w, o, w.thms, to={w.thms[0]}, axioms=True)
    yield "show trace_back */match t*", lambda o: cmp_trace(w, o, w.thms, match=lambda l: l[0] == "t")
    yield "show trace_back */axioms/match ?", lambda o: cmp_trace(w, o, w.thms, axioms=True, match=lambda l: len(l) == 1)
    yield "show trace_back %s/tree" % w.thms[-1], lambda o: cmp_tree(w, o, w.thms[-1])
    for e in (False, True):
        yield "show trace_back %s/count_steps%s" % (w.thms[-1], "/essential" if e else ""), lambda o, e=e: cmp_count(w, o, w.thms[-1], e)
    for a in ("", "/recursive"):
        yield "show usage */all" + a, lambda o, a=a: cmp_usage(w, o, w.labels, bool(a))
        for l in ("wx", w.thms[0], w.axs[0]):
            yield "show usage %s%s" % (l, a), lambda o, a=a, l=l: cmp_usage(w, o, [l], bool(a))

def cmp_trace(w, o, ns, essential=False, axioms=False, to=None, match=None):
    got = rd_trace(o)
    if set(got) != set(ns):
        return "answers for %s instead of %s" % (sorted(got), ns)
    for n in ns:
        used = w.trace(n, essential, to)
        exp = [l for l in w.labels if l in used and (not axioms or l not in w.use) and (not match or match(l))]
        if got[n][0] != exp:
            return "%s: %s instead of %s" % (n, got[n][0], exp)
        if set(got[n][1]) != w.unproved(n, used):
            return "%s: unproved %s instead of %s" % (n, got[n][1], sorted(w.unproved(n, used)))

def cmp_tree(w, o, n):
    got = set(re.findall(r"(?<=\s)(\S+)(?= \$[ap] )", "\n" + o)) | set(x for l in re.findall(r"^ *(.*) \(shown above\)", o, re.M) for x in l.split())
    exp = (w.closure(n) - {"wx"}) | {n}
    return None if got == exp else "tree shows %s instead of %s" % (sorted(got), sorted(exp))

def cmp_count(w, o, n, e):
    thms = [l for l in w.closure(n, e) if l in w.use]
    if w.unproved(n, w.closure(n, e)):
        return None
    m = re.search(r"actual proof has (\d+) steps\..*total of (\d+)\s+different\s+subtheorems are used\..*total of (\d+) actual\s+steps\..*would have (\d+)(?:\s+=~\s+([\d.]+)\s+x\s+10\^(\d+))?\s+steps if fully expanded.*path length is (\d+)", o, re.S)
    if not m:
        return "cannot read " + o[:200]
    g = list(m.groups())
    if g[4] is not None and abs(float(g[4]) * 10 ** int(g[5]) / int(g[3]) - 1) > 0.06:
        return "calls %s about %s x 10^%s" % (g[3], g[4], g[5])
    del g[4:6]
    got = [int(x) for x in g]
    exp = [w.plen(n, e), len(thms), w.plen(n, e) + sum(w.plen(l, e) for l in thms), w.full(n, e, {}), w.path(n, e)]
    return None if got == exp else "counts %s instead of %s" % (got, exp)

def cmp_usage(w, o, ls, rec):
    got = rd_usage(o)
    for l in ls:
        if l not in got:
            return "no answer for " + l
        exp = [n for n in w.thms if n in w.usage(l, rec)]
        if got[l][0] != exp or int(got[l][1] or 0) != len(exp):
            return "%s: %s (%s) instead of %s" % (l, got[l][0], got[l][1], exp)
    x = set(got) - set(ls) - {"h1", "h2", "g"}
    return "answers for %s" % sorted(x) if x else None

def large(deep):
    """long and wide graphs: chains, stars, combs"""
    fams = dict(chain=lambda i, p: [p[-1]], skip=lambda i, p: p[-2:], second=lambda i, p: [p[-2] if len(p) > 1 else p[-1]], star=lambda i, p: [p[0]],
                star2=lambda i, p: [p[1] if len(p) > 1 else p[0]], half=lambda i, p: [p[len(p) // 2]], ends=lambda i, p: [p[0], p[-1]] if len(p) > 1 else p,
                all=lambda i, p: list(p), alternate=lambda i, p: [p[-1] if i % 2 else p[0]])
    for n in range(5, 81 if deep else 31) if deep else (6, 9, 12, 18, 30, 70):
        for name, f in sorted(fams.items()):
            if name == "all" and n > 20:
                continue
            sets = []
            for i in range(n):
                sets.append(tuple(f(i, ["a"] + NAMES[:i])))
            for m in ("plain", "dup", "wrap"):
                if m == "dup" and name in ("skip", "all", "ends") and n > 20:
                    continue
                yield ["a"], tuple(sets), (m,) * n, "compressed" if n % 2 else "normal"

def worlds(deep):
    for x in large(deep):
        yield x
    for axs in (["a"], ["a", "tax"]) if deep else (["a"],):
        n = 4
        opts = []
        for i in range(n):
            prev = axs + NAMES[:i]
            opts.append([s for k in range(len(prev) + 1) for s in itertools.combinations(prev, k)])
        modes = [("plain",) * n] + [tuple(m if a == b else "plain" for b in range(n)) for m in MODES[1:] for a in range(n)]
        if deep:
            modes = list(itertools.product(MODES, repeat=n)) if len(axs) == 1 else modes
        for sets in itertools.product(*opts):
            for ms in modes:
                if any(m != "plain" and not s for m, s in zip(ms, sets)):
                    continue
                fmts = ("normal", "compressed", "comment") if deep or ms == modes[0] else ("normal", "compressed")
                for f in fmts:
                    yield axs, sets, ms, f

def one(x):
    w = World(*x)
    qs = list(queries(w))
    out = mm.split_out(mm.sess(["set width 9999", "read a.mm"] + [q for q, _ in qs] + ["exit", "y"], {"a.mm": w.text}, timeout=20).out)
    bad = []
    if "No errors were found" not in out[3]:
        bad.append(("read", out[3][:300], w.text))
    for (q, f), o in zip(qs, out[4:]):
        e = f(o)
        if e:
            bad.append((q, e, w.text))
    return len(qs), bad

def job(xs):
    r = dict(n=0, viol=[], d=set())
    for x in xs:
        n, bad = one(x)
        r["n"] += n
        r["d"].add(hash(x[1:3]))
        for q, e, t in bad[:3]:
            r["viol"].append(dict(key="%s %s %s %s" % (q, x[1], x[2], x[3]), what="%s: %s\n%s" % (q, e, t), w=x))
    return r

def main(c):
    for r in mm.pmap(job, mm.chunks(worlds(c.thorough), 40), stop=c.enough):
        c.add("evaluations", r["n"]); c.distinct(r["d"])
        for v in r["viol"]:
            c.violation(v["key"], v["what"], v)
    c.sample(World(["a"], (("a",), ("a", "t"), ("tt",), ("t", "att")), ("plain", "wrap", "dup", "plain"), "compressed").text)

def replay(v):
    x = v["replay"]["w"]
    n, bad = one((x[0], [tuple(s) for s in x[1]], tuple(x[2]), x[3]))
    for b in bad:
        print(b[0], b[1])
    return 1 if bad else 0
