"""B05: WRITE SOURCE /EXTRACT.
graphs:  every dependency graph over four theorems x arrangement of scopes, hypotheses,
         $d and variables x proof format x every selection of theorems and axioms.
systems: the axiom systems with every short proof, also wrong and unfinished ones.
layouts: every combination of white space and comments (headers, $t, $j, file inclusion
         marks, labels before comments, ...) in one or two places of a small database.
The extract is parsed by the reference parser and compared with the closure of the
selection; the program must read it without error, verify the same proofs, and extract
the same again."""
import itertools, re
import mm, refmm, systems, enum_proofs
from verdict import verify_verdicts
LEVEL = "model_checking"

def proof_labels(p):
    """labels a proof depends on: those named outside of the letters"""
    if p and p[0] == "(": return p[1:p.index(")")]
    return [x.split("=")[-1].split(":")[-1] for x in p]

def closure(db, sel, wrong=()):
    need = set(); todo = list(sel)
    while todo:
        l = todo.pop()
        if l in need or l not in db.labels: continue
        need.add(l); s = db.labels[l]
        if s.kind == "$p" and l not in wrong: todo += [x for x in proof_labels(s.proof) if x in db.labels and db.labels[x].kind in ("$a", "$p")]
    return need

WS = r"[ \t\r\n\f]+"
def raw(text):
    """[(comment or None, token)] in order"""
    out = []; cur = None
    for t in re.split(WS, text.strip(" \t\r\n\f")):
        if cur is None:
            if t == "$(": cur = []
            else: out.append(("tok", t))
        elif t == "$)": out.append(("com", cur)); cur = None
        else: cur.append(t)
    return out

def descriptions(text):
    """label -> words of the last comment before the keyword; and all $t comments"""
    d = {}; last = None; lab = None; ts = []; prev = None; inst = False; coms = []
    for k, x in raw(text):
        if k == "com":
            if not inst: last = x; coms.append(x)
            if x and x[0] == "$t": ts.append(x)
            continue
        if x in ("$a", "$p"): d[prev] = last; inst = True
        elif x in ("$c", "$v", "$d", "$e", "$f"): inst = True
        if x in ("$.", "${", "$}"): last = None; inst = False
        prev = x
    return d, ts, coms

def unlink(words):
    s = " ".join(words)
    s = re.sub(r"(\S+) ~ http://us\.metamath\.org/mpeuni/(\S+)\.html", lambda m: "~ " + m.group(1) if m.group(1) == m.group(2) else m.group(0), s)
    return s

DEC = ("####", "#*#*", "=-=-", "-.-.")
def special(com):
    s = " ".join(com)
    return any(w.startswith(DEC) for w in com) or "$[" in s or "$j" in s or "$t" in s

def check(full, ext, sel, lazy=False, wrong=()):
    """None or what is wrong"""
    f = refmm.Db(full, lazy)
    try: e = refmm.Db(ext, lazy)
    except refmm.RefError as x: return "it is not a well-formed database: %s" % x
    # what a wrong proof depends on is left open
    most, least = closure(f, sel), closure(f, sel, wrong)
    got = [l for l in e.order if e.labels[l].kind in ("$a", "$p")]
    want = [l for l in f.order if l in least or l in most and l in got]
    if got != want:
        miss = [x for x in want if x not in got]; more = [x for x in got if x not in want]
        return "it contains the assertions %s instead of %s%s%s" % (got, want, "; missing " + ",".join(miss) if miss else "", "; not needed " + ",".join(more) if more else "")
    hyps = set()
    for l in want:
        a, b = f.labels[l], e.labels[l]
        if (a.kind, a.math) != (b.kind, b.math): return "%s is %s %s instead of %s %s" % (l, b.kind, " ".join(b.math), a.kind, " ".join(a.math))
        if a.proof != b.proof: return "the proof of %s is %s instead of %s" % (l, b.proof, a.proof)
        if a.mand != b.mand or [f.labels[h].math for h in a.mand] != [e.labels[h].math for h in b.mand]: return "the hypotheses of %s are %s instead of %s" % (l, b.mand, a.mand)
        if a.dv != b.dv: return "the distinct variables of %s are %s instead of %s" % (l, sorted(b.dv), sorted(a.dv))
        if a.kind == "$p":
            pl = [x for x in proof_labels(a.proof) if x in a.hyps]
            if any(x not in b.hyps for x in pl): return "%s lacks hypotheses its proof uses" % l
            used = set(s for x in pl + a.mand for s in f.labels[x].math)
            if {p for p in a.alld if set(p) <= used} - b.alld: return "%s lacks a $d its proof may need" % l
        hyps |= set(a.hyps)
    extra = [l for l in e.order if e.labels[l].kind in ("$e", "$f") and l not in hyps]
    if extra: return "it contains the hypotheses %s, which are in the scope of none of its assertions" % extra
    df, tf, _ = descriptions(full); de, te, ce = descriptions(ext)
    for l in want:
        a, b = df.get(l), de.get(l)
        if a is None or special(a): continue
        if b is None or unlink(b) != unlink(a): return "the description of %s is %r instead of %r" % (l, None if b is None else " ".join(b), " ".join(a))
    if te != tf[:1] and tf: return "it contains %d $t comments, or another one" % len(te)
    if any("$j" in c for c in ce): return "it contains a $j comment"
    if any("$[" in c and "Extracted" not in c for c in ce): return "it contains inclusion markup"
    return None

def select(db_labels, pat):
    """labels matched by a pattern of labels, * and ?"""
    r = set()
    for p in pat.split(","):
        rx = re.compile("".join(".*" if ch == "*" else "." if ch == "?" else re.escape(ch) for ch in p) + r"\Z")
        r |= {l for l in db_labels if rx.match(l)}
    return r

def strip_head(t):
    """the extract without its own first comment and those that describe extractions"""
    toks = raw(t)
    return [x for x in toks if not (x[0] == "com" and x[1][:1] in (["Extracted"], ["Created"]))]

def extract_job(t):
    """t: [(text, save command or '', [selection patterns], case tag)]"""
    vs = []; n = 0; ds = set()
    for text, save, pats, tag in t:
        lines = ["set width 9999", "read a.mm"] + (["save proof */" + save] if save else []) + ["verify proof *", "write source full.mm"]
        for i, p in enumerate(pats): lines.append("write source o%d.mm /extract %s" % (i, p))
        for i, p in enumerate(pats): lines += ["erase"] + (["y"] if save and i == 0 else []) + ["read o%d.mm" % i, "verify proof *", "write source q%d.mm /extract %s" % (i, p)]
        r = mm.sess(lines + ["exit/force"], {"a.mm": text}, timeout=60)
        parts = mm.split_out(r.out)[2:]
        case = lambda i: dict(kind="extract", text=text, save=save, pat=pats[i], tag=tag)
        if r.crashed:
            vs.append(("crash", "%s: %s" % (tag, r.out[-300:]), case(0))); continue
        k = 2 + (1 if save else 0)
        full = mm.server().read("full.mm")
        lazy = tag.startswith("vars")
        fdb = refmm.Db(full, lazy)
        assertions = [l for l in fdb.order if fdb.labels[l].kind in ("$a", "$p")]
        vf, _ = verify_verdicts(parts[k], assertions)
        wrong = {l for l in vf if vf[l] == "err"}
        k += 2
        outs = parts[k:k + len(pats)]; k += len(pats)
        if save: k += 1
        for i, p in enumerate(pats):
            n += 1
            sel = select(assertions, p)
            what = "%s%s: /EXTRACT %s of\n%s\n" % (tag, " after SAVE PROOF */%s" % save if save else "", p, text)
            ext = mm.server().read("o%d.mm" % i)
            if not sel: continue
            if ext is None: vs.append(("extract", what + "no file is written: %s" % outs[i], case(i))); break
            bad = check(full, ext, sel, lazy, wrong)
            if bad: vs.append(("extract", what + "gives\n%s\n%s" % (ext, bad), case(i))); break
            rd, ver = parts[k + 4 * i + 1], parts[k + 4 * i + 2]
            if "No errors were found" not in rd: vs.append(("read", what + "gives\n%s\nwhich READ rejects: %s" % (ext, rd[:400]), case(i))); break
            need = [l for l in assertions if l in closure(fdb, sel, wrong)]
            ve, _ = verify_verdicts(ver, need)
            if any(ve[l] != vf[l] for l in need): vs.append(("verify", what + "gives\n%s\nwhose proofs verify as %s instead of %s" % (ext, ve, {l: vf[l] for l in need}), case(i))); break
            if set(need) != set(assertions): ds.add(mm.digest(ext.split("$)", 2)[2]))
            again = mm.server().read("q%d.mm" % i)
            if again is None: vs.append(("again", what + "extracting the same again writes nothing", case(i))); break
            bad = check(ext, again, sel, lazy, wrong)
            if not bad and strip_head(again) != strip_head(ext): bad = "its contents differ"
            if bad: vs.append(("again", what + "gives\n%s\nextracting the same again gives\n%s\n%s" % (ext, again, bad), case(i))); break
        if len(vs) > 2: break
    return n, ds, vs

# ---------------------------------------------------------------- graphs
PRE = """$c w |- A B $.
$v x y z $. fx $f w x $. fy $f w y $. fz $f w z $.
wa $a w A $. wb $a w B $.
b1 $a |- x $. b2 $a |- x $. b3 $a |- x $. b4 $a |- x $.
${ k.1 $e |- x $. k.2 $e |- y $. k $a |- y $. $}
"""
def use(an, i, d):
    """steps that derive |- x from theorem d in the proof of theorem i"""
    if an == "blocks": return ["fx", "fy", "u%d.1" % i, "t%d" % d]
    if an == "nested" and d in (2, 3): return ["fx"] + (["o.2"] if i == 3 else ["fx", "b%d" % i]) + ["t%d" % d]
    return ["fx", "t%d" % d]
def thm(an, i, deps, comp):
    """theorem i from axiom b_i and the theorems deps"""
    own = "fx"
    seqs = [[own, "b%d" % i]] + [use(an, i, d) for d in deps]
    p = []
    for n, s in enumerate(seqs): p.append(s)
    toks = list(p[0])
    # k: fx fy k.1 k.2 k
    if len(p) > 1:
        toks = None
        def build(ss):
            if len(ss) == 1: return list(ss[0])
            return [own, own] + ss[0] + build(ss[1:]) + ["k"]
        toks = build(p)
    if not comp: return "t%d $p |- x $= %s $." % (i, " ".join(toks))
    mand = ["fx", "fy", "u%d.1" % i] if an == "blocks" else ["fx", "o.2"] if an == "nested" and i in (2, 3) else ["fx"]
    labs = [l for l in dict.fromkeys(toks) if l not in mand]
    if comp == 2: labs = labs + ["b%d" % (i % 4 + 1)] * (("b%d" % (i % 4 + 1)) not in labs) + (["wb"] if i % 2 else [])
    if comp == 3 and i > 1: labs = labs + ["t%d" % (i - 1)] * (("t%d" % (i - 1)) not in labs)
    idx = {l: n for n, l in enumerate(mand + labs)}
    return "t%d $p |- x $=\n  ( %s ) %s $." % (i, " ".join(labs), "".join(chr(65 + idx[x]) for x in toks))

ARR = {
    "flat": ("", ["%s"] * 4),
    "blocks": ("", ["${ u%d.1 $e |- y $. $d y z $. $v q%d $. fq%d $f w q%d $. $d q%d x $. %%s $}" % ((i,) * 5) for i in range(1, 5)]),
    "nested": ("", ["${ $d x y $. o1 $f w o $. %s", "${ o.2 $e |- x $. %s", "%s $}", "%s $}"]),
    "shadow": ("", ["${ $v s $. fs%d $f w s $. $d s x $. %%s $}" % i for i in range(1, 5)]),
    "outer": ("$v o o2 $. $d x o $. $d o o2 $. fo $f w o $. fo2 $f w o2 $.\n", ["%s", "${ %s $}", "${ ${ %s $} $}", "$c C $. $v r $. fr $f w r $. %s"]),
    "tail": ("", ["%s last1 $a |- A $.", "$d x y $. %s", "${ $} %s", "%s ${ v.1 $e |- B $. last2 $a |- B $. $} $v n $."]),
}
ARR["nested"] = ("$v o $. ", ARR["nested"][1])

def graphs(arrs, comps):
    for an in arrs:
        head, shells = ARR[an]
        for deps in itertools.product(*[[c for r in range(i) for c in itertools.combinations(range(1, i), r)] for i in range(1, 5)]):
            for comp in comps:
                body = "\n".join(shells[i] % ("$( T%d. $)\n" % (i + 1) + thm(an, i + 1, deps[i], comp)) for i in range(4))
                yield "graph " + an, PRE + head + body + "\n"

def ok(text):
    """generated as intended: well-formed, all proofs right"""
    db = refmm.Db(text)
    for l in db.order:
        if db.labels[l].kind == "$p" and "(" not in db.labels[l].proof: db.verify(l)
    return True

SELS = [",".join("t%d" % (i + 1) for i in range(4) if m >> i & 1) for m in range(1, 16)] + ["*", "b2", "b1,wb", "k,t1", "t?", "*2", "w*"]

# ---------------------------------------------------------------- layouts
HDR = lambda d, t, c="": "\n$(\n%s\n  %s\n%s\n%s$)\n" % (d * 19, t, d * 19, c)
ALTS = [" ", "\n", "\t", "\r\n", "\f", "  \n \t", " $( c $) ", "\n$( c ~ b ~ a ~ t $)\n", "\n$( c $)\t$( d d $)\n", "\t$( c $)\n", "\n$( c $)\n\n$( d $)\t",
        HDR("#*#*", "Part"), HDR("=-=-", "Sect", "  text ~ b\n"), HDR("####", "Huge") + HDR("-.-.", "Tiny") + "$( d $) ", "\n$( $j syntax 'w'; $)\n", "\n$( x ` ~ b ` ~~ b ~ b, ~ b $)\n",
        "\n$( ~ t\n ~\n  b [X] ~ http://x ~ b.html $) ", "\n$( $)\n", "\n\t$( d ( e $)\n"]
TCOM = "\n$( $t htmldef \"x\" as \"x\"; latexdef \"|-\" as \"v\"; $)\n"
SLOTS = ["", "$c w |- $.", "$v x y $.", "fx $f w x $.", "${", "e1 $e |- x $.", "a", "$a |- x $.", "$}", "b", "$a |- x $.", "$d x y $. fy $f w y $.", "t", "$p |- x $=", "fx b $.", "s", "$p |- x $=", "fx t t2 $.", ""]
SLOTS[17] = "fx t $."
# SLOTS[i] follows gap i-1
def layout(gaps):
    t = ""
    for i in range(1, len(SLOTS) - 1): t += gaps[i - 1] + SLOTS[i]
    return t + gaps[len(SLOTS) - 2]

def layouts(deep):
    n = len(SLOTS) - 1
    base = ["\n"] * n
    def put(d):
        g = list(base)
        for k, v in d.items(): g[k] = v
        return layout(g)
    inner = lambda k: k in (6, 9, 12, 13, 15, 16) # within a statement
    def alts(k):
        r = list(ALTS) + ["\n$( after %s $)\n" % k]
        if k == 0: r = [""] + r + ["$( hdr $) $( def\n ghi $)\n", "$( Begin $[ i.mm $] $) ", "$( hdr\n more $)\n", "$( Extracted from: x $)\n", "\t$( one $) $( two $)\n"]
        if k == 10: r += [TCOM + x for x in ("", " ", "$( d $) ", HDR("#*#*", "P"))] + ["\n$( d $)" + TCOM, HDR("=-=-", "S") + TCOM, "\t" + TCOM.strip() + "\t"]
        if k == n - 1: r += [TCOM, TCOM + "$( end $)\n"]
        return r
    yield put({})
    for k in range(n):
        for a in alts(k):
            yield put({k: a})
            if k not in (10, n - 1): yield put({k: a, n - 1: TCOM})
    red = [ALTS[i] for i in ((0, 2, 6, 8, 11, 14) if not deep else range(len(ALTS)))]
    for i, j in itertools.combinations(range(n), 2):
        for a in ([""] if i == 0 else []) + red + ([alts(0)[-5], alts(0)[-4]] if i == 0 else []):
            for b in red + ([TCOM] if j in (n - 1, 10) else []): yield put({i: a, j: b})
    # inclusion marks
    for a, b in itertools.product(["\n", " $( c $) "], repeat=2):
        for i in range(n):
            for j in range(i + 1, n):
                if inner(i) or inner(j): continue
                yield put({i: a + "$( Begin $[ i.mm $] $)\n", j: b + "$( End $[ i.mm $] $)\n"})

def main(c):
    deep = c.thorough
    work = []
    arrs = list(ARR)
    for an in arrs:
        for tag, text in graphs([an], [0, 1, 2, 3]):
            if not ok(text): raise RuntimeError("generator: " + text)
            work.append((text, "", SELS if deep else SELS[:17] + SELS[17 + len(work) % 5:][:2], tag))
    for n, w in enumerate(list(work)):
        # in another format than the source
        f = ["compressed", "normal", "packed", "explicit"][n % 4]
        if deep or n % 3 == 0: work.append((w[0], f, SELS[:15:3] + ["*"], w[3] + " saved"))
    for name, (pre, shells) in systems.SYSTEMS.items():
        for si, shell in enumerate(shells):
            db, st = enum_proofs.context(pre, shell)
            for ps in mm.chunks(enum_proofs.enumerate_proofs(db, st, 3 if not deep else 5), 30):
                body = ""; i = 0
                for labs, expr in ps:
                    if not expr or expr[0] != "|-" and expr[0] not in db.consts: continue
                    variants = [labs] + ([tuple(labs[1:])] if len(labs) > 1 else []) + [("?",) + tuple(labs[1:])]
                    for v in variants:
                        if not v: continue
                        body += "z%d $p %s $= %s $.\n" % (i, " ".join(expr), " ".join(v)); i += 1
                if not i: continue
                text = pre + "${ " + shell + "\n" + body + "$}\n"
                pats = ["z%d" % k for k in range(i)] + ["z0,z%d" % (i - 1), "*"]
                work += [(text, "", p, "system %s %d" % (name, si)) for p in mm.chunks(pats, 40)]
    lay = []
    for t in layouts(deep):
        lay.append((t, "", ["t", "b", "s", "a", "*"], "layout"))
    c.add("databases", len(work) + len(lay))
    tasks = list(mm.chunks(work, 12)) + list(mm.chunks(lay, 40))
    for n, ds, vs in mm.pmap(extract_job, tasks, stop=c.enough):
        c.add("evaluations", n); c.distinct(ds)
        for v in vs: c.violation(*v)
    for t in (work + lay)[::max(1, len(work + lay) // 5)]: c.sample(repr(t)[:150])

def replay(v):
    r = v["replay"]
    vs = extract_job([(r["text"], r["save"], [r["pat"]], r["tag"])])[2]
    print(vs[0][1] if vs else "holds")
    return 1 if vs else 0
