"""VERIFY PROOF decodes compressed proofs exactly as specified."""
import itertools, json, re
import mm, refmm, systems, enum_proofs as ep, verdict
LEVEL = "exploration"

ALPH = "ABCDEFGHIJKLMNOPQRSTUVWXYZ?"

def mk_st(db, st0, label, stmt):
    st = refmm.Stmt("$p", label, list(stmt))
    vs = set(s for s in stmt)
    for h in st0.hyps:
        if db.labels[h].kind == "$e":
            vs |= set(db.labels[h].math)
    st.no = st0.no; st.hyps = st0.hyps; st.alld = st0.alld
    st.mand = [h for h in st0.hyps if db.labels[h].kind == "$e" or db.labels[h].math[1] in vs]
    return st

def ref_verdict(db, st0, stmt, plabs, letters):
    st = mk_st(db, st0, "t", stmt)
    if "?" in letters:
        return "open"
    try:
        # odd: correct, but in a form a verifier may refuse
        return "odd" if db.verify_compressed(st, plabs, letters) else "ok"
    except refmm.RefError:
        return "err"

def tree(db, proof):
    """postorder tree of a valid label sequence"""
    stack = []
    for l in proof:
        x = db.labels[l]
        k = 0 if x.kind in ("$e", "$f") else len(x.mand)
        ch = stack[len(stack) - k:]
        del stack[len(stack) - k:]
        stack.append((l, tuple(ch)))
    return stack[0]

def encodings(db, st, proof, limit=64):
    """All choices of which repeated subproofs are saved (Z), all orders of the
    label list for <=3 labels, plus one redundant Z. Yields (plabs, letters)."""
    t = tree(db, proof)
    cnt = {}
    def walk(n):
        cnt[n] = cnt.get(n, 0) + 1
        for c in n[1]:
            walk(c)
    walk(t)
    rep = [n for n in cnt if cnt[n] > 1 and n[1]]
    nonhyp = []
    for l in proof:
        if l not in st.mand and l not in nonhyp:
            nonhyp.append(l)
    perms = list(itertools.permutations(nonhyp)) if len(nonhyp) <= 3 else [tuple(nonhyp), tuple(nonhyp[::-1])]
    subsets = [c for k in range(len(rep) + 1) for c in itertools.combinations(rep, k)]
    extra = [n for n in cnt if n[1] and cnt[n] == 1][:2]
    n = 0
    for pl in perms:
        for sub in subsets + [tuple(rep) + (e,) for e in extra]:
            saved = {}
            out = []
            table = list(st.mand) + list(pl)
            def emit(nd):
                if nd in saved:
                    out.append(refmm.encode_number(len(table) + saved[nd]))
                    return
                for c in nd[1]:
                    emit(c)
                out.append(refmm.encode_number(table.index(nd[0]) + 1))
                if nd in sub:
                    saved[nd] = len(saved) + 1
                    out.append("Z")
            emit(t)
            yield pl, "".join(out)
            n += 1
            if n >= limit:
                return

def letter_edits(s):
    for i in range(len(s)):
        for a in ALPH:
            if a != s[i]:
                yield s[:i] + a + s[i + 1:]
        yield s[:i] + s[i + 1:]
        if i + 1 < len(s) and s[i] != s[i + 1]:
            yield s[:i] + s[i + 1] + s[i] + s[i + 2:]
    for i in range(len(s) + 1):
        for a in ALPH:
            yield s[:i] + a + s[i:]

def batch_text(pre, shell, items):
    a, b = ep.shell_db(pre, shell)
    s = [a]
    for i, (stmt, pl, letters) in enumerate(items):
        s.append("t%d $p %s $= ( %s ) %s $.\n" % (i, " ".join(stmt), " ".join(pl), letters))
    s.append(b)
    return "".join(s)

def run_batch(pre, shell, items):
    r = mm.sess(["read a.mm", "verify proof *", "exit"], {"a.mm": batch_text(pre, shell, items)}, timeout=30)
    if r.status != 0:
        return "status %d" % r.status
    o = mm.split_out(r.out)
    if len(o) < 4 or "No errors were found" not in o[2]:
        return "READ rejected a well-formed database"
    v, _ = verdict.verify_verdicts(o[3], ["t%d" % i for i in range(len(items))])
    return [v["t%d" % i] for i in range(len(items))]

def bad(ref, got):
    if ref == "odd":
        return False
    return (got != "ok") if ref == "ok" else (got == "ok")

def check_items(job):
    pre, shell, items = job
    db, st = ep.context(pre, shell)
    refs = [ref_verdict(db, st, s, pl, "".join(lt.split())) for s, pl, lt in items]
    got = run_batch(pre, shell, items)
    viol = []
    if isinstance(got, str):
        # find the culprit alone if there is one
        for it, rf in zip(items, refs):
            g = run_batch(pre, shell, [it])
            if isinstance(g, str):
                viol.append(dict(pre=pre, shell=shell, items=[it], what="( %s ) %s: %s" % (" ".join(it[1]), it[2], g)))
                break
        else:
            viol.append(dict(pre=pre, shell=shell, items=items, what=got))
    else:
        for i, it in enumerate(items):
            if bad(refs[i], got[i]) and len(viol) < 3:
                g = run_batch(pre, shell, [it])
                alone = isinstance(g, str) or bad(refs[i], g[0])
                viol.append(dict(pre=pre, shell=shell, items=[it] if alone else items,
                                 what="( %s ) %s of %s: reference %s, program %s" % (
                                     " ".join(it[1]), it[2], " ".join(it[0]), refs[i], got[i])))
    return dict(n=len(items), ok=refs.count("ok"), err=refs.count("err"), open=refs.count("open"), viol=viol,
                z=sum("Z" in it[2] for it in items), sample=items[len(items) // 2])

def gen_items(pre, shell, depth, edit_len):
    db, st0 = ep.context(pre, shell)
    base = ep.enumerate_proofs(db, st0, depth)
    seen = set()
    def put(x):
        if x not in seen:
            seen.add(x)
            return True
    alllabs = list(db.order)
    full = 0
    for p, e in base:
        st = mk_st(db, st0, "t", e)
        for pl, lt in encodings(db, st, p):
            if put((e, pl, lt)):
                yield (e, pl, lt)
            if len(lt) > 30:
                continue
            # white space anywhere in the letters
            for i in range(1, len(lt)):
                for ws in ("\n  ", "\t", " \n", "\f\n") if len(lt) < 20 else ("\n  ",):
                    if put((e, pl, lt[:i] + ws + lt[i:])):
                        yield (e, pl, lt[:i] + ws + lt[i:])
            if len(lt) > edit_len:
                continue
            for q in letter_edits(lt):
                if q and put((e, pl, q)):
                    yield (e, pl, q)
            for x in alllabs + ["zz"]:
                for k in (0, len(pl)):
                    y = pl[:k] + (x,) + pl[k:]
                    if put((e, y, lt)):
                        yield (e, y, lt)
            for k in range(len(pl)):
                y = pl[:k] + pl[k + 1:]
                if put((e, y, lt)):
                    yield (e, y, lt)

def number_jobs(top):
    """Every label number 1..top occurs: n axioms in the label list, used in all
    the positions around each change of encoding length, also as Z references."""
    for n in list(range(1, 30)) + list(range(95, 245)) + list(range(595, 760)) + ([top] if top > 650 else []):
        pre = "$c w |- $. $v a $. fa $f w a $.\n" + "".join("x%d $a w a $.\n" % i for i in range(1, n + 1)) 
        # x_k : w a from (w a); a proof is a chain of all of them
        labs = tuple("x%d" % i for i in range(1, n + 1))
        items = []
        allnum = "A" + "".join(refmm.encode_number(i + 1) for i in range(1, n + 1))
        items.append((("w", "a"), labs, allnum))
        items.append((("w", "a"), labs[::-1], allnum))
        items.append((("w", "a"), labs, allnum + refmm.encode_number(n + 2)))
        items.append((("w", "a"), labs, allnum + "Z"))
        # label lists of which one or two entries are used: every number occurs
        # in a proof without the numbers around it, and each label proves
        # something different
        pre += "$c %s $.\n" % " ".join("c%d" % i for i in range(1, n + 1))
        pre += "".join("y%d $a w c%d a $.\n" % (i, i) for i in range(1, n + 1))
        yl = tuple("y%d" % i for i in range(1, n + 1))
        for k in (n, n - 1, max(1, n - 20), max(1, n - 100)):
            if k < 1:
                continue
            items.append((("w", "c%d" % k, "a"), yl, "A" + refmm.encode_number(k + 1)))
            items.append((("w", "c%d" % max(1, k - 1), "a"), yl, "A" + refmm.encode_number(k + 1)))
            items.append((("w", "c%d" % k, "c1", "a"), yl, "AB" + refmm.encode_number(k + 1)))
            items.append((("w", "c%d" % k, "c1", "a"), yl, "ABZ" + refmm.encode_number(k + 1) + "Z"))
        items.append((("w", "c%d" % n, "a"), yl, "A" + refmm.encode_number(n + 2)))
        yield (pre, "", items)
    # four and five leading letters
    for n in (3119, 3121, 3150) + ((15619, 15621, 15640) if top > 700 else ()):
        pre = "$c w |- $. $v a $. fa $f w a $.\n$c %s $.\n" % " ".join("c%d" % i for i in range(1, n + 1))
        pre += "".join("y%d $a w c%d a $.\n" % (i, i) for i in range(1, n + 1))
        yl = tuple("y%d" % i for i in range(1, n + 1))
        items = []
        for k in (n, n - 1, n - 2, n - 3, n - 20, n - 499, 1, 20, 119, 120, 619, 620):
            items.append((("w", "c%d" % k, "a"), yl, "A" + refmm.encode_number(k + 1)))
            items.append((("w", "c%d" % max(1, k - 1), "a"), yl, "A" + refmm.encode_number(k + 1)))
        items.append((("w", "c%d" % n, "a"), yl, "A" + refmm.encode_number(n + 2)))
        yield (pre, "", items)
    # numbers of any length: all beyond the table (also those beyond a machine word)
    pre = "$c w |- $. $v a $. fa $f w a $. x $a w a $. y $a w a $.\n"
    items = []
    for k in range(1, 70):
        for d in "UVWXY":
            for last in "ABCT":
                items.append((("w", "a"), ("x", "y"), "A" + d * k + last))
                if last == "B":
                    items.append((("w", "a"), ("x", "y"), "AZ" + d * k + last + "B"))
    # every number that is 2, 3 or 4 modulo 2^32 and 2^64, once in full
    for m in (2 ** 32, 2 ** 33, 2 ** 63, 2 ** 64, 2 ** 65, 3 * 2 ** 64, 2 ** 96, 2 ** 128):
        for r in range(-3, 8):
            items.append((("w", "a"), ("x", "y"), "A" + refmm.encode_number(m + r)))
    for c in mm.chunks(items, 100):
        yield (pre, "", c)
    # pairs: two-hypothesis joiner so that Z references are all used
    for n in list(range(1, 26)) + list(range(90, 130)) + list(range(600, 625, 4)):
        pre = "$c w |- ( ) $. $v a b $. fa $f w a $. fb $f w b $.\n j $a w ( a b ) $. g $a w ( a ) $.\n k $a w b $.\n"
        # chain of n distinct saved steps, then fold them back with k (drops first)
        s = "A"
        table = ["fa", "g", "k"]     # mandatory: fa only (statement w a)
        chain = "A" + "".join("BZ" for _ in range(n))
        fold = ""
        for i in range(1, n + 1):
            fold += refmm.encode_number(3 + i) + "C"
        ok = chain + fold + "AC"
        bad1 = chain + fold + refmm.encode_number(3 + n + 1) + "C" + "AC"
        items = [(("w", "a"), ("g", "k"), ok), (("w", "a"), ("g", "k"), bad1),
                 (("w", "a"), ("g", "k"), ok[:-2]), (("w", "a"), ("k", "g"), ok)]
        def deep(i):
            return ("w",) + ("(",) * i + ("a",) + (")",) * i
        for i in range(max(1, n - 3), n + 1):
            items.append((deep(i), ("g", "k"), chain + refmm.encode_number(3 + i) + "C"))
            items.append((deep(i - 1), ("g", "k"), chain + refmm.encode_number(3 + i) + "C"))
        yield (pre, "", items)

def jobs(thorough):
    cfg = {"PROP": (6, 12), "DV": (5, 10), "MIU": (4, 10), "ORD": (5, 10), "SCO": (6, 10), "SUB": (6, 12)}
    if thorough:
        cfg = {"PROP": (7, 20), "DV": (7, 16), "MIU": (6, 14), "ORD": (7, 14), "SCO": (8, 14), "SUB": (7, 16)}
    for name, (pre, shells) in systems.SYSTEMS.items():
        sh = shells
        if name == "DV":
            sh = [shells[0], shells[21], shells[-1]] if not thorough else shells[::3] + [shells[-1]]
        if name == "ORD":
            sh = [shells[0], shells[7], shells[8], shells[9]] if not thorough else shells
        for s in sh:
            for c in mm.chunks(gen_items(pre, s, *cfg[name]), 400):
                yield (pre, s, c)
    yield from number_jobs(3200 if thorough else 700)

def main(c):
    c.cov["rule"] = ("every valid proof up to the depth in 6 systems x every choice of saved subproofs x every label order, "
                     "then every single-letter edit, every white-space split and every label-list edit; plus a sweep over the number "
                     "of labels and of saved steps across each encoding-length boundary; non-trivial = uses a saved step (Z)")
    c.cov["evaluations"] = c.cov["distinct_nontrivial"] = 0
    for r in mm.pmap(check_items, jobs(c.thorough), stop=c.enough):
        c.add("evaluations", r["n"]); c.add("distinct_nontrivial", r["z"])
        c.add("reference_accepts", r["ok"]); c.add("reference_rejects", r["err"]); c.add("with_unknown_step", r["open"])
        s = r["sample"]
        c.sample({"statement": " ".join(s[0]), "labels": " ".join(s[1])[:100], "letters": s[2][:100]})
        for v in r["viol"]:
            if all("UV" in i[2] and "UU" not in i[2] for i in v["items"]):
                c.violation("obsolete-compression-guess", v["what"], v)
                continue
            c.violation(mm.digest(json.dumps([v["pre"], v["shell"], v["items"]])), v["what"], v)
    c.cov["exhaustive"] = True

def replay(v):
    v = v["replay"]
    items = [(tuple(a), tuple(b), l) for a, b, l in v["items"]]
    r = check_items((v["pre"], v["shell"], items))
    for x in r["viol"]:
        print(x["what"])
    return 1 if r["viol"] else 0
