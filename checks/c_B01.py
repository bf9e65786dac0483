"""File inclusion reads each file exactly once, in place."""
import itertools, re
import mm

LEVEL = "exploration"

NAMES = ["a.mm", "b.mm", "d.mm", "e.mm"]

def incl(name, form):
    return {"plain": "$[ %s $]", "lines": "$[\n%s\n$]", "cmt": "$[ $( x\n$) %s $]", "tight": "$( p $) $[ %s $] $( q $)"}[form] % name

def make(graph, sep, endnl, form, extra):
    """graph: per file the list of included file numbers -> {name: text}"""
    out = {}
    for i, tg in enumerate(graph):
        c = "abde"[i]
        items = []
        if i == 0:
            items.append("$c w ( ) $.")
        items.append("%s0 $a w $." % c)
        for k, t in enumerate(tg):
            if extra == "scope":
                items.append("${")
            if extra == "comment":
                items.append("$( $[ %s $] and $[ nofile.mm $] $)" % NAMES[3 - t])
            items.append(incl(NAMES[t], form) if t >= 0 else incl("nofile.mm", form))
            items.append("%s%d $a w w $." % (c, k + 1))
            if extra == "scope":
                items.append("$}")
        if extra == "first" and i:      # nothing before the first inclusion
            items = items[1:]
        if extra == "last":             # nothing after the last one
            items = items[:-1] if len(items) > 2 else items
        if extra == "empty" and not tg and i:
            items = []
        if extra == "onlycomment" and not tg and i:
            items = ["$( nothing here $)"]
        out[NAMES[i] if i < 4 else "f%d.mm" % i] = sep.join(items) + ("\n" if endnl else "")
    return out

TOK = re.compile(r"\S+")
class Missing(Exception):
    pass

def expand(files, main):
    """-> [(token, file, line)] outside comments, inclusions expanded"""
    seen = {main}
    def go(name):
        t = files[name]
        toks = []
        for ln, l in enumerate(t.split("\n"), 1):
            for x in l.split():
                toks.append((x, ln))
        out = []
        inc = None
        i = 0
        while i < len(toks):
            x, ln = toks[i]
            i += 1
            if x == "$(":
                j = i
                while toks[j][0] != "$)":
                    j += 1
                c = [y[0] for y in toks[i:j]]
                i = j + 1
                if len(c) != 4 or c[0] not in ("Begin", "Skip") or c[1] != "$[" or c[3] != "$]":
                    continue
                n = c[2]
                if c[0] == "Skip":      # an inclusion that a merge found repeated
                    if n not in seen:
                        if n not in files:
                            raise Missing(n)
                        seen.add(n)
                        out += go(n)
                elif n not in seen:     # the file in place: read on in it
                    seen.add(n)
                else:                   # repeated: leave it out
                    e = [y for y in range(i, len(toks)) if [z[0] for z in toks[y:y + 6]] == ["$(", "End", "$[", n, "$]", "$)"]][0]
                    i = e + 6
            elif x == "$[":
                inc = []
            elif inc is not None:
                if x == "$]":
                    n, = inc
                    inc = None
                    if n not in seen:
                        if n not in files:
                            raise Missing(n)
                        seen.add(n)
                        out += go(n)
                else:
                    inc.append(x)
            else:
                out.append((x, name, ln))
        return out
    return go(main)

def statements(toks):
    """[(number, label, file, line, math)] of the labelled statements; the
    location of a statement is that of its label"""
    out = []
    n = 0
    cur = []
    for x, f, ln in toks:
        cur.append((x, f, ln))
        if x in ("$.", "${", "$}"):
            n += 1
            if cur[0][0][0] != "$":
                out.append((n, cur[0][0], cur[0][1], cur[0][2], " ".join(c[0] for c in cur[2:-1])))
            cur = []
    return out

def parse_show(txt):
    out = []
    for b in re.split(r"^Statement (?=\d+ is located)", txt, flags=re.M)[1:]:
        m = re.match(r'(\d+) is located on line (\d+) of the file "([^"]*)"', b)
        k = re.search(r"^(\d+) (\S+) \$a (.*?) \$\.$", b, re.M)
        if not m or not k:
            out.append(b[:200])
        else:
            out.append((int(m.group(1)), k.group(2), m.group(3), int(m.group(2)), k.group(3)))
    return out

def flat(ref):
    return [x[:2] + x[4:] for x in ref]

def case(files, main="a.mm", deep=True):
    try:
        ref = statements(expand(files, main))
        miss = False
    except Missing:
        miss = True
    cmds = ["set width 9000", "read a.mm", "show statement */full"]
    if deep and not miss:
        cmds += ["write source a.mm", "erase", "read a.mm", "show statement */full"]
    r = mm.sess(cmds + ["exit"], files)
    if r.status != 0:
        return "status %d: %s" % (r.status, r.out[-300:])
    o = mm.split_out(r.out)
    if miss:
        if "was not found" not in o[3] or "Source was not read" not in o[3] or "No source file has been read" not in o[4]:
            return "a missing file is not reported as an error that stops READ: " + o[3]
        return None
    if "No errors were found." not in o[3]:
        return "READ rejects: " + o[3][-400:]
    got = parse_show(o[4]) if ref else []
    if got != ref:
        return "statements (number, label, file, line, math): program %s, reference %s" % (got, ref)
    if deep:
        t = mm.server().read("a.mm")
        if t is None or "No errors were found." not in o[7]:
            return "the merged file cannot be read: %r %s" % (t, o[7][-300:])
        ref2 = statements(expand({"a.mm": t}, "a.mm"))
        if flat(ref2) != flat(ref):
            return "the merged file has other statements: %r" % t
        got = parse_show(o[8]) if ref else []
        if got != ref2:
            return "merged file: statements: program %s, reference %s; %r" % (got, ref2, t)
    return None

def job(items):
    n = 0
    d = set()
    viol = []
    for a in items:
        files = a[0] if isinstance(a[0], dict) else make(*a)
        w = case(files)
        n += 1
        if any("$[" in x for x in files.values()):
            d.add(hash(str(sorted(files.items()))))
        if w and len(viol) < 3:
            viol.append(dict(files=files, what=w))
    return dict(n=n, d=d, viol=viol, sample=str(items[len(items) // 2])[:300])

MAINS = ["a.mm", "b.mm", "d.mm", "e.mm"]

def item(it, salt):
    """(kind, target, contents) -> text; contents differ from the file on disk"""
    k = it[0]
    if k == "s":
        return "s%s $a w w $." % salt
    f = MAINS[it[1]]
    if k == "p":
        return "$[ %s $]" % f
    if k == "k":
        return "$( Skip $[ %s $] $)" % f
    if k == "l":                # over several lines
        return "$(\nSkip\n$[ %s\n$]\n$)" % f
    if k == "m":
        return "$( Begin\n$[\n%s $]\n$)\n\n%s\n\n$( End\n $[ %s\n$] $)" % (f, "".join("%s\n" % item(x, salt + "xyz"[j]) for j, x in enumerate(it[2])), f)
    return "$( Begin $[ %s $] $)\n%s$( End $[ %s $] $)" % (f, "".join("\n%s\n" % item(x, salt + "xyz"[j]) for j, x in enumerate(it[2])), f)

def mk2(items, b, d, sep):
    """main with the items; b.mm, d.mm, e.mm on disk"""
    t = "$c w $.%s" % sep + "".join(item(it, "pqrs"[j]) + sep + "m%d $a w $.%s" % (j, sep) for j, it in enumerate(items))
    return {"a.mm": t, "b.mm": "b0 $a w $.\n" + "".join(item(it, "B%d" % j) + "\nb%d $a w $.\n" % (j + 1) for j, it in enumerate(b)),
            "d.mm": "d0 $a w $.\n" + "".join(item(it, "D%d" % j) + "\nd%d $a w $.\n" % (j + 1) for j, it in enumerate(d)),
            "e.mm": "e0 $a w $.\n"}

def regions(deep):
    """sources that a merge has written: regions and markers, nested"""
    leaf = [(k, t) for k in "pk" for t in (1, 2)]
    inner = [()] + [(x,) for x in [("s",)] + leaf + [("b", 2, ()), ("b", 2, (("s",),)), ("b", 2, (("p", 3),))]]
    inner += [(("s",), ("p", 2)), (("p", 2), ("s",)), (("p", 2), ("p", 3)), (("p", 3), ("k", 2)), (("b", 2, (("s",),)), ("p", 2))]
    one = leaf + [("b", t, x) for t in (1, 2) for x in inner if not any(y[0] == "b" and y[1] == t for y in x)]
    few = leaf + [("b", 1, ()), ("b", 1, (("s",),)), ("b", 1, (("p", 2),)), ("b", 2, (("p", 1),)), ("b", 2, (("s",),)), ("b", 1, (("b", 2, (("p", 3),)),))]
    multi = [(k, t) for k in "pkl" for t in (1, 2)] + [("m", t, x) for t in (1, 2) for x in ((), (("s",),), (("l", 3 - t),), (("m", 3 - t, (("s",),)),))]
    for sep in ("\n", " "):
        for b, d in [((), ()), ((("l", 2),), ()), ((("m", 2, (("s",),)),), (("l", 1),))]:
            for k in range(1, 4):
                for its in itertools.product(multi, repeat=k) if deep or k < 3 or not (b or d) else ():
                    yield (mk2(its, b, d, sep),)
    disk = [((), ()), ((("p", 2),), ()), ((), (("k", 1),)), ((("b", 2, (("s",),)),), ()), ((("k", 2),), (("p", 3),))]
    for sep in ("\n", " "):
        for b, d in disk:
            for k in range(1, 3):
                for its in itertools.product(one, repeat=k):
                    yield (mk2(its, b, d, sep),)
            if deep or (not b and not d):
                for its in itertools.product(few, repeat=3):
                    yield (mk2(its, b, d, sep),)

def lists(t, k):
    return [x for j in range(k + 1) for x in itertools.product(t, repeat=j)]

def gen(deep):
    # graphs over four files, one layout
    L2, L1 = lists(range(4), 2), lists(range(4), 1)
    for g in itertools.product(L2, L2, L2 if deep else L1, L2 if deep else L1):
        yield g, "\n", True, "plain", ""
    # graphs over three files x layouts
    K2, K1 = lists(range(3), 2), lists(range(3), 1)
    for g in itertools.product(K2, K2 if deep else K1, K1):
        for sep in ("\n", " ", "\n\n", "\n $( c\n $)\n"):
            for endnl in (True, False):
                for form in ("plain", "lines", "cmt", "tight"):
                    for extra in ("",) if not deep else ("", "scope", "comment"):
                        yield g, sep, endnl, form, extra
        for sep in ("\n", " "):
            for endnl in (True, False):
                for extra in ("scope", "comment", "first", "last", "empty", "onlycomment"):
                    yield g, sep, endnl, "plain", extra
    # missing files at every place
    for g in itertools.product(lists((-1, 1, 2), 2), lists((-1, 0, 2), 1), lists((-1, 1), 1)):
        if any(-1 in x for x in g):
            yield g, "\n", True, "plain", ""
    yield from regions(deep)
    # sizes: chains, stars, combs
    for n in list(range(1, 30)) + [38, 39, 40, 41, 42, 58, 59, 60, 61, 100]:
        for kind in range(3):
            f = {"a.mm": "$c w $.\n"}
            nm = lambda i: "f%d.mm" % i
            if kind == 0:
                f["a.mm"] += "$[ f0.mm $]\nz $a w $.\n"
                for i in range(n):
                    f[nm(i)] = "p%d $a w $.\n" % i + ("$[ %s $]\n" % nm(i + 1) if i + 1 < n else "") + "q%d $a w w $.\n" % i
            elif kind == 1:
                for i in range(n):
                    f["a.mm"] += "$[ %s $] r%d $a w $.\n" % (nm(i), i)
                    f[nm(i)] = "\n" * (i % 3) + "p%d $a w $.\n" % i
            else:
                for i in range(n):
                    f["a.mm"] += "\n$[ %s $] r%d $a w $.\n$[ %s $]\n" % (nm(i), i, nm(i // 2))
                    f[nm(i)] = "$[ %s $] p%d $a w $.\n" % (nm(n - 1 - i), i)
            yield (f,)

def main(c):
    c.cov["rule"] = ("every inclusion graph over four files (main and included files include up to two, in quick two of them up to one, of all files, "
                     "themselves and main included), every layout for graphs over three files, sources with already merged regions (Begin/End, Skip; nested two deep, mixed with plain inclusions), missing files, chains/stars/combs up to 100 files; for "
                     "each the number, place (file, line) and formula of every statement, and the same again for the merged file; all distinct")
    for r in mm.pmap(job, mm.chunks(gen(c.thorough), 100), stop=c.enough):
        c.add("evaluations", r["n"]); c.distinct(r["d"])
        c.sample(r["sample"])
        for v in r["viol"]:
            c.violation(mm.digest(str(v["files"])), "%s: %s" % (v["files"], v["what"]), v)
    c.cov["exhaustive"] = True

def replay(v):
    w = case(v["replay"]["files"])
    print(w or "holds")
    return 1 if w else 0
