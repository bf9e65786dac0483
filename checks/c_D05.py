"""SHOW STATEMENT, SHOW SOURCE, MORE and FILE SEARCH show what is there."""
import itertools, re
import mm, refmm

LEVEL = "exploration"
RULE = "-" * 79

def sessions(cmds, files):
    r = mm.sess(["set width 79"] + cmds + ["exit"], files, timeout=20)
    if r.status != 0:
        return None, "status %d: %s" % (r.status, r.out[-300:])
    return mm.split_out(r.out), None

# ------------------------------------------------------------ $d display
TDEF = '$( $t htmltitle "T"; %s $)\n' % " ".join('htmldef "%s" as "[%s]"; althtmldef "%s" as "{%s}";' % (s, s, s, s) for s in "wff |- a b c d e f =".split())

def dv_text(items, html):
    """items: [(variables in the formula, list of $d groups)]"""
    s = TDEF if html else ""
    s += "$c wff |- = $.\n$v a b c d e f $.\n" + "".join("w%s $f wff %s $.\n" % (v, v) for v in "abcdef")
    for i, (vs, ds) in enumerate(items):
        k = nhyps(i, vs)
        s += "${ %s\n%s$( Text. $)\nt%d $a |- %s $. $}\n" % (" ".join("$d %s $." % " ".join(g) for g in ds), "".join("t%d.%d $e |- %s $.\n" % (i, j, vs[j]) for j in range(k)), i, " ".join(vs[k:]))
    return s

def nhyps(i, vs):
    """how many of the variables stand in hypotheses of their own"""
    return (0, 2, 0, 1, 3, 0)[i % 6] % len(vs)

def pairs_of(groups):
    return {tuple(sorted(p)) for g in groups for p in itertools.combinations(g, 2)}

def dv_run(items, html):
    bad = []
    txt = dv_text(items, html)
    mm.server().clean()
    cmds = ["read a.mm", "show statement t*"] + (["show statement t*/%s" % html] if html else [])
    r = mm.sess(cmds + ["exit"], {"a.mm": txt}, timeout=30, clean=False)
    if r.status != 0:
        return [(None, "status %d: %s" % (r.status, r.out[-300:]))]
    o = mm.split_out(r.out)
    parts = re.split(r"^-{60,}$", o[3], flags=re.M)
    if len(parts) != len(items):
        return [(None, "%d statements shown instead of %d" % (len(parts), len(items)))]
    for i, (vs, ds) in enumerate(items):
        want = {p for p in pairs_of(ds) if set(p) <= set(vs)}
        p = parts[i].split()
        k = p.index("t%d" % i)
        nh = nhyps(i, vs)
        num = int(p[k - 1])
        hyp = []
        for j in range(nh):
            hyp += ("%d t%d.%d $e |- %s $." % (num - nh + j, i, j, vs[j])).split()
        head = p[:k - 1]
        if head[len(head) - len(hyp):] != hyp:
            bad.append((i, "SHOW STATEMENT shows %r with the hypotheses %r" % (" ".join(p), " ".join(hyp)))); continue
        head = head[:len(head) - len(hyp)]
        gs, cur = [], None
        for t in head:
            if t == "$d":
                cur = []
            elif t == "$.":
                gs.append(cur); cur = None
            elif cur is None:
                bad.append((i, "unexpected %r" % " ".join(head))); break
            else:
                cur.append(t)
        got = pairs_of(gs)
        if got != want or any(len(set(g)) != len(g) or len(g) < 2 for g in gs):
            bad.append((i, "SHOW STATEMENT shows %s for the pairs %s" % (" ".join(head), sorted(want))))
        elif " ".join(p[k:]) != "t%d $a |- %s $." % (i, " ".join(vs[nh:])):
            bad.append((i, "SHOW STATEMENT shows %s" % " ".join(p)))
        if html:
            pg = mm.server().read("t%d.html" % i)
            if pg is None:
                bad.append((i, "no page")); continue
            m = re.search(r'Distinct variable</A>\s+group(s?):\s(.*?)</CENTER>', pg, re.S)
            hg = []
            if m:
                o_, c_ = "{}" if html == "alt_html" else "[]"
                for g in re.sub(r"</?SPAN[^>]*>", "", m.group(2)).split("&nbsp;"):
                    if g.strip():
                        hg.append([x.strip().strip(o_ + c_) for x in g.split(",")])
            if pairs_of(hg) != want or (m and (m.group(1) == "s") != (len(hg) > 1)):
                bad.append((i, "the page of t%d shows the groups %s for the pairs %s" % (i, hg, sorted(want))))
    return bad

def dv_items(deep):
    def graphs(vs, maxe):
        ps = list(itertools.combinations(vs, 2))
        for k in range(maxe + 1):
            for c in itertools.combinations(ps, k):
                yield c
    # every graph on 4 variables, every order of up to 4 pairs, both ways round
    for g in graphs("abcd", 6):
        for q in itertools.islice(itertools.permutations(g), 120 if deep < 2 else 720):
            yield "abcd", [p if (i + len(q)) % 3 else p[::-1] for i, p in enumerate(q)]
    for g in graphs("abcde", 10):
        for q in {g, g[::-1], g[1::2] + g[::2], tuple(sorted(g, key=lambda p: p[1]))}:
            yield "abcde", list(q)
            yield "dbeca", list(q)
    # groups, some with variables the statement does not have
    tri = [c for n in (2, 3, 4) for c in itertools.combinations("abcdef", n)]
    for x, y in itertools.product(tri, repeat=2):
        yield "abcd", [x, y[::-1]]
        if deep:
            yield "acef", [y, x]
            yield "fb", [y, x]
    if deep:
        for g in graphs("abcdef", 4 if deep < 2 else 6):
            for q in itertools.islice(itertools.permutations(g), 0, 720, 5 if len(g) < 5 else 97):
                yield "fadbce", list(q)
        if deep > 1:
            for g in graphs("abcde", 10):
                for k in range(1, 12):
                    yield "abcde", sorted(g, key=lambda p: (ord(p[0]) * 31 * k + ord(p[1]) * 17 * k * k) % 101)

# ------------------------------------------------------------ layouts
GAPS = ["\n", " ", "\n\n  ", "\n$( one $)\n", "\n  $( two\n     lines $) ", "\n$( first $)\n\n$( second $)\n", "  $( same line $)\n   ", "\n$( %s $)\n" % " ".join("word%d" % i for i in range(30)), '\n$( say "x" `y` _z_ ~ l $)\n', "\n$( $)\n", "\n\t$( tab\tin\n\tit $)\n\t"]
INNER = [" ", "\t", "\n    ", " $( in $) ", "\n  $( in\n two $)\n "]

def lay_text(g):
    """g: gaps: before wx, before ${, before h, before ax, between ax and $a, in the formula, before t, in t, after"""
    return ("$c wff |- ( ) $." + g[0] + "$v x y $." + g[1] + "wx $f wff x $.\nwy $f wff y $." + g[2] + "${" + g[3] + "h1" + g[5] + "$e |- x $." + g[4] +
            "ax" + g[5] + "$a" + g[6] + "|- ( y )" + g[6] + "$. $}" + g[7] + "t" + g[5] + "$p |-" + g[6] + "y $=" + g[6] + "? $." + g[8])

def comments(t):
    return re.findall(r"\$\((?:(?!\$\)).)*\$\)", t, re.S)

def lay_ref(text, files):
    """-> [(label, kind, file, line, raw text, comment or None, tokens of the
    formula, tokens)] for the labelled statements; text is the expanded text,
    files a function position -> (file, line)"""
    out, a, pos = [], 0, 0
    lab = None
    tok = []
    kind = None
    for m in re.finditer(r"\$\((?:(?:(?!\$\)).)*)\$\)|\S+", text, re.S):
        t = m.group()
        if t.startswith("$("):
            continue
        if t in ("${", "$}"):
            a = m.end(); tok = []; lab = None; kind = None
            out.append((None, t))
            continue
        if t == "$.":
            raw = text[a:m.end()]
            if lab:
                sec = text[a:ks]
                cs = comments(sec)
                # the comment immediately before the label, or, failing that, after it
                out.append((lab, kind, (files(lp), files(ks)), raw, cs[-1][2:-2].strip(" \n") if cs else "", tok, pf))
            else:
                out.append((None, kind))
            a = m.end(); tok = []; lab = None; kind = None
            continue
        if kind is None:
            if t in ("$c", "$v", "$d", "$f", "$e", "$a", "$p"):
                kind, ks, pf, cur = t, m.start(), None, 0
            else:
                lab, lp = t, m.start()
        elif t == "$=":
            pf = []
        elif pf is not None:
            pf.append(t)
        else:
            tok.append(t)
    return out

def norm(t):
    return " ".join(t.split())

def lay_run(text, split):
    """split: None or the position of the second half, which goes to a file"""
    if split is None:
        files = {"a.mm": text}
        where = lambda p: ("a.mm", text.count("\n", 0, p) + 1)
        whole = text
    else:
        k = text.index("${")
        files = {"a.mm": text[:k] + "$[ b.mm $]\n", "b.mm": "\n" * split + text[k:]}
        where = lambda p: ("a.mm", text.count("\n", 0, p) + 1) if p < k else ("b.mm", text.count("\n", k, p) + 1 + split)
        whole = text
    ref = lay_ref(text, where)
    stm = [(i + 1, s) for i, s in enumerate(ref) if s[0]]
    cmds = ["read a.mm", "show statement *", "show statement */comment", "show statement */full"]
    for n, s in stm:
        cmds += ["show statement %s" % s[0], "show source %s" % s[0], "show statement %s/comment" % s[0]]
    o, e = sessions(cmds, files)
    if e:
        return e
    if "No errors were found" not in o[3]:
        return "READ rejects %s" % o[3][-300:]
    def body(n, s):
        if s[1] in ("$f", "$e"):
            return ["%d %s %s %s $." % (n, s[0], s[1], " ".join(s[5]))]
        hyp = ["%d %s $e %s $." % (m, u[0], " ".join(u[5])) for m, u in stm if u[1] == "$e" and s[0] == "ax"]
        return hyp + ["%d %s %s %s %s" % (n, s[0], s[1], " ".join(s[5]), "$= ... $." if s[1] == "$p" else "$.")]
    def comm(s):
        return '"%s"' % s[4] if s[4] else '?Warning: Statement "%s" has no comment' % s[0]
    aps = [(n, s) for n, s in stm if s[1] in ("$a", "$p")]
    want = (" %s " % RULE).join(norm(" ".join(body(n, s))) for n, s in aps)
    if norm(o[4]) != want:
        return "SHOW STATEMENT * shows %r instead of %r" % (norm(o[4]), want)
    want = (" %s " % RULE).join(norm(comm(s) + " " + " ".join(body(n, s))) for n, s in aps)
    if norm(o[5]) != want:
        return "SHOW STATEMENT */COMMENT shows %r instead of %r" % (norm(o[5]), want)
    parts = re.split(r"^-{60,}$", o[6], flags=re.M)
    if len(parts) != len(stm):
        return "SHOW STATEMENT */FULL shows %d statements instead of %d" % (len(parts), len(stm))
    pink = 0
    for p, (n, s) in zip(parts, stm):
        m = re.match(r'Statement (\d+) is located on line (\d+) of the file "([^"]*)"', norm(p))
        if not m or int(m.group(1)) != n or (m.group(3), int(m.group(2))) not in s[2]:
            return "SHOW STATEMENT /FULL shows %r for statement %d at %s" % (norm(p), n, s[2])
        w = m.group() + "."
        if s[1] in ("$a", "$p"):
            pink += 1
            w += " Its statement number for HTML pages is %d." % pink
        w += " " + comm(s) + " " + body(n, s)[-1]
        if not norm(p).startswith(norm(w)):
            return "SHOW STATEMENT /FULL shows %r, which does not begin with %r" % (norm(p), norm(w))
    for k, (n, s) in enumerate(stm):
        a, b, c = o[7 + 3 * k:10 + 3 * k]
        if norm(a) != norm(" ".join(body(n, s))):
            return "SHOW STATEMENT %s shows %r" % (s[0], norm(a))
        raw = s[3]
        # lines too long for the screen are broken
        lines = b[:-1] if b.endswith("\n") else b
        if all(len(x) < 79 for x in raw.split("\n")):
            if lines.rstrip(" ") != raw.rstrip(" "):
                return "SHOW SOURCE %s shows %r instead of %r" % (s[0], b, raw)
        elif "".join(lines.split()) != "".join(raw.split()):
            return "SHOW SOURCE %s shows %r instead of %r" % (s[0], b, raw)
        if s[4] and all(len(x) < 76 for x in s[4].split("\n")) and not c.startswith('"%s"\n' % s[4]):
            return "SHOW STATEMENT %s/COMMENT shows %r instead of %r" % (s[0], c, comm(s))
        if norm(c) != norm(comm(s) + " " + " ".join(body(n, s))):
            return "SHOW STATEMENT %s/COMMENT shows %r instead of %r" % (s[0], norm(c), norm(comm(s) + " " + " ".join(body(n, s))))
    return None

def lay_gen(deep):
    base = ["\n", "\n", "\n", "\n", "\n", " ", " ", "\n", "\n"]
    opts = [GAPS, GAPS, GAPS, GAPS, GAPS, INNER, INNER, GAPS, GAPS]
    seen = set()
    for i, j in itertools.combinations(range(9), 2):
        for x, y in itertools.product(opts[i], opts[j]):
            g = list(base); g[i], g[j] = x, y
            k = tuple(g)
            if k in seen:
                continue
            seen.add(k)
            yield lay_text(g), None
            if (i in (3, 4, 7) or deep) and (len(seen) % 3 == 0 or deep):
                yield lay_text(g), len(seen) % 3
    if deep:
        for i, j, l in itertools.combinations((0, 3, 4, 5, 6, 7) if deep < 2 else range(9), 3):
            for x, y, z in itertools.product(opts[i][::2] if deep < 2 else opts[i], opts[j], opts[l]):
                g = list(base); g[i], g[j], g[l] = x, y, z
                k = tuple(g)
                if k not in seen:
                    seen.add(k)
                    yield lay_text(g), None

# ------------------------------------------------------------ files
LINES = ["", "abc", "ABC x", "  ab c", "xab\tc", "a", "abcabc", "The quick (brown) $( fox $) ~1", "q" * 60 + "abc" + "r" * 10]
STR = ["abc", "AB", "a", "b c", "(brown)", "zzz", "$( f", "C", "rrr"]

def file_run(lines, end, queries):
    data = "\n".join(lines) + ("\n" if end and lines else "")
    cmds = ["more f.txt"]
    for s, a, b in queries:
        cmds.append('file search f.txt "%s"%s%s' % (s, "" if a is None else "/from_line %d" % a, "" if b is None else "/to_line %d" % b))
    o, e = sessions(cmds, {"f.txt": data})
    if e:
        return e
    if o[3].rstrip("\n") != data.rstrip("\n") and o[3] != data + "\n":
        return "MORE shows %r" % o[3]
    if o[3].count("\n") != len(lines) - (0 if end or (lines and lines[-1]) else 1) and lines:
        return "MORE shows %d lines of %d" % (o[3].count("\n"), len(lines))
    for q, rep in zip(queries, o[4:]):
        s, a, b = q
        hit = [(i + 1, l) for i, l in enumerate(lines) if s.lower() in l.lower() and (not a or i + 1 >= a) and (not b or i + 1 <= b)]
        want = ["The line number in the file is shown before each line."] + ["%d:  %s" % h for h in hit] if hit else ["There were no matches."]
        if hit:
            want.append("There was 1 matching line in the file f.txt." if len(hit) == 1 else "There were %d matching lines in the file f.txt." % len(hit))
        if rep.rstrip("\n").split("\n") != want:
            return "FILE SEARCH %s shows %r instead of %r" % (q, rep, "\n".join(want))
    return None

def file_gen(deep):
    rng = [None, 0, 1, 2, 3, 5]
    qs = [(s, a, b) for s in STR for a in rng for b in rng]
    n = 0
    for k in range(0, 4 if deep < 2 else 5):
        for ls in itertools.product(LINES, repeat=k):
            for end in (0, 1):
                n += 1
                yield list(ls), end, qs[n % 9::9]

# ------------------------------------------------------------ driver
def job(j):
    fam, items = j
    viol, n = [], 0
    if fam == "dv":
        its, html = items
        n = len(its)
        for i, w in dv_run(its, html)[:3]:
            one = its if i is None else [its[i]]
            if i is not None and not dv_run(one, html):
                one = its
            viol.append(("dv", dict(fam=fam, items=[[list(v), [list(g) for g in d]] for v, d in one], html=html), w))
        sample = "$d: %s" % (its[len(its) // 2],)
    else:
        for x in items:
            n += 1
            w = lay_run(*x) if fam == "lay" else file_run(*x)
            if w:
                viol.append((fam, dict(fam=fam, items=list(x)), w))
                if len(viol) > 2:
                    break
        sample = "%s: %r" % (fam, items[len(items) // 2])
    return dict(fam=fam, n=n, viol=viol, sample=sample[:300])

def gen(deep):
    for k, ch in enumerate(mm.chunks(dv_items(deep), 60)):
        yield "dv", (ch, (None, "html", None, "alt_html")[k % 4] if not deep else (None, "html", "alt_html")[k % 3])
    for ch in mm.chunks(lay_gen(deep), 20):
        yield "lay", ch
    for ch in mm.chunks(file_gen(deep), 20):
        yield "file", ch

def main(c):
    seen = set()
    for r in mm.pmap(job, gen(2 if c.thorough else 1), stop=c.enough):
        c.add({"dv": "sets_of_d_statements", "lay": "layouts", "file": "files"}[r["fam"]], r["n"])
        if r["fam"] not in seen:
            seen.add(r["fam"])
            c.sample(r["sample"])
        for k, v, w in r["viol"]:
            c.violation(w[:300], w, v)
    c.cov["rule"] = "SHOW STATEMENT (plain, HTML page) for every graph of $d pairs on four and five variables in several orders; SHOW STATEMENT with every qualifier and SHOW SOURCE for every layout with two unusual gaps; MORE and FILE SEARCH for every file of up to n lines of an alphabet x strings x ranges; everything compared with the text itself"

def replay(v):
    r = v["replay"]
    if r["fam"] == "dv":
        b = dv_run([("".join(a), d) for a, d in r["items"]], r["html"])
    elif r["fam"] == "lay":
        b = lay_run(*r["items"])
    else:
        b = file_run(r["items"][0], r["items"][1], [tuple(q) for q in r["items"][2]])
    print(b)
    return 1 if b else 0
