"""B06: WRITE SOURCE /FORMAT and /REWRAP.
layouts:  every combination of white space, comments, headings, $t and $j comments and
          inclusion marks at one or two of the gaps of a small database, x /FORMAT or
          /REWRAP x width.
comments: every description of up to n words over the markup alphabet x indentation x
          width.
splits:   the same with included files, written as one file and /SPLIT.
The written file is compared with the source token by token; it is read again and written
again, which must change nothing."""
import itertools, re
import mm, refmm
from c_B05 import raw, HDR, TCOM, WS, DEC
LEVEL = "model_checking"
DUMMY = "PLEASE PUT DESCRIPTION HERE.".split()

def heading(c): return any(w.startswith(DEC) for w in c)
def nodesc(c):
    s = " ".join(c)
    return heading(c) or s.startswith(("$t", "$j")) or "$[" in s

def units(text):
    """[(comments of the statement outside of its parts, tokens with the comments inside)]"""
    out = []; com = []; tok = []; key = False
    for k, x in raw(text):
        if k == "com":
            if key: tok.append(("com", tuple(x)))
            else: com.append(tuple(x))
            continue
        tok.append(x)
        if x in ("${", "$}"): out.append((com, tok)); com, tok, key = [], [], False
        elif x[0] == "$" and x not in ("$.",) and len(x) == 2: key = True
        elif x == "$.": out.append((com, tok)); com, tok, key = [], [], False
    out.append((com, tok))
    return out

def squeeze(words): return "".join(words)
def wrapped_ok(a, b):
    """b is a with white space set around ` and ~ and perhaps a final period"""
    if a == b: return True
    i = 0
    for w in b[:]:
        pass
    sa, sb = squeeze(a), squeeze(b)
    if sb != sa and not (sb == sa + "." and re.match(r"[a-z]\Z", sa[-1:])): return False
    # every boundary of a is one of b; the others touch ` or ~
    def cuts(ws):
        r = set(); n = 0
        for w in ws[:-1]: n += len(w); r.add(n)
        return r
    ca, cb = cuts(a), cuts(b)
    if not ca <= cb: return False
    # a subscript or hyphen after a formula would no longer be one after a space
    if any(sb[p - 1] == "`" and sb[p] in "_-" and sb[:p].count("`") % 2 == 0 for p in cb - ca): return False
    # a doubled ` or ~ is an escape and stays together
    return all((sb[p - 1] in "`~" or sb[p] in "`~") and sb[p - 1] != sb[p] for p in cb - ca)

def compare(src, out, rewrap, ph=True):
    try: a, b = units(src), units(out)
    except Exception as e: return "cannot be parsed: %s" % e
    try: refmm.tokens(out)
    except refmm.RefError as e: return "the written file is malformed: %s" % e
    if len(a) != len(b): return "the written file has %d statements instead of %d" % (len(b) - 1, len(a) - 1)
    for (ca, ta), (cb, tb) in zip(a, b):
        if ta != tb: return "the statement %r becomes %r" % (" ".join(map(str, ta)), " ".join(map(str, tb)))
        asr = "$a" in ta or "$p" in ta
        ca, cb = list(ca), list(cb)
        if not ph: ca, cb = [x for x in ca if list(x) != DUMMY], [x for x in cb if list(x) != DUMMY]
        if asr and (not ca or nodesc(ca[-1])):
            if cb and list(cb[-1]) == DUMMY: cb = cb[:-1]
            elif not ca and ph: return "%r gets no placeholder description: %s" % (" ".join(map(str, ta)), cb)
        if len(ca) != len(cb): return "the comments %s before %r become %s" % (ca, " ".join(map(str, ta)), cb)
        for i, (x, y) in enumerate(zip(ca, cb)):
            if x == y: continue
            if rewrap and asr and i == len(ca) - 1 and not nodesc(x) and "<HTML>" not in " ".join(x) and wrapped_ok(x, y): continue
            return "the comment %r becomes %r" % (" ".join(x), " ".join(y))
    return None

def headings(text):
    """comments as the program recognises them: headings start in column 1"""
    return re.findall(r"\$\( ?\n((?:####|#\*#\*|=-=-|-\.-\.)[^\n]*\n[^\n]*\n(?:####|#\*#\*|=-=-|-\.-\.))", text)
def tdefs(text):
    m = re.search(r"\$\(\s+\$t(.*?)\$\)", text, re.S)
    return m and re.sub(r"\s+", " ", m.group(1)).strip()

def write_job(ts):
    vs = []; n = 0; ds = set()
    for text, q, width, tag in ts:
        n += 1
        lines = ["set width 9999", "read a.mm", "set width %d" % width, "write source o/" + q, "set width 9999", "write source o1", "erase", "read o", "set width %d" % width, "write source o2/" + q, "exit/force"]
        r = mm.sess(lines, {"a.mm": text}, timeout=30)
        case = dict(kind="write", text=text, q=q, width=width, tag=tag)
        what = "%s, width %d: /%s of\n%s\n" % (tag, width, q.upper(), text)
        parts = mm.split_out(r.out)[2:]
        o, o2 = mm.server().read("o"), mm.server().read("o2")
        if r.crashed or o is None or len(parts) < 10: vs.append(("crash", what + "fails: " + r.out[-400:], case)); continue
        if "?BUG" in r.out.upper() or "BUG CHECK" in r.out.upper(): vs.append(("crash", what + r.out[-300:], case)); continue
        bad = compare(text, o, q == "rewrap")
        if not bad and headings(o) != headings(text): bad = "the headings %s become %s" % (headings(text), headings(o))
        if not bad and tdefs(o) != tdefs(text): bad = "the $t comment %s becomes %s" % (tdefs(text), tdefs(o))
        if not bad and tag.startswith("length"):
            long = [l for l in o.split("\n") if len(l) > width]
            if long: bad = "the line %r is too long" % long[0]
            # a line ends only where the next word does not fit
            ls = o.split("\n")
            for x, y in zip(ls, ls[1:]):
                if q == "rewrap" and x.strip().startswith("$(") or x.startswith("       w"):
                    if y.startswith("       w") and not x.endswith("$)") and len(x) + 1 + len(y.split()[0]) <= width - 3 and not bad: bad = "the line %r could hold the next word of %r" % (x, y)
        if bad: vs.append(("content", what + "gives\n%s\n%s" % (o, bad), case)); continue
        if mm.server().read("o1") != o: vs.append(("again", what + "gives\n%s\nand WRITE SOURCE after it\n%s" % (o, mm.server().read("o1")), case)); continue
        if "No errors were found" not in parts[7]: vs.append(("read", what + "gives\n%s\nwhich READ rejects: %s" % (o, parts[7][:300]), case)); continue
        fit = max([len(w) for x in units(text) for c in x[0] for w in c] + [12]) + 10 <= width
        if fit and o2 != o: vs.append(("stable", what + "gives\n%s\nformatted again:\n%s" % (o, o2), case)); continue
        if o != text: ds.add(mm.digest(o))
        if len(vs) > 3: break
    return n, ds, vs

SLOTS = ["", "$c w |- $.", "$v x y $.", "fx $f w x $.", "${", "e1 $e |- x $.", "a", "$a |- x $.", "$}", "${", "$d x y $.", "fy", "$f w y $.", "$d y x $.", "b $a |- x $.", "$}", "t", "$p |- x $=", "fx b $.", ""]
def layout(gaps):
    t = ""
    for i in range(1, len(SLOTS) - 1): t += gaps[i - 1] + SLOTS[i]
    return t + gaps[len(SLOTS) - 2]
ALTS = [" ", "\n", "\t", "  \n \t\n\n\n\n ", "\n\n", " $( c $) ", "\n$( c a $)\n", "\n$( c $)\t$( d d $)\n", "\t$( c\n $)\t$( d fy\n t a $) ", "\n$( c\n  fy $) ", HDR("#*#*", "Part"), HDR("=-=-", "Sect", "  text ~ b\n"),
        HDR("####", "Huge") + HDR("-.-.", "Tiny") + "$( d $) ", "\n$( $j syntax 'w'; $)\n", "\n$( x ` ~ b `~b`c`_2 B.C\n\n d: E $)\n", "\n$( <HTML>a\n  `b`  ~c</HTML> $)\n", "\n$( $)\n", "\n\n  $( A long text of some words so that it does not fit on one line of the screen.\n\n  And b (c) $)\n  ",
        "\n$( blank line\n\n $)\n", "\n   $( $( ".replace("$( $(", "$( (") + "$)\n"]

def layouts(deep):
    n = len(SLOTS) - 1
    base = ["\n"] * n; base[0] = "\n"; base[6] = base[11] = base[16] = " "
    def put(d):
        g = list(base)
        for k, v in d.items(): g[k] = v
        return layout(g)
    def alts(k):
        r = list(ALTS)
        if k == 0: r = [""] + r
        if k in (5, 9, 13, 15): r += [TCOM, TCOM + "$( d $) ", "\n$( d $)" + TCOM, "\n$( $t htmldef \"x\" as \"~`y`~\"; $)\n"]
        if k == n - 1: r += [TCOM, TCOM + "$( end $)\n"]
        return r
    yield put({})
    for k in range(n):
        for a in alts(k): yield put({k: a})
    red = [ALTS[i] for i in ((0, 2, 5, 6, 8, 9, 10, 12, 14) if not deep else range(len(ALTS)))]
    for i, j in itertools.combinations(range(n), 2):
        for a in ([""] if i == 0 else []) + red:
            for b in red: yield put({i: a, j: b})

WORDS = ["a", "Bc", "d.", "`", "``", "~", "~~", "x~y", "`e`", "(", ")", "\"", "f:", "\n\n", "\n", "http://g", "_2", "p.", "1", "C.", "(New usage is discouraged.)"]
SHORT = ["a", "Bc", "d.", "`", "~", "x~y", "`e`", ")", "\n\n", "_2"]
def comment_db(cs, ind):
    t = "$c w |- $.\n$v x $.\nfx $f w x $.\n"
    for i, ws in enumerate(cs):
        body = ""
        for w in ws: body = body + w if w.startswith("\n") else body + ("" if body.endswith("\n") else " ") + w
        t += "%s$(%s%s$)\n%sc%d $a |- x $.\n" % (ind, " " * body.startswith("\n") + body, " ", ind, i)
    return t

def length_job(ts):
    vs = []; n = 0; ds = set()
    for cs, q, width in ts:
        text = comment_db([["w" * k if isinstance(k, int) else k for k in x] for x in cs], "")
        k, d, v = write_job([(text, q, width, "lengths")])
        n += len(cs)
        if v:
            for c in cs:
                k, d, v1 = write_job([(comment_db([["w" * k if isinstance(k, int) else k for k in c]], ""), q, width, "length")])
                if v1: vs += v1; break
            else: vs += v
        else: ds |= {mm.digest(repr((c, q, width))) for c in cs}
        if len(vs) > 3: break
    return n, ds, vs

def comment_job(ts):
    """a database of many comments; on a difference the single comment is reported"""
    vs = []; n = 0; ds = set()
    for cs, ind, q, width in ts:
        text = comment_db(cs, ind)
        k, d, v = write_job([(text, q, width, "comments")])
        n += len(cs); ds |= d
        if v:
            for c in cs:
                k, d, v1 = write_job([(comment_db([c], ind), q, width, "comment")])
                if v1: vs += v1; break
            else: vs += v
        if len(vs) > 3: break
    if not vs: ds |= {mm.digest(repr(x)) for t in ts for x in t[0]}
    return n, ds, vs

def split_jobs(deep):
    for a, b, m, e in itertools.product(["\n", "\n$( c $)\n", "\n$( $( ".replace("$( $(", "$( c\n") + " $)\n  "], ["\n", "\n$( d $)\n", " "], ["", "$( before $)\n", HDR("=-=-", "S")], ["a $a |- x $.", "$( in $)\na $a |- x $.", "$v y $."]):
        for width in (79, 20):
            for q in ("format", "rewrap"):
                yield dict(files={"a.mm": "$c w |- $. $v x $. fx $f w x $." + a + m + "$[ inc-file.mm $]" + b + "b $a |- x $.\n", "inc-file.mm": e + "\n"}, q=q, width=width)

def split_job(cases):
    vs = []; n = 0; ds = set()
    for d in cases:
        n += 1
        r = mm.sess(["set width %d" % d["width"], "read a.mm", "write source a.mm/split/" + d["q"], "set width 9999", "erase", "read a.mm", "exit/force"], d["files"], timeout=30)
        a, i = mm.server().read("a.mm"), mm.server().read("inc-file.mm")
        case = dict(kind="split", case=d)
        what = "%r written with /SPLIT/%s, width %d:\n" % (d["files"], d["q"].upper(), d["width"])
        if r.crashed or a is None or i is None: vs.append(("split", what + "fails " + r.out[-300:], case)); continue
        j = lambda x, y: x.replace("$[ inc-file.mm $]", " " + y + " ")
        whole = re.sub(r"\$\[\s+inc-file\.mm\s+\$\]", lambda m: " " + i + " ", a)
        bad = compare(j(d["files"]["a.mm"], d["files"]["inc-file.mm"]), whole, d["q"] == "rewrap", False)
        if not bad and whole == a: bad = "the inclusion is lost"
        if not bad and "$[" in i: bad = "the included file has inclusion marks"
        if not bad:
            ta = [x for x in raw(i) if x[0] == "tok"]; tb = [x for x in raw(d["files"]["inc-file.mm"]) if x[0] == "tok"]
            if ta != tb: bad = "the included file has other statements"
        if not bad and "No errors were found" not in r.out.split("MM>")[-2] and "No errors were found" not in r.out[r.out.rfind("Reading source file"):]: bad = "it is rejected: " + r.out[-300:]
        if bad: vs.append(("split", what + "a.mm:\n%s\ninc-file.mm:\n%s\n%s" % (a, i, bad), case)); continue
        ds.add(mm.digest(a + i))
    return n, ds, vs

def job(t):
    return dict(length=length_job, write=write_job, comment=comment_job, split=split_job)[t[0]](t[1])

def main(c):
    deep = c.thorough
    tasks = []
    lays = list(layouts(deep))
    ls = []
    for i, t in enumerate(lays):
        for q in ("format", "rewrap"):
            for w in ((79, 34, 14) if deep else ((79, 34, 14)[i % 3],)): ls.append((t, q, w, "layout"))
    tasks += [("write", x) for x in mm.chunks(ls, 60)]
    cs = [x for k in range(0, 4) for x in itertools.product(WORDS, repeat=k)]
    cs += [x for k in ((4, 5) if deep else (3, 4)) for x in itertools.product(SHORT, repeat=k)]
    cs += [x for x in itertools.product(["a", "Bc.", "` e`", "~ l", "`"], repeat=5 if deep else 4)]
    cs += [x for k in (1, 2, 3, 4) for x in itertools.product(["a", "` e `_2", "`e`-b", "``_", "(`e`_i,", "\n", "`_e`"], repeat=k)]
    # a comment may not start with an unfinished blank line, nor consist of one
    cs = [x for x in cs if not (x and x[0].startswith("\n"))]
    c.add("descriptions", len(cs))
    for chunk in mm.chunks(cs, 100):
        for ind, q, w in (("  ", "rewrap", 79), ("", "rewrap", 12), ("    ", "format", 79), ("", "format", 24)):
            tasks.append(("comment", [(chunk, ind, q, w)]))
    ls = [x for k in (1, 2, 3) for x in itertools.product(list(range(1, 19)), repeat=k)]
    ls += [(a, b, "\n", c2, d) for a in (1, 5, 18) for b in range(1, 19) for c2 in range(1, 19) for d in (1, 9)]
    ls += [(a, b, "\n\n", c2, d) for a in (1, 5, 18) for b in range(1, 19) for c2 in range(1, 19) for d in (1, 9)]
    c.add("word_lengths", len(ls))
    for chunk in mm.chunks(ls, 150):
        for q, w in (("rewrap", 24), ("format", 24), ("rewrap", 31)): tasks.append(("length", [(chunk, q, w)]))
    tasks += [("split", x) for x in mm.chunks(list(split_jobs(deep)), 20)]
    for n, ds, vs in mm.pmap(job, tasks, stop=c.enough):
        c.add("evaluations", n); c.distinct(ds)
        for v in vs: c.violation(*v)
    for t in tasks[::max(1, len(tasks) // 5)]: c.sample(repr(t)[:150])

def replay(v):
    r = v["replay"]
    vs = split_job([r["case"]])[2] if r["kind"] == "split" else write_job([(r["text"], r["q"], r["width"], r["tag"])])[2]
    print(vs[0][1] if vs else "holds")
    return 1 if vs else 0
