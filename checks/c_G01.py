"""G01: VERIFY MARKUP. Every family builds databases from a conforming one, predicts the
exact set of (rule, subject) pairs to report from the documented conventions and compares
it with the warnings of the program, together with the final "No errors were found."
labels:   every pair of statements with special labels, kinds and discouragement marks,
          with and without /UNDERSCORE_SKIP and label patterns
pairs:    ax-x against axx: statement, hypotheses and distinct variables
lines:    trailing spaces, tabs and line lengths around the screen width
tokens:   math symbols with @ and ?, every subset of missing/extra/double typesetting
          definitions
dates:    every sequence of contributor, reviser and shortener tags, /DATE_SKIP,
          /TOP_DATE_CHECK
comments: every short sequence of markup pieces in descriptions and section headers
biblio:   every short sequence of reference pieces, /FILE_CHECK
mathbox:  every assignment of statements to mathboxes and references, /MATHBOX_SKIP"""
import itertools, re
import mm
LEVEL = "model_checking"

SYM = ["wff", "|-", "(", ")", "->", "p", "q"]
CON = "(Contributed by NM, 1-Jan-2000.)"
def tdefs(syms=SYM, kinds=("latexdef", "htmldef", "althtmldef"), more=""):
    return "$( $t\n" + "".join('%s "%s" as "%s";\n' % (k, s, "x") for k in kinds for s in syms) + more + "$)\n"
VARS = "$v p q $.\nwp $f wff p $.\nwq $f wff q $.\n"
def head(top="$( a.mm - Version of 1-Jan-2020 $)\n", t=None, consts="wff |- ( ) ->", decl=""):
    return top + (tdefs() if t is None else t) + "$c %s $.\n%s" % (consts, decl) + VARS + "wi $a wff ( p -> q ) $.\n$( An axiom. %s $)\nax-id $a |- ( p -> p ) $.\n" % CON
def thm(label, comment="A theorem. " + CON):
    return "$( %s $)\n%s $p |- ( p -> p ) $= wp ax-id $.\n" % (comment, label)

RULES = [(k, re.compile(p)) for k, p in [
    ("underscore", r'In statement "(.*?)" at line \d+ in file ".*?"\. +Underscores in labels'),
    ("reserved", r'In statement "(.*?)" at line \d+ in file ".*?"\. +To workaround'),
    ("axdf", r'In the \$a statement "(.*?)" at line .* does not start with "ax-"'),
    ("at", r'The token "(.*?)" declared at line .* has an "@"'),
    ("question", r'The token "(.*?)" declared at line .* has a "\?"'),
    ("assertion", r'The assertions for statements "(.*?)" and ".*?" are different'),
    ("nhyps", r'Statement "(.*?)" has \d+ mandatory hypotheses but'),
    ("distinct", r'The mandatory distinct variable pairs for statements "(.*?)" and'),
    ("hyps", r'The mandatory hypotheses of statements "(.*?)" and'),
    ("space", r'Line number (\d+) ends with a space'), ("long", r'Line number (\d+) has \d+ characters'), ("tab", r'Line number (\d+) contains a tab'),
    ("double", r'Token (.*?) is defined more than once in an? (\w+)'), ("extra", r'The token "(.*?)", which was defined in an? (\w+) statement, was not declared in any'),
    ("missing", r'The token "(.*?)", which was defined in a \$v or \$c statement, was not declared in an? (\w+)'),
    ("c?", r'Contributor ".*?" should be updated in statement "(.*?)"'), ("r?", r'Reviser ".*?" should be updated in statement "(.*?)"'),
    ("nocontrib", r'There is no "\(Contributed by\.\.\.\)" in the comment above statement \d+, label "(.*?)"'),
    ("contribs", r'There is more than one "\(Contributed by.*label "(.*?)"'),
    ("ccomma", r'no comma between contributor.*label "(.*?)"'), ("rcomma", r'no comma between reviser.*label "(.*?)"'), ("scomma", r'no comma between proof shortener.*label "(.*?)"'),
    ("cname", r'comma in the contributor name.*label "(.*?)"'), ("rname", r'comma in the reviser name.*label "(.*?)"'), ("sname", r'comma in the proof shortener name.*label "(.*?)"'),
    ("order", r'is placed after "\(Revised by.*label "(.*?)"'), ("format", r'formatting error in a "\(Contributed.*label "(.*?)"'),
    ("cdate", r'formatting error in the "\(Contributed.*label "(.*?)"'), ("rdate", r'formatting error in the "\(Revised.*label "(.*?)"'), ("sdate", r'formatting error in the "\(Proof shortened.*label "(.*?)"'),
    ("early", r'date is not earlier than the .*label "(.*?)"'), ("dates", r'dates are in the wrong order.*label "(.*?)"'),
    ("aproof", r'Statement "(.*?)" is a \$a but has a'), ("oldproof", r'Statement "(.*?)" has suffix ".*?" but has no "\(Proof'), ("olduse", r'Statement "(.*?)" has suffix ".*?" but has no "\(New'),
    ("top-none", r'There is no "Version of " comment()'), ("top-bad", r'The Version date "(.*?)" at the top of file'), ("top-old", r'less recent than the date .* in the description of statement "(.*?)"'),
    ("tilde", r'There is a "~" inside of a label in the comment of statement "(.*?)"'), ("nolabel", r'There is a "~" with no label in the comment of statement "(.*?)"'),
    ("label", r'The label token "(.*?)" \(referenced in comment of statement "(.*?)"'), ("symbol", r'In the comment for statement "(.*?)", math symbol token "(.*?)" does not'),
    ("header", r'missing closing ".*?" decoration above statement "(.*?)"'),
    ("keyword", r'Bibliography keyword missing in comment for "(.*?)"'), ("page", r'No page number after \[<author>\] bib ref in "(.*?)"'), ("bibend", r'Bibliography reference not found in HTML file in "(.*?)"'),
    ("bibfile", r'''Couldn't open or read the file "(.*?)"'''), ("nobib", r"There is no bibliography()"), ("bibref", r'The bibliographic reference "\[(.*?)\]" in statement "(.*?)" was not found'), ("gif", r'The file "(.*?)", which is referenced in an htmldef'), ("bibtwice", r'two occurrences of bibliographic reference "(.*?)"'),
    ("mathbox", r'The proof of "(.*?)" in the mathbox for (.*?) references "(.*?)" in the mathbox for (.*?)\.'), ("mathboxv", r'The proof of statement "(.*?)" in the mathbox .* references statement "(.*?)" in'),
]]
def parse(text):
    got = set(); msgs = 0
    for ln in text.split("\n"):
        if not ln.startswith("?"): continue
        msgs += 1
        for k, rx in RULES:
            m = rx.search(ln)
            if m: got.add((k,) + m.groups()); break
        else: got.add(("UNKNOWN", ln))
    return got, "No errors were found." in text, msgs

def run(db, cmds, files=None, width=9999):
    """[(set, clean)] of each command"""
    f = {"a.mm": db}; f.update(files or {})
    r = mm.sess(["set width %d" % width, "read a.mm", "set width 9999" if width == 9999 else "show settings"] + cmds + ["exit"], f, timeout=60)
    out = mm.split_out(r.out)
    if r.crashed: return None, r.out[-600:]
    rd = out[3] if len(out) > 3 else ""
    if "?Error" in rd: return None, "READ: " + rd[:800]
    return [parse(x) for x in out[5:5 + len(cmds)]], ""

def judge(fam, db, cmds, want, files=None, loose=None, width=9999):
    """want: [set] per command; loose: labels for which at least one warning is enough"""
    res, why = run(db, cmds, files, width)
    if res is None: return [("program", "%s: %s\n%s" % (fam, why, db))]
    bad = []
    for c, w, (g, clean, n) in zip(cmds, want, res):
        if loose:
            for l, must in loose.items():
                gl = {x for x in g if l in x[1:]}; g = g - gl
                if must and not gl: bad.append(("missed", "%s: %s: nothing reported for %s\n%s" % (fam, c, l, db)))
        if g - w: bad.append(("false", "%s: %s reports %s which conforms\n%s" % (fam, c, sorted(g - w)[:4], db)))
        if w - g: bad.append(("missed", "%s: %s does not report %s\n%s" % (fam, c, sorted(w - g)[:4], db)))
        if clean != (n == 0): bad.append(("summary", "%s: %s: %d messages but %s\n%s" % (fam, c, n, "'No errors were found.'" if clean else "no 'No errors were found.'", db)))
        if bad: break
    return bad

VM = "verify markup *"
# ---------------------------------------------------------------- labels
RES = ["CON", "PRN", "AUX", "NUL"] + ["COM%d" % i for i in range(1, 10)] + ["LPT%d" % i for i in range(1, 10)]
def label_rules(l, kind, marks, under=True):
    w = set()
    if under and "_" in l: w.add(("underscore", l))
    if l.upper() in RES or l.upper().startswith("MM"): w.add(("reserved", l))
    if kind == "a" and not (l.startswith("ax-") or l.startswith("df-")): w.add(("axdf", l))
    if kind in "as" and marks & 1: w.add(("aproof", l))
    if l.endswith("OLD") or l.endswith("ALT"):
        if kind == "p" and not marks & 1: w.add(("oldproof", l))
        if not marks & 2: w.add(("olduse", l))
    return w
def label_stmt(l, kind, marks):
    c = "Text. %s%s %s" % ("(Proof modification is discouraged.) " if marks & 1 else "", "(New usage is discouraged.)" if marks & 2 else "", CON)
    if kind == "s": return "$( %s $)\n%s $a wff ( ( p -> q ) -> q ) $.\n" % (c, l)
    if kind == "a": return "$( %s $)\n%s $a |- ( p -> p ) $.\n" % (c, l)
    return thm(l, c)
LABELS = ["th", "con", "Prn", "AUX", "nul", "com1", "COM9", "lpt1", "lpt9", "com0", "com", "lpt10", "acon", "conx", "mm", "mmx", "Mm-1", "mMx", "am", "m", "a_b", "_", "ax_1", "df_1", "ax-1x", "df-x", "AX-1", "ax", "df", "ax-", "xax-",
          "xOLD", "xALT", "OLD", "ALT", "xold", "OLDx", "xOLDALT", "df-OLD", "ax-ALT", "clock", "com1.x", "nul.x"]
def label_variants():
    return [(l, k, m) for l in LABELS for k in "aps" for m in ((0, 1, 2, 3) if k != "s" or l.endswith(("OLD", "ALT")) else (0,))]
def match(l, pat):
    return re.fullmatch("".join(".*" if c == "*" else "." if c == "?" else re.escape(c) for c in pat), l) is not None
PATS = ["*", "x*", "*OLD", "com?", "th,con", "a*"]
def label_job(chunk):
    bad = []
    for st in chunk:
        if len({l for l, k, m in st}) < len(st): continue
        db = head() + "".join(label_stmt(*x) for x in st)
        full = set()
        for x in st: full |= label_rules(*x)
        cmds = [VM, VM + "/underscore_skip"] + ["verify markup %s" % p for p in PATS]
        want = [full, set().union(*[label_rules(*x, under=False) for x in st])]
        for p in PATS: want.append(set().union(*[label_rules(*x) for x in st if any(match(x[0], q) for q in p.split(","))]))
        bad += judge("labels", db, cmds, want)
        if bad: break
    return bad, len(chunk)
def label_tasks(deep):
    v = label_variants()
    r = [(x,) for x in v]
    few = [x for x in v if x[2] in (0, 3) and x[0] in (LABELS if deep else ["th", "con", "mmx", "a_b", "ax-1x", "xOLD", "df-OLD", "lpt9"])]
    r += list(itertools.product(few, v if deep else few))
    return r

# ---------------------------------------------------------------- ax-x and axx
def pair_tasks(deep):
    stm = ["( p -> q )", "( p -> p )", "( q -> p )"]
    hyp = [(), ("|- p",), ("|- q",), ("|- p", "|- q"), ("|- q", "|- p")]
    dv = [(), ("p q",)]
    var = [(s, h, d) for s in stm for h in hyp for d in dv]
    three = [("( p -> ( q -> r ) )", (), d) for d in [(), ("p q",), ("p r",), ("q r",), ("p q", "p r"), ("p r", "p q"), ("p q", "q r"), ("p r", "q r"), ("p q r",), ("p q", "p r", "q r"), ("p q", "p q")]]
    return [(a, b, o) for v in (var, three) for a in v for b in v for o in (0, 1)]
def pair_rules(a, b):
    def frame(x):
        s, h, d = x
        vs = [v for v in "rpq" if v in s or any(v in y for y in h)]
        ds = []
        for y in d:
            for pr in itertools.combinations(y.split(), 2):
                if pr not in ds and set(pr) <= set(vs): ds.append(pr)
        return s, len(vs) + len(h), [v for v in vs], list(h), ds
    A, B = frame(a), frame(b)
    if A[0] != B[0]: return {("assertion", "ax-x")}
    if A[1] != B[1]: return {("nhyps", "ax-x")}
    if A[4] != B[4]: return {("distinct", "ax-x")}
    if A[2] != B[2] or A[3] != B[3]: return {("hyps", "ax-x")}
    return set()
def pair_job(chunk):
    bad = []
    for a, b, o in chunk:
        def blk(x, l, k):
            s, h, d = x
            return "${\n" + "".join("$d %s $.\n" % y for y in d) + "".join("%s.%d $e %s $.\n" % (l, i, y) for i, y in enumerate(h)) + "$( Text. %s $)\n%s $%s |- %s%s $.\n$}\n" % (CON, l, k, s, "" if k == "a" else " $= ?")
        p = [blk(a, "ax-x", "a"), blk(b, "axx", "p")]
        if o: p.reverse()
        db = head(decl="$v r $.\nwr $f wff r $.\n", t=tdefs(SYM + ["r"])) + "".join(p); w = pair_rules(a, b)
        bad += judge("pairs", db, [VM, "verify markup ax*", "verify markup axx", VM + "/verbose"], [w, w, set(), w])
        if bad: break
    return bad, len(chunk)

# ---------------------------------------------------------------- lines
LINES = ["", " ", "\t", "a\t", "  a", "a ", "\ta", "a\tb\tc", "W-1", "W", "W+1", "W+9", "W ", "W+1\t"]
def line_tasks(deep):
    return [(w, c) for w in (79, 40, 100) for n in (1, 2, 3 if deep else 2) for c in itertools.product(LINES, repeat=n)] + [(79, ("a",) * k + (x,)) for k in range(6) for x in LINES]
def line_job(chunk):
    bad = []
    for w, c in chunk:
        ls = []
        for x in c:
            if x.startswith("W"):
                m = re.match(r"W([+-]\d+)?(.*)", x, re.S); n = w + int(m.group(1) or 0); x = ("b" * (n - len(m.group(2)))) + m.group(2)
            ls.append(x)
        pre = "$( t $)\n" + tdefs(["w", "v"]) + "$c w $. $v v $. wv $f w v $.\n$( Text. %s\n" % CON
        db = pre + "\n".join(ls) + "\n$)\nth $p w v $= wv $.\n"
        want = set()
        for i, l in enumerate(db.split("\n")[:-1]):
            if l.endswith(" "): want.add(("space", str(i + 1)))
            if "\t" in l: want.add(("tab", str(i + 1)))
            if len(l) > w: want.add(("long", str(i + 1)))
        # messages wrap at this width: join them
        f = {"a.mm": db}
        r = mm.sess(["set width %d" % w, "read a.mm", VM, "exit"], f, timeout=60)
        if r.crashed: bad.append(("program", "lines: %s\n%s" % (r.out[-300:], db))); break
        t = mm.split_out(r.out)[4]; g = set()
        for k, p in (("space", r"Line number (\d+) ends"), ("long", r"Line number (\d+) has"), ("tab", r"Line number (\d+) contains")):
            g |= {(k, x) for x in re.findall(p, re.sub(r"\s+", " ", t))}
        if g != want: bad.append(("lines", "lines at width %d: reported %s, expected %s\n%r" % (w, sorted(g - want), sorted(want - g), db)))
        if ("No errors were found." in t) != (not want): bad.append(("summary", "lines: %r %s" % (db, t)))
        if bad: break
    return bad, len(chunk)

# ---------------------------------------------------------------- symbols and definitions
def token_tasks(deep):
    r = []
    toks = ["@", "a@b", "?", "a?b", "@?", "ok", "a-b"]
    for n in (1, 2):
        for c in itertools.permutations(toks, n):
            for v in (0, 1): r.append(("tok", c, v))
    for a in itertools.product((0, 1, 2), repeat=3):
        for b in itertools.product((0, 1, 2), repeat=3): r.append(("def", a, b))
    return r
def token_job(chunk):
    bad = []
    for kind, a, b in chunk:
        want = set()
        if kind == "tok":
            db = head(t=tdefs(SYM + list(a)), decl="$%s %s $.\n" % ("v" if b else "c", " ".join(a)))
            for x in a:
                if "@" in x: want.add(("at", x))
                if "?" in x: want.add(("question", x))
        else:
            # a: how often the declared symbol q, b: the undeclared symbol zz is defined, in each kind of definition
            ks = ["latexdef", "htmldef", "althtmldef"]; t = "$( $t\n"
            for i, k in enumerate(ks):
                for s in SYM:
                    for _ in range(a[i] if s == "q" else 1): t += "%s '%s' as '%s';\n" % (k, s, s)
                for _ in range(b[i]): t += "%s 'zz' as 'z';\n" % k
                if a[i] == 0: want.add(("missing", "q", k))
                if a[i] == 2: want.add(("double", "q", k))
                if b[i]: want.add(("extra", "zz", k))
                if b[i] == 2: want.add(("double", "zz", k))
            db = head(t=t + "$)\n")
        bad += judge("tokens", db, [VM, "verify markup none", VM + "/date_skip"], [want] * 3)
        if bad: break
    return bad, len(chunk)

# ---------------------------------------------------------------- dates
MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
def good_date(s):
    m = re.fullmatch(r"([1-9]\d?)-([A-Z][a-z][a-z])-(\d{4})", s)
    return bool(m) and m.group(2) in MON and 1 <= int(m.group(1)) <= 31 and int(m.group(3)) >= 1900
def dkey(s):
    d, m, y = s.split("-"); return int(y), MON.index(m), int(d)
TAG = {"C": "Contributed by", "R": "Revised by", "S": "Proof shortened by"}
DATES = ["5-Feb-2001", "28-Jan-2003", "3-Mar-2003"]
BADD = ["05-Feb-2001", "5-feb-2001", "5-Feb-01", "32-Feb-2001", "0-Feb-2001", "5-Feb-2001x", "5-2-2001", "Feb-5-2001", "5-Xyz-2001", "2001-Feb-5", "5-Feb", "5-FEB-2001", "5-anF-2001"]
def date_rules(tags, label, kind="p"):
    """tags [(kind, name, sep, date, end)] -> (exact set or None when only 'something' is demanded)"""
    w = set()
    if any(sep != ", " or end != ".)" or not nm or nm == " " for k, nm, sep, d, end in tags): return None
    cs = [t for t in tags if t[0] == "C"]; rs = [t for t in tags if t[0] == "R"]; ss = [t for t in tags if t[0] == "S"]
    if not cs: w.add(("nocontrib", label))
    if len(cs) > 1: w.add(("contribs", label))
    if cs and cs[0][1] == "?who?": w.add(("c?", label))
    if rs and rs[-1][1] == "?who?": w.add(("r?", label))
    use = [(cs[0], "c")] if cs else []
    if rs: use.append((rs[-1], "r"))
    if ss: use.append((ss[-1], "s"))
    dts = {}
    for t, k in use:
        if "," in t[1]: w.add((k + "name", label))
        if not good_date(t[3]): w.add((k + "date", label))
        else: dts[k] = dkey(t[3])
    if cs and any(t[0] != "C" for t in tags[:tags.index(cs[0])]): w.add(("order", label))
    if "c" in dts and any(k in dts and dts["c"] >= dts[k] for k in "rs"): w.add(("early", label))
    if "r" in dts and "s" in dts:
        ir = max(i for i, t in enumerate(tags) if t[0] == "R"); is_ = max(i for i, t in enumerate(tags) if t[0] == "S")
        if (ir < is_ and dts["r"] > dts["s"]) or (ir > is_ and dts["r"] < dts["s"]): w.add(("dates", label))
    if any(not good_date(t[3]) for t, k in use): w.add("BAD")
    return w
def tag_text(t): return "(%s %s%s%s%s" % (TAG[t[0]], t[1], t[2], t[3], t[4])
def date_tasks(deep):
    std = [(k, "NM", ", ", d, ".)") for k in "CRS" for d in DATES]
    odd = [(k, "NM", ", ", d, ".)") for k in "CRS" for d in BADD] + [(k, n, s, "5-Feb-2001", e) for k in "CRS" for n, s, e in
          [("A. B. C", ", ", ".)"), ("A, B", ", ", ".)"), ("NM", " ", ".)"), ("NM", ",", ".)"), ("", ", ", ".)"), ("NM", ", ", ")"), ("NM", ", ", "."), ("NM", ", ", ". )"), ("NM", ", ", "")]]
    r = [()] + [c for n in (1, 2, 3) for c in itertools.product(std, repeat=n)]
    r += [c for x in odd for c in [(x,), (std[0], x), (x, std[4]), (std[2], x), (std[0], std[4], x)]]
    # every ordered pair of dates at the ends of months and years
    ds = ["%d-%s-%d" % (d, m, y) for y in (1993, 1999, 2000, 2001, 2020) + ((2010, 2099) if deep else ()) for m in (("Jan", "Feb", "Nov", "Dec") if not deep else MON) for d in (1, 2, 30, 31)]
    for i, a in enumerate(ds):
        for j, b in enumerate(ds):
            if deep and abs(i - j) > 60: continue
            r.append((("C", "NM", ", ", a, ".)"), ("RS"[(i + j) % 2], "NM", ", ", b, ".)")))
            if not deep or i % 8 == 0: r.append((std[0][:3] + ("2-Feb-1992", ".)"), ("RS"[i % 2], "NM", ", ", a, ".)"), ("SR"[i % 2], "NM", ", ", b, ".)")))
    who = [(k, "?who?", ", ", d, ".)") for k in "CRS" for d in DATES[:2]]
    r += [(x,) for x in who] + [c for x in who for y in std + who for c in ((x, y), (y, x))] + [(std[0], x, y) for x in who for y in who + std]
    if deep: r += [c for c in itertools.product(std, repeat=4)] + [(a, b) for a in odd for b in odd]
    return r
JOIN = [" ", "\n", "\n   ", " and text. "]
def date_job(chunk):
    k0, chunk = chunk
    db = head(); want = set(); loose = {}; must = 0
    for i, tags in enumerate(chunk):
        l = "t%d" % i; j = JOIN[(k0 + i) % len(JOIN)]
        tx = j.join(tag_text(t) for t in tags)
        if i % 3 == 1: tx = tx.replace(" by ", "\nby ")
        kind = "p" if (k0 + i) % 4 else "a"
        if kind == "a": l = ("ax-" if i % 2 else "df-") + l
        db += "$( A theorem. %s $)\n%s $%s |- ( p -> p ) %s $.\n" % (tx, l, kind, "" if kind == "a" else "$= wp ax-id")
        w = date_rules(tags, l)
        if w is None: loose[l] = True
        elif "BAD" in w: loose[l] = True
        else: want |= w
    nodate = {}
    bad = judge("dates", db, [VM], [want], loose=loose)
    if not bad: bad = judge("dates", db, [VM + "/date_skip"], [{x for x in want if x[0] in ("c?", "r?")}], loose=nodate)
    if bad and len(chunk) > 1:
        b2 = []
        for i, t in enumerate(chunk):
            b2 += date_job((k0 + i, [t]))[0]
            if b2: break
        bad = b2 or bad
    return bad, len(chunk)

def top_tasks(deep):
    tops = ["", "$( nothing $)\n", "$( a.mm - Version of %s $)\n", "$( Version of %s x $)\n", "$( Version of\n%s $)\n", "$( version of %s $)\n", "$( a.mm\nVersion of %s by me $)\n"]
    return [(t, d, c) for t in tops for d in ["4-Feb-2001", "5-Feb-2001", "5-Feb-2003", "28-Feb-2003", "1-Jan-2000", "31-Dec-2030"] + BADD for c in itertools.product(DATES, ["-"] + DATES, ["-"] + DATES)]
def top_job(chunk):
    bad = []
    for t, d, (a, b, s) in chunk:
        top = t % d if "%s" in t else t
        tx = "(Contributed by NM, %s.)" % a + (" (Revised by NM, %s.)" % b if b != "-" else "") + (" (Proof shortened by NM, %s.)" % s if s != "-" else "")
        tags = [("C", "NM", ", ", a, ".)")] + ([("R", "NM", ", ", b, ".)")] if b != "-" else []) + ([("S", "NM", ", ", s, ".)")] if s != "-" else [])
        db = head(top=top) + thm("th", tx) + thm("t2")
        base = date_rules(tags, "th"); w = set()
        if "Version of " not in top: w.add(("top-none", ""))
        elif d in BADD and d not in ("05-Feb-2001", "5-Feb-01", "5-Feb-2001x"): w.add(("top-bad", d))
        else:
            last = max(dkey(x) for x in (a, b, s) if x != "-")
            if d in BADD: continue          # not the documented format, but a recognisable date: left open
            if dkey(d) < last: w.add(("top-old", "th"))
        bad += judge("top date", db, [VM + "/top_date_check", VM, VM + "/top_date_check/date_skip", "verify markup t2/top_date_check"],
                     [base | w, base, {x for x in w if x[0] != "top-old"}, {x for x in w if x[0] != "top-old" or dkey(d) < (2000, 0, 1)}])
        if bad: break
    return bad, len(chunk)

# ---------------------------------------------------------------- comment markup
PIECES = ["word", "`", "``", "~", "~~", "ax-id", "t0", "wp", "nix", "p", "zz", "(", "http://x", "mmx.html", "a~~b", "a~b", "~ax-id", "~nix", "`p", "p`", "x,"]
def comment_rules(text, label, labels, syms):
    """the rules of HELP LANGUAGE: ` ` for math, ~ for labels, doubled for the character itself"""
    w = set(); i = 0; n = len(text); mode = "n"; math = ""; lab = ""
    def endlab():
        if lab == "": w.add(("nolabel", label)); w.add(("label", "", label))
        elif lab.startswith(("http://", "https://", "mm")): pass
        elif lab not in labels: w.add(("label", lab, label))
    def endmath():
        for t in math.split():
            if t not in syms: w.add(("symbol", label, t))
    while i < n:
        ch = text[i]
        if ch == "`" and text[i + 1:i + 2] == "`":
            if mode == "m": math += "`"
            elif mode == "l": lab += "`"
            i += 2; continue
        if ch == "`":
            if mode == "l": endlab(); mode = "m"; math = ""
            elif mode == "m": endmath(); mode = "n"
            else: mode = "m"; math = ""
            i += 1; continue
        if mode == "m": math += ch; i += 1; continue
        if ch == "~" and text[i + 1:i + 2] == "~":
            if mode == "l": lab += "~"
            i += 2; continue
        if ch == "~":
            if mode == "l": w.add(("tilde", label)); endlab(); mode = "n"; i += 1; continue
            i += 1
            while i < n and text[i].isspace(): i += 1
            mode = "l"; lab = ""
            continue
        if mode == "l":
            if ch.isspace(): endlab(); mode = "n"
            else: lab += ch
        i += 1
    if mode == "l": endlab()
    if mode == "m": endmath()
    return w
def comment_tasks(deep):
    r = []
    for n in (1, 2, 3): r += [c for c in itertools.product(PIECES, repeat=n)]
    core = ["word", "`", "``", "~", "~~", "ax-id", "nix", "p", "zz"]
    r += list(itertools.product(core, repeat=4))
    if deep: r += list(itertools.product(core, repeat=5))
    return r
def comment_job(chunk):
    k0, chunk = chunk
    db = head(); want = set(); hdr = set(); labels = {"wi", "ax-id"} | {"t%d" % i for i in range(len(chunk))}
    for i, ps in enumerate(chunk):
        l = "t%d" % i; sep = [" ", "\n", " ", "  "][(k0 + i) % 4]
        t = sep.join(ps)
        # the description is between "x " and the contributor tag, or at the end of the comment
        body = (t + " " + CON) if (k0 + i) % 2 else (CON + " " + t)
        db += "$( %s $)\n%s $p |- ( p -> p ) $= wp ax-id $.\n" % (body, l)
        w = comment_rules(body, l, labels, set(SYM)); want |= w
    cmds = [VM + "/date_skip", "verify markup t0/date_skip"]
    one = {x for x in want if (x[0] == "label" and x[2] == "t0") or (x[0] != "label" and x[1] == "t0")}
    bad = judge("comments", db, cmds, [want, one])
    if bad and len(chunk) > 1:
        b2 = []
        for i, t in enumerate(chunk):
            b2 += comment_job1(t, (k0 + i) % 4)
            if b2: break
        bad = b2 or bad
    return bad, len(chunk)
def comment_job1(ps, k):
    sep = [" ", "\n", " ", "  "][k]; t = sep.join(ps); body = (t + " " + CON) if k % 2 else (CON + " " + t)
    db = head() + "$( %s $)\nt0 $p |- ( p -> p ) $= wp ax-id $.\n" % body
    return judge("comments", db, [VM + "/date_skip"], [comment_rules(body, "t0", {"wi", "ax-id", "t0"}, set(SYM))])

# section headers
DECO = ["####", "#*#*", "=-=-", "-.-."]
def header_tasks(deep):
    r = []
    for d in range(4):
        for close in (0, 1):
            for ps in [()] + [c for n in (1, 2) for c in itertools.product(["word", "`", "~", "nix", "zz", "ax-id", "``"], repeat=n)]: r.append((d, close, ps, 0))
    for a, b in itertools.permutations(range(4), 2): r += [(a, 1, ("zz", "`", "zz"), 1 + b), (a, 1, ("~", "nix"), 1 + b)]
    return r
def header_job(chunk):
    bad = []
    for d, close, ps, other in chunk:
        deco = DECO[d] * 18
        def h(dd, c, body): return "$(\n%s\n  My title\n%s\n\n%s\n$)\n\n" % (DECO[dd] * 18, DECO[dd] * 18 if c else "xx", body)
        body = " ".join(ps)
        db = head() + (h(other - 1, 1, "fine") if other else "") + h(d, close, body) + thm("th")
        want = comment_rules(body, "th", {"wi", "ax-id", "th"}, set(SYM)) if close else None
        if want is None: bad += judge("headers", db, [VM], [set()], loose={"th": True})
        else: bad += judge("headers", db, [VM], [want])
        if bad: break
    return bad, len(chunk)

# ---------------------------------------------------------------- bibliography
BP = ["Theorem 1", "lemma", "of", "[Ref]", "[Alt]", "[[Ref]", "[two words]", "p. 3", "p. 1234", "` [Ref] `", "[Ref"]
def biblio_rules(ps, label):
    """HELP WRITE BIBLIOGRAPHY: keyword, noise words, [reference], noise words, p. number"""
    w = set(); ref = []
    for i, x in enumerate(ps):
        if x not in ("[Ref]", "[Alt]"): continue
        kw = [j for j in range(i) if ps[j] in ("Theorem 1", "lemma")]
        pg = [j for j in range(i + 1, len(ps)) if ps[j] in ("p. 3", "p. 1234")]
        if not kw: w.add(("keyword", label))
        elif not pg: w.add(("page", label))
    return w
def biblio_tasks(deep):
    n = 5 if deep else 4
    r = []
    for k in range(1, n + 1):
        for c in itertools.product(BP, repeat=k):
            refs = sum(x in ("[Ref]", "[Alt]", "[[Ref]", "[two words]", "` [Ref] `", "[Ref") for x in c)
            if not refs or "[Ref" in c[:-1]: continue
            if refs > 1 and not deep and k > 3: continue
            # between the keyword and the reference there is no other bracket
            r.append(c)
    return r
def biblio_ok(c):
    """the documented syntax has one reference per keyword: a keyword whose first bracket is
    another one, and an unfinished bracket, are left open"""
    for i, x in enumerate(c):
        if x in ("[Ref]", "[Alt]"):
            kw = [j for j in range(i) if c[j] in ("Theorem 1", "lemma")]
            if kw and any(y.startswith("[") for y in c[kw[-1] + 1:i]): return False
    return "[Ref" not in c
def biblio_job(chunk):
    db = head(decl="$c [Ref] $.\n", t=tdefs(SYM + ["[Ref]"], more="htmlbibliography 'mmset.html';\n")); want = set(); refs = set()
    for i, ps in enumerate(chunk):
        l = "t%d" % i if i % 7 else "t%dOLD" % i
        mk = "" if i % 7 else "(New usage is discouraged.) (Proof modification is discouraged.) "
        db += "$( Text. %s. %s%s $)\n%s $p |- ( p -> p ) $= wp ax-id $.\n" % ((" ", "\n")[i % 2].join(ps), mk, CON, l)
        if i % 7: want |= biblio_rules(ps, l)
        refs |= {(x[1:-1], l) for x in ps if x in ("[Ref]", "[Alt]")}
    bad = judge("biblio", db, [VM], [want])
    for anchors in ([], ["Ref"], ["Alt"], ["Ref", "Alt"]) if not bad else []:
        page = "<HTML>" + "".join(('<A NAME="%s"></A>\n', "<A name=%s></A>\n", "<a \t NAME='%s'></A>")[(len(chunk) + j) % 3] % a for j, a in enumerate(anchors)) + "</HTML>\n"
        w = want | {("bibref", r, l) for r, l in refs if r not in anchors}
        if not anchors: w = w
        bad += judge("biblio files", db, [VM + "/file_check"], [w], {"mmset.html": page, "mmbiblio.html": "<HTML>\n<!-- #START# -->\n<!-- #END# -->\n</HTML>\n"})
        if bad: break
    return bad, len(chunk)

# ---------------------------------------------------------------- mathboxes
def mathbox_tasks(deep):
    n = 4 if deep else 3
    r = []
    for boxes in itertools.product((0, 1), repeat=n):          # does a new mathbox start before statement i
        for first in (0, 1, 2):                                # the mathbox label: absent, first, later
            for refs in itertools.product(*[[None] + ["ax-id"] + list(range(i)) for i in range(n)]):
                r.append((boxes, first, refs))
    return r
def mathbox_job(chunk):
    bad = []
    for boxes, first, refs in chunk:
        db = head(); cur = 0; box = []
        pos = {0: -1, 1: 0, 2: 1}[first]
        for i, (b, r) in enumerate(zip(boxes, refs)):
            if i == pos: db += "$( Begin. %s $)\nmathbox $p |- ( p -> p ) $= wp ax-id $.\n" % CON
            if b:
                db += "$(\n#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*\n  Mathbox for User %d\n#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*\n$)\n" % i
                if pos >= 0 and i >= pos: cur += 1
            box.append(cur if pos >= 0 and i >= pos else 0)
            db += "$( Text. %s $)\nt%d $p |- ( p -> p ) $= %s $.\n" % (CON, i, "wp ax-id" if r == "ax-id" else "?" if r is None else "wp t%d" % r)
        want = {(i, r) for i, r in enumerate(refs) if isinstance(r, int) and box[i] and box[r] and box[i] != box[r]}
        us = lambda i: "User %d" % max(j for j in range(i + 1) if boxes[j])
        w = {("mathbox", "t%d" % i, us(i), "t%d" % r, us(r)) for i, r in want}
        bad += judge("mathboxes", db, [VM, VM + "/mathbox_skip", VM + "/verbose"], [w, set(), {("mathboxv", x[1], x[3]) for x in w}])
        if bad: break
    return bad, len(chunk)

FAM = {"labels": label_job, "pairs": pair_job, "lines": line_job, "tokens": token_job, "dates": date_job, "top": top_job, "comments": comment_job, "headers": header_job, "biblio": biblio_job, "mathbox": mathbox_job}
def job(t):
    bad, k = FAM[t[0]](t[1])
    its = t[1][1] if t[1] and isinstance(t[1][0], int) else t[1]
    return t[0], [(a, b, list(t)) for a, b in bad], k, {mm.digest(repr((t[0], x))) for x in its}

def main(c):
    deep = c.thorough; tasks = []
    def ch(name, items, n, idx=False):
        k = 0
        for x in mm.chunks(items, n):
            tasks.append((name, (k, x) if idx else x)); k += len(x)
    ch("labels", label_tasks(deep), 60); ch("pairs", pair_tasks(deep), 60)
    ch("lines", line_tasks(deep), 60); ch("tokens", token_tasks(deep), 60)
    ch("dates", date_tasks(deep), 60, True); ch("comments", comment_tasks(deep), 100, True)
    ch("top", top_tasks(deep), 60)
    # each deviation alone, so that nothing else in the file accounts for the summary
    ch("labels", [x for x in label_tasks(deep) if len(x) == 1], 1); ch("dates", [x for x in date_tasks(deep) if len(x) <= 2], 1, True)
    ch("comments", [x for x in comment_tasks(deep) if len(x) <= 2], 1, True); ch("biblio", [x for x in biblio_tasks(deep) if biblio_ok(x) and len(x) <= 2], 1)
    ch("headers", header_tasks(deep), 60); ch("biblio", [x for x in biblio_tasks(deep) if biblio_ok(x)], 80)
    ch("mathbox", mathbox_tasks(deep), 60)
    for fam, bad, k, ds in mm.pmap(job, tasks, stop=c.enough):
        c.add(fam, k); c.add("evaluations", k); c.distinct(ds)
        for key, what, task in bad: c.violation("%s:%s" % (fam, key), what, {"task": task})
    for t in tasks[::max(1, len(tasks) // 5)]: c.sample(repr(t)[:150])

def replay(v):
    t = v["replay"]["task"]
    def tup(x): return tuple(tup(y) for y in x) if isinstance(x, list) else x
    bad = FAM[t[0]](tup(t[1]))[0]
    print(bad[0][1] if bad else "holds")
    return 1 if bad else 0
