"""G03: generated listings say exactly what is in the database.
discouraged: every small database of axioms and theorems (every set of earlier statements
           used by each theorem, every combination of the two tags): SHOW DISCOURAGED
tags:      every spelling of the tags, and places that are no tag
list:      WRITE THEOREM_LIST: every kind of statement at every position, every page size,
           every set of section headers before a statement: rows, pages, contents, links
biblio:    WRITE BIBLIOGRAPHY: every keyword, identifier, noise word, page and following
           character; every pair of references in one and in two statements
recent:    WRITE RECENT_ADDITIONS: every assignment of dates to statements, every limit
files:     the parts outside the START/END lines, and files without these lines"""
import itertools, re, datetime, html
import mm
LEVEL = "model_checking"

def S(cmds, files, timeout=60):
    """a session in an empty directory; the files it leaves can be read afterwards"""
    mm.server().clean()
    return mm.sess(cmds, files, timeout=timeout, clean=False)

# ---------------------------------------------------------------- SHOW DISCOURAGED
PT, UT = "(Proof modification is discouraged.)", "(New usage is discouraged.)"
DHEAD = "$c |- c $.\nbase $a |- c $.\n${ a1 $e |- c $. a2 $e |- c $. j2 $a |- c $. $}\n"
def proof(S):
    if not S: return "base", 1
    toks = [S[0]]
    for s in S[1:]: toks += [s, "j2"]
    return " ".join(toks), len(toks)
def options(i):
    ks = [None] + [s for n in range(i + 1) for s in itertools.combinations(range(i), n)]
    return [(k, f) for k in ks for f in range(4)]
def ddb(spec, pre=""):
    """text and expected lines of one database given as (None | used statements, tags)"""
    out = ""; lines = []; names = ["%st%d" % (pre, i) for i in range(len(spec))]
    for i, (k, f) in enumerate(spec):
        cm = "$( x %s %s $)\n" % (PT if f & 1 else "", UT if f & 2 else "")
        if k is None: out += cm + "%s $a |- c $.\n" % names[i]
        else:
            p, n = proof([names[x] for x in k]); out += cm + "%s $p |- c $= %s $.\n" % (names[i], p)
            if f & 1: lines.append('Proof modification of "%s" is discouraged (%d steps).' % (names[i], n))
        if f & 2:
            us = [j for j, (k2, _) in enumerate(spec) if k2 and i in k2]
            lines.append('New usage of "%s" is discouraged (%d uses).' % (names[i], len(us)))
            lines += ['"%s" is used by "%s".' % (names[i], names[j]) for j in us]
    return out, lines
def dlines(out): return re.findall(r"^(?:MM> )?SHOW DISCOURAGED:  (.*)$", out, re.M)
def disc_job(chunk):
    bad = []; n = 0
    for specs in chunk:          # several independent databases in one file
        txt = DHEAD; want = []
        for g, sp in enumerate(specs):
            t, w = ddb(sp, "g%d" % g if len(specs) > 1 else ""); txt += t; want += w
        r = S(["read a.mm", "show discouraged", "exit"], {"a.mm": txt}, timeout=60)
        got = dlines(r.out); n += len(specs)
        if r.crashed or got != want:
            d = next(((a, b) for a, b in itertools.zip_longest(got, want) if a != b), None)
            bad.append(("SHOW DISCOURAGED is wrong: %r instead of %r %s" % (d[0], d[1], r.log[-80:] if r.crashed else "") if d else "crash " + r.log[-200:], {"kind": "disc", "db": txt, "want": want}))
    return bad, n
def disc_tasks(deep):
    o = [options(i) for i in range(4)]
    pool = list(itertools.product(*o[:4]))
    singles = [(sp,) for n in (1, 2, 3) for sp in itertools.product(*o[:n])] + ([(sp,) for sp in pool] if deep else [])
    big = [tuple(pool[i:i + 60]) for i in range(0, len(pool), 60)]
    return singles + big

SPACES = [" ", "\n", "  ", "\n  "]
def tag_tasks():
    r = []
    for tag, bit in ((PT, 1), (UT, 2)):
        w = tag.split(" ")
        for sp in itertools.product(SPACES, repeat=len(w) - 1):
            r.append(("$( a " + "".join(a + b for a, b in zip(w, sp + ("",))) + " $)", bit))
        r += [("$( %s $)" % tag, bit), ("$(%s$)" % tag, None), ("$( a%s. b $)" % tag, None), ("$( %s $)\n$( b $)" % tag, 0), ("$( b $)\n$( %s $)" % tag, bit),
              ("$( %s $)" % tag[1:-1], 0), ("$( %s $)" % tag.replace(".", ""), 0), ("$( (%s) %s $)" % ("x" * 70, tag), bit), ("$( $)", 0), ("", 0), ("$( a $)\n$( %s $)\n$c q%d $.\n$( b $)" % (tag, bit), 0), ("$( a $)\n$c q%d $." % bit, 0), ("$( %s $)\n$c q%d $." % (tag, bit), 0)]
    return r
def tag_job(chunk):
    bad = []
    for cm, bit in chunk:
        if bit is None: continue
        r = S(["read a.mm", "show discouraged", "exit"], {"a.mm": DHEAD + cm + "\nt $p |- c $= base $.\n$( z $)\nu $p |- c $= t $.\n"}, timeout=30)
        want = {0: [], 1: ['Proof modification of "t" is discouraged (1 steps).'], 2: ['New usage of "t" is discouraged (1 uses).', '"t" is used by "u".']}[bit]
        if r.crashed or dlines(r.out) != want: bad.append(("tag in %r: SHOW DISCOURAGED prints %r instead of %r" % (cm, dlines(r.out), want), {"kind": "disc", "db": DHEAD + cm + "\nt $p |- c $= base $.\n$( z $)\nu $p |- c $= t $.\n", "want": want}))
    return bad, len(chunk)

# ---------------------------------------------------------------- web pages
TDEFS = "$( $t\n" + "".join("%s '%s' as '%s';\n" % (k, s, d) for k in ("htmldef", "althtmldef") for s, d in (("wff", "wff "), ("|-", k[0] + "VD "), ("(", "("), (")", ")"), ("->", " ARROW "), ("p", "P"), ("q", "Q"))) + "htmltitle 'T';\nhtmlbibliography 'mmset.html';\n%s$)\n"
EXT = "exthtmltitle 'X';\nexthtmlhome '<A HREF=\"mmext.html\"><IMG SRC=\"x.gif\"></A>';\nexthtmllabel '%s';\nexthtmlbibliography 'mmext.html';\n"
WHEAD = "$c wff |- ( ) -> $.\n$v p q $.\nwp $f wff p $.\nwq $f wff q $.\n$( Imp. $)\nwi $a wff ( p -> q ) $.\n$( Axiom. $)\nax-1 $a |- ( p -> p ) $.\n"
BIB = {"mmset.html": '<A NAME="Ab"></A>\n<A NAME="Ref"></A>\n<A NAME="Xyz"></A>\n', "mmext.html": '<A NAME="Ab"></A>\n<A NAME="Ref"></A>\n<A NAME="Xyz"></A>\n'}
def norm(t): return re.sub(r"\s+", " ", t).strip()
def nocolor(t): return re.sub(r'STYLE="color:#[0-9A-F]{6}"', "STYLE=C", norm(t))
NUM = r'&nbsp;<SPAN CLASS=r STYLE=C>(\d+|\(future\))</SPAN>'
COL = {None: "", "ext": ' BGCOLOR="#FAEEFF"', "box": ' BGCOLOR="#FFFFD9"'}

LEVELS = [("####", "h"), ("#*#*", "b"), ("=-=-", "s"), ("-.-.", "t")]
def header(lv, title, comment, space=""): d = LEVELS[lv][0] * 10; return "$(%s\n%s\n   %s\n%s\n%s$)\n" % (space, d, title, d, ("\n  %s\n" % comment) if comment else "")
def effective(seq):
    """which of the headers before a statement count: the last of each kind, and none that
    stands before a larger one that counts"""
    best = {}; start = -1
    for lv in range(4):
        xs = [i for i, h in enumerate(seq) if h[0] == lv and i > start]
        if xs: best[lv] = seq[xs[-1]]; start = xs[-1]
    return [best[lv] for lv in sorted(best)]

# a statement of a list: (kind, headers, lemma?, distinct variables?)
KINDS = ["ax-", "df-", "sy", "th"]
def list_db(spec, ext=None, box=None):
    txt = WHEAD; st = [("wi", "sy", "Imp.", "WFF", [], False), ("ax-1", "ax-", "Axiom.", "", [], False)]
    n = 0
    for i, (kind, hs, lemma, dv) in enumerate(spec):
        label = {"ax-": "ax-", "df-": "df-", "sy": "sy", "th": "th"}[kind] + (chr(97 + i) if i < 26 else "z%d" % i)
        if box == i: label = "mathbox"
        desc = ("Lemma for ~ ax-1 . Number %d." if lemma else "Text %d.") % i
        eff = []
        for lv, cm, sp in hs:
            n += 1; txt += header(lv, "Title %d" % n, "About %d." % n if cm else "", sp)
            eff.append((lv, "Title %d" % n, "About %d." % n if cm else ""))
        d = " $d p q $." if dv else ""
        body = "%s %s |- ( p -> ( q -> p ) ) $%s" % (label, "$p" if kind == "th" else "$a", "= ? $." if kind == "th" else ".")
        if i % 2: txt += "${%s h%d $e |- q $.\n$( %s $)\n%s $}\n" % (d, i, desc, body)
        else: txt += "${%s\n$( %s $)\n%s $}\n" % (d, desc, body)
        st.append((label, kind, desc, i % 2, effective(eff), dv))
    t = TDEFS % (EXT % st[ext + 2][0] if ext is not None else "")
    return t + txt, st
TYPE = {"ax-": "<B><FONT COLOR=red>Axiom</FONT></B>", "df-": '<B><FONT COLOR=blue>Definition</FONT></B>', "sy": '<B><FONT COLOR="#00CC00">Syntax</FONT></B>', "th": "Theorem"}
def formula(st, alt):
    k = "a" if alt else "h"
    if st[0] == "wi": f = "wff (P ARROW Q)"
    elif st[0] == "ax-1": f = k + "VD (P ARROW P)"
    else: f = k + "VD (P ARROW (Q ARROW P))"
    h = k + "VD Q" if st[3] == 1 and st[0] not in ("wi", "ax-1") else None
    return h, f
def link(l): return '<A HREF="%s.html">%s</A>' % (l, l)
def numbered(st):
    """the headers with their numbers: (statement, level, number, title, comment)"""
    c = [0, 0, 0, 0]; r = []
    for i, s in enumerate(st):
        for lv, title, cm in s[4]:
            c[lv] += 1
            for x in range(lv + 1, 4): c[x] = 0
            r.append((i, lv, "PART %d" % c[0] if lv == 0 else ".".join(map(str, c[:lv + 1])), title, cm))
    return r
def parse_page(t):
    """the events of the table of a page of the list"""
    t = nocolor(t); ev = []
    body = re.search(r'<TR><TH COLSPAN=3>Statement</TH></TR>(.*?)</TABLE></CENTER>', t)
    if not body: return None
    for row in re.findall(r"<TR.*?</TR>", body.group(1)):
        if row.startswith("<TR BGCOLOR=white><TD COLSPAN=3><FONT SIZE=-3>"): continue
        m = re.fullmatch(r'<TR BGCOLOR="#FFFFF2"><TD COLSPAN=3 ?><CENTER>(?:<FONT SIZE="\+1">)?<B><A NAME="(\w+)"></A>(.*?)&nbsp;&nbsp;(.*?)</B>(?:</FONT>)?</CENTER>(.*?)</TD></TR>', row)
        if m: ev.append(("head", m.group(1), m.group(2), m.group(3), re.sub(r'^ ?<P STYLE="margin-bottom:0em">', "", m.group(4)).strip())); continue
        m = re.fullmatch(r'<TR( BGCOLOR="#\w+")?><TD NOWRAP>(.*?)</TD><TD ALIGN=CENTER><A HREF="([^"]*).html">([^<]*)</A>' + NUM + r'(\*?)</TD><TD ALIGN=LEFT><A NAME="([^"]*)"></A>(.*?)</TD></TR>', row)
        if m and m.group(3) == m.group(4) == m.group(7): ev.append(["stmt", m.group(1) or "", m.group(2), m.group(3), int(m.group(5)), m.group(6), m.group(8).strip(), None]); continue
        m = re.fullmatch(r'<TR( BGCOLOR="#\w+")?><TD COLSPAN=3 ALIGN=CENTER>(.*)</TD></TR>', row)
        if m and ev and ev[-1][0] == "stmt" and ev[-1][7] is None and (m.group(1) or "") == ev[-1][1]: ev[-1][7] = m.group(2); continue
        ev.append(("?", row))
    return ev
def strip_tags(t): return norm(html.unescape(re.sub(r"<[^>]*>", " ", t)))
def judge_list(files, out, st, per, show, alt, ext, box):
    n = len(st); pages = (n - 1) // per + 1
    names = ["mmtheorems%s.html" % (p or "") for p in range(pages + 1)]
    have = sorted(f for f in files if f.startswith("mmtheorems"))
    if have != sorted(names): return "files %r instead of %r" % (have, names)
    heads = numbered(st); hl = {}
    for h in heads: hl.setdefault(h[0], []).append(h)
    anchors = {}
    def colour(i): return COL["box" if box is not None and i >= box + 2 else "ext" if ext is not None and i >= ext + 2 else None]
    for p, f in enumerate(names):
        t = files[f]; a = re.findall(r'<A\s+NAME="([^"]*)"', t); anchors[f] = set(a)
        if len(set(a)) != len(a): return "%s has two anchors of one name (%s)" % (f, [x for x in a if a.count(x) > 1][0])
    for p, f in enumerate(names):
        t = nocolor(files[f])
        for u in re.findall(r'HREF="((?:mmtheorems\d*\.html)?(?:#[^"]*)?)"', t):
            g, _, x = u.partition("#")
            if (g or f) not in anchors or (x and x not in anchors[g or f]): return "%s has a link to %s, which does not exist" % (f, u)
        # previous, next, and the list of pages
        want = '<A HREF="%s">&lt; %s</A>&nbsp;&nbsp;<A HREF="%s">%s &gt;</A>' % (names[p - 1], "Previous" if p else "Wrap", names[(p + 1) % (pages + 1)], "Next" if p < pages else "Wrap")
        if t.count(want) != 3: return "%s: previous and next page are not %s" % (f, want)
        pl = t.split("Jump to page:")[1].split("<HR")[0]
        w = ""
        for q in range(pages + 1):
            nm = "Contents" if q == 0 else str(q)
            w += (nm if q == p else '<A HREF="%s">%s</A>' % (names[q], nm)) + "&nbsp;"
            if q: w += "<SPAN CLASS=r STYLE=C>%d</SPAN>-<SPAN CLASS=r STYLE=C>%d</SPAN>" % ((q - 1) * per + 1, min(q * per, n))
            w += " "
        if norm(pl) != norm(w): return "%s: list of pages %s instead of %s" % (f, norm(pl), norm(w))
        ti = "Theorem List (%s)" % ("p. %d of %d" % (p, pages) if p else "Table of Contents")
        if t.count("Theorem List (") != 1 or ti not in t: return "%s is not called %s" % (f, ti)
        tt = "<TITLE>%s of Theorem List - T</TITLE>" % ("P. %d" % p if p else "TOC")
        if tt not in t: return "%s: the title is not %s" % (f, tt)
        if p == 0: continue
        # the colour key: the ranges of the sections
        key = t.partition('SUMMARY="Color key"')[2].partition("</TABLE>")[0]; key = [(a, int(b), int(c)) for a, b, c in re.findall(r"&nbsp;([^<&]*)</A> ?<BR>\((\d+)-(\d+)\)", re.sub(r"</?SPAN[^>]*>", "", key))]
        wk = []
        if ext is not None and (box is None or ext < box):
            b = n if box is None else box + 2
            wk = [("Metamath Proof Explorer", 1, ext + 2), ("Hilbert Space Explorer", ext + 3, b)] + ([("Users' Mathboxes", b + 1, n)] if box is not None else [])
        if key != wk: return "%s: colour key %r instead of %r" % (f, key, wk)
        m = re.search(r"<CAPTION>.*?- </B><SPAN CLASS=r STYLE=C>(\d+)</SPAN><B>-</B><SPAN CLASS=r STYLE=C>(\d+)</SPAN>", t)
        if not m or (int(m.group(1)), int(m.group(2))) != ((p - 1) * per + 1, min(p * per, n)): return "%s: wrong range of statements in the caption" % f
        ev = parse_page(files[f]); w = []
        for i in range((p - 1) * per, min(p * per, n)):
            for _, lv, nu, title, cm in hl.get(i, []): w.append(("head", "mm%d%s" % (i + 1, LEVELS[lv][1]), nu, title, cm))
            s = st[i]; d = re.sub(r"~ ax-1 \.", '<A HREF="ax-1.html">ax-1</A>&nbsp;<SPAN CLASS=r STYLE=C>2</SPAN>.', s[2])
            hyp, fo = formula(s, alt)
            lem = s[2].startswith("Lemma for ") and not show
            w.append(("stmt", colour(i), TYPE[s[1]], s[0], i + 1, "*" if s[5] else "", d + (" <I>[Auxiliary lemma - not displayed.]</I>" if lem else ""), None if lem else (hyp, fo)))
        if ev is None or len(ev) != len(w): return "%s: rows %r instead of %r" % (f, ev, w)
        for a, b in zip(ev, w):
            if a[0] == "stmt" and b[0] == "stmt":
                if tuple(a[:7]) != b[:7]: return "%s: row %r instead of %r" % (f, a[:7], b[:7])
                if (a[7] is None) != (b[7] is None): return "%s: formula of %s %s" % (f, b[3], "missing" if a[7] is None else "shown")
                if b[7]:
                    x = strip_tags(a[7]); hyp, fo = b[7]
                    y = norm(fo) if hyp is None else None
                    if hyp is None and x != y or hyp and not (x.startswith(norm(hyp)) and x.endswith(norm(fo)) and len(x) > len(norm(hyp)) + len(norm(fo)) - 1): return "%s: formula of %s is %r" % (f, b[3], x)
            elif tuple(a) != b: return "%s: %r instead of %r" % (f, a, b)
    # contents
    t = nocolor(files[names[0]]); parts = t.split("<B>Table of Contents Summary</B></CENTER>")
    if len(parts) != 2: return "no summary of contents"
    summ, _, det = parts[1].partition('<A NAME="mmdtoc"></A>'); det = det.partition("<HR")[0]
    gs = [(m.group(1), m.group(2), m.group(3)) for m in re.finditer(r'<A HREF="#dtl:([\d.]+)"><B>(.*?)&nbsp;&nbsp;(.*?)</B></A><BR>', summ)]
    ws = [(nu.replace("PART ", ""), nu, title) for i, lv, nu, title, cm in heads if lv < 2]
    if gs != ws or summ.partition("<HR")[0].count("<BR>") != len(ws): return "summary of contents %r instead of %r" % (gs, ws)
    gd = []
    for m in re.finditer(r'((?:&nbsp; )*)((?:<A NAME="[^"]*"></A> ?&#8203;)*)<A HREF="([^"]*)">(?:<B>)?(\*?)([^<]*?)&nbsp;&nbsp;([^<]*)(?:</B>)?</A>(?: &nbsp; <A HREF="([^"]*).html">([^<]*)</A>' + NUM + ')?<BR>', det):
        gd.append((len(m.group(1)) // 7 // 1, tuple(re.findall(r'NAME="([^"]*)"', m.group(2))), m.group(3), m.group(4), m.group(5), m.group(6), m.group(7), m.group(8), m.group(9)))
    wd = []; named = set()
    for i, lv, nu, title, cm in heads:
        an = (("dtl:" + nu.replace("PART ", ""),) if lv < 2 else ())
        if cm and i not in named: an += (st[i][0],); named.add(i)
        x = (st[i][0], st[i][0], str(i + 1)) if lv > 1 else (None, None, None)
        wd.append((lv * 3, an, "mmtheorems%d.html#mm%d%s" % (i // per + 1, i + 1, LEVELS[lv][1]), "*" if cm else "", nu, title) + x)
    gd = [tuple(x[1:]) for x in gd]; wd = [tuple(x[1:]) for x in wd]
    if gd != wd: return "detailed contents %r instead of %r" % next(((a, b) for a, b in itertools.zip_longest(gd, wd) if a != b), (gd, wd))
    if box is not None and any(i == box + 2 and lv < 2 for i, lv, *_ in heads) and '<A NAME="sandbox:bighdr">' not in t: return "no anchor for the mathboxes in the contents"
    return None
def list_job(chunk):
    bad = []
    for spec, per, show, alt, ext, box in chunk:
        db, st = list_db(spec, ext, box)
        cmd = "write theorem_list /theorems_per_page %d%s%s" % (per, " /show_lemmas" if show else "", " /alt_html" if alt else " /html")
        r = S(["read a.mm", cmd, "exit"], dict(BIB, **{"a.mm": db}), timeout=60)
        files = mm.server().ls(); files = {f: mm.server().read(f) for f in files if f.startswith("mmtheorems")}
        e = "crash " + r.log[-200:] if r.crashed else judge_list(files, r.out, st, per, show, alt, ext, box)
        if e: bad.append(("theorem list: " + e, {"kind": "list", "args": [spec, per, show, alt, ext, box], "db": db}))
    return bad, len(chunk)
def list_tasks(deep):
    r = []; subs = [s for n in range(5) for s in itertools.combinations(range(4), n)]
    P = lambda k, hs=(), lemma=False, dv=False: (k, tuple(hs), lemma, dv)
    # kinds of statements, lemmas, distinct variables, page sizes
    for ks in itertools.product(KINDS, repeat=2):
        for lem in itertools.product((False, True), repeat=2):
            for dv in itertools.product((False, True), repeat=2):
                for per in (1, 2, 3, 4, 5): r.append(([P(ks[0], (), lem[0], dv[0]), P(ks[1], (), lem[1], dv[1])], per, per % 2 == 0, per > 2, None, None))
    # the number of statements against the page size
    for n in range(0, 24 if not deep else 60):
        for per in range(1, n + 4): r.append(([P(KINDS[i % 4]) for i in range(n)], per, False, bool(n % 2), None, None))
    # sets of headers before two statements
    for a, b in itertools.product(subs, repeat=2):
        for per in (1, 2, 3): r.append(([P("th", [(lv, (lv + len(b)) % 2, "") for lv in a]), P("th", [(lv, (lv + len(a)) % 2, "") for lv in b]), P("ax-")], per, False, False, None, None))
    if deep:
        for a, b, e in itertools.product(subs, repeat=3):
            for per in (1, 2, 3, 5): r.append(([P("th", [(lv, (lv + len(b)) % 2, "") for lv in a]), P("th", [(lv, (lv + len(a)) % 2, "") for lv in b]), P("ax-", [(lv, (lv + len(a)) % 2, "") for lv in e])], per, False, False, None, None))
    # sequences of headers, with and without a space after $( and comments
    for n in (1, 2, 3, 4):
        for sq in itertools.product(range(4), repeat=n):
            for sp in itertools.product(("", " "), repeat=n):
                if deep or n < 4 or sp in (("",) * 4, ("", " ") * 2): r.append(([P("th", [(lv, k % 2, s) for k, (lv, s) in enumerate(zip(sq, sp))])], 2, False, False, None, None))
    # headers and everything else about a statement
    for kind, lem, dv, show in itertools.product(KINDS, (False, True), (False, True), (False, True)):
        for a in subs:
            for first in (False, True): r.append(([P(kind, [(lv, lv % 2, "") for lv in a], lem, dv), P("th", (), not lem)][::-1 if first else 1], 3, show, dv, None, None))
    for cm in itertools.product((0, 1), repeat=4):
        r.append(([P("th", [(lv, cm[lv], "") for lv in range(4)])], 2, False, True, None, None))
    # the extended section and the mathboxes at every position
    for n in (1, 2, 3):
        for ext, box in itertools.product([None] + list(range(n)), repeat=2):
            if ext is not None and box is not None and ext >= box: continue
            for h in ((), (0,), (1,), (0, 1)):
                for per in (1, 3): r.append(([P("th", [(lv, 0, "") for lv in h]) for i in range(n)], per, False, False, ext, box))
    return r

# ---------------------------------------------------------------- WRITE BIBLIOGRAPHY
KEYWORDS = "Axiom Chapter Claim Compare Conclusion Condition Conjecture Corollary Criteria Criterion Definition Equation Example Exercise Fact Figure Introduction Item Lemma Lemmas Line Lines Notation Note Observation Paragraph Part Postulate Problem Proof Property Proposition Remark Result Rule Scheme Scolia Scolion Section Statement Subsection Table Theorem".split()
IDENTS = ["", "3", "3.1", "3(a)", "(4)", "IV", "1.2.3", "10", "about long names 3.22", "about long names 4.22"]
NOISE = ["of", "in", "from", "on", ""]
PAGES = ["1", "9", "10", "123", "1234", "12345", "xii", "12a", "A5"]
AFTER = [".", ",", ";", " ", "\n", ""]
def ref(kw, ident, noise, author, page): return " ".join(x for x in (kw, ident, noise, "[%s]" % author, "p. " + page) if x)
def row(kw, ident, noise, author, page): return (author, page, norm(kw[0].upper() + kw[1:] + " " + ident))
def bib_db(stmts, ext=None, box=None):
    txt = WHEAD.replace("Axiom. ", "An. ")
    for l, d in stmts: txt += "$( %s $)\n%s $a |- p $.\n" % (d, l)
    return TDEFS % (EXT % ext if ext else "") + txt
def parse_bib(t):
    m = re.search(r"<!-- #START# -->\n(.*?)<!-- #END# -->\n", t, re.S)
    if not m: return None
    body = nocolor(m.group(1)); rows = []
    for x in re.findall(r"<TR.*?</TR>", body):
        m = re.fullmatch(r'<TR( BGCOLOR="#\w+")?><TD NOWRAP>\[<A HREF="(\w+\.html)#([^"]*)">([^<]*)</A>\] p\. ([^<]*)</TD><TD>(.*?)</TD><TD>(.*)</TD></TR>', x)
        if not m or m.group(3) != m.group(4): return "row not understood: %s" % x
        labs = m.group(7).split(" &nbsp;<A") ; labs = [labs[0]] + ["<A" + y for y in labs[1:]]; ls = []
        for y in labs:
            z = re.fullmatch(r'<A HREF="([^"]*)\.html">([^<]*)</A>' + NUM, y)
            if not z or z.group(1) != z.group(2): return "row not understood: %s" % x
            ls.append((z.group(1), int(z.group(3))))
        rows.append((m.group(1) or "", m.group(2), (m.group(4), m.group(5).strip(), norm(m.group(6))), ls))
    if norm(re.sub(r"<TR.*?</TR>", "", body)): return "more than rows: %r" % body
    return rows
BFILE = "line 1\n<TR> &\n<!-- #START# -->\nold 1\nold 2\n<!-- #END# -->\nThis page was last updated on 1-Jan-1999.\nlast\n"
def pagekey(p):
    m = re.match(r"\d*", p).group(); return m
def judge_bib(r, t, t1, stmts, refs, ext, box, nwarn):
    """refs: (label index, row)"""
    rows = parse_bib(t or "")
    if not isinstance(rows, list): return rows or "file has lost its START and END lines"
    lab = [l for l, _ in stmts]; want = {}
    for i, rw in refs: want.setdefault(rw, []).append((lab[i], i + 3))
    got = {}
    for c, f, rw, ls in rows:
        if rw in got: return "two rows for %r" % (rw,)
        got[rw] = sorted(ls)
        i = ls[0][1] - 3
        for l, nu in ls:
            if (l, nu - 3) not in [(x, j) for j, x in enumerate(lab)]: return "number %d at %s" % (nu, l)
        js = [nu - 3 for l, nu in ls]
        def kind(j): return "box" if box and j >= lab.index("mathbox") else "ext" if ext and j >= lab.index(ext) else None
        if c not in [COL[kind(j)] for j in js]: return "colour of %r" % (rw,)
        if f not in ["mmext.html" if kind(j) == "ext" else "mmset.html" for j in js]: return "bibliography of %r is %s" % (rw, f)
    w = {k: sorted(v) for k, v in want.items()}
    if got != w: return "rows %r instead of %r" % (sorted(got.items()), sorted(w.items()))
    ks = [(rw[0], int(rw[1])) for _, _, rw, _ in rows if rw[1].isdigit() and len(rw[1]) < 5]
    if ks != sorted(ks): return "rows are not sorted by author and page: %r" % ks
    if "%d references were processed." % len(refs) not in r.out: return "wrong number of references"
    if "%d table rows were written." % len(w) not in r.out: return "wrong number of rows"
    if r.out.count("?Warning") != nwarn: return "%d warnings instead of %d" % (r.out.count("?Warning"), nwarn)
    if t1 != BFILE: return "the old file was not kept as ~1"
    a, b = re.sub(r"(<!-- #START# -->\n).*(<!-- #END# -->\n)", r"\1\2", t, flags=re.S), re.sub(r"(<!-- #START# -->\n).*(<!-- #END# -->\n)", r"\1\2", BFILE, flags=re.S)
    if re.sub(r"last updated on .*", "", a) != re.sub(r"last updated on .*", "", b): return "text outside of the START and END lines has changed"
    return None
def bib_run(stmts, refs, ext=None, box=None, nwarn=0):
    r = S(["read a.mm", "write bibliography b.html", "exit"], dict(BIB, **{"a.mm": bib_db(stmts, ext, box), "b.html": BFILE}), timeout=60)
    s = mm.server()
    return "crash " + r.log[-200:] if r.crashed else judge_bib(r, s.read("b.html"), s.read("b.html~1"), stmts, refs, ext, box, nwarn)
def bib_job(chunk):
    bad = []
    for a in chunk:
        e = bib_run(*a)
        if e: bad.append(("bibliography: " + e, {"kind": "bib", "args": a}))
    return bad, len(chunk)
def one(parts, after="."): return ref(*parts) + after
def bib_tasks(deep):
    r = []; every = []
    for kw in KEYWORDS: every += [(k, "2", "of", "Ref", "17") for k in (kw, kw.lower(), kw.upper())]
    every += [("Theorem", i, n, a, p) for i in IDENTS for n in NOISE for a in ("Ref", "Ab") for p in PAGES]
    # each alone, in the middle of text, every following character
    for x in every:
        for af in AFTER: r.append(([("t0", "Text. " + one(x, af) + (" More (text)." if af else ""))], [(0, row(*x))]))
    # words on different lines
    x = ("Theorem", "3.1", "of", "Ref", "22")
    for sp in itertools.product((" ", "\n", "\n     ", "  "), repeat=5):
        w = ref(*x).split(" "); r.append(([("t0", "A " + "".join(a + b for a, b in zip(w, sp + ("",))) + ".")], [(0, row(*x))]))
    # pairs of references in one and in two statements
    pool = [(kw, i, n, a, p) for kw in ("Theorem", "Axiom") for i in ("", "9", "10", "about long names 3.22", "about long names 4.22") for n in ("of",) for a in ("Ab", "Ref") for p in ("9", "10", "xi")]
    for x, y in itertools.product(pool, repeat=2):
        r.append(([("t0", one(x) + " " + one(y, ";") + " end")], [(0, row(*x)), (0, row(*y))])) if x != y else None
        r.append(([("t0", one(x)), ("tNE", "No."), ("t1", one(y))], [(0, row(*x)), (2, row(*y))]))
    if deep:
        for kw, k2 in itertools.product(KEYWORDS, repeat=2):
            for i, j in itertools.product(("", "3", "12"), repeat=2):
                x, y = (kw, i, "of", "Ref", "12"), (k2, j, "in", "Ref", "12")
                if x != y: r.append(([("t0", one(x) + " " + one(y, ";") + " end")], [(0, row(*x)), (0, row(*y))])) if row(*x) != row(*y) else None
    small = [pool[0], pool[3], pool[7], pool[13], pool[21], pool[24]] if not deep else pool[::2]
    for x, y, z in itertools.product(small, repeat=3): r.append(([("t0", one(x)), ("t1", one(y)), ("t2", one(z))], [(0, row(*x)), (1, row(*y)), (2, row(*z))]))
    # what is no reference, before and after one
    x = ("Theorem", "3.1", "of", "Ref", "22")
    for other, warn in (("[two words]", 0), ("[[Ref]", 0), ("` [Ref] `", 0), ("` `` [Ref] `` `", 0), ("[ Ref ]", 0), ("~ wi", 0), ("[-]", 0), ("(p. 5)", 0), ("Proof.", 0), ("[open", 0), ("a]", 0)):
        r.append(([("t0", "A %s b. %s" % (other, one(x)))], [(0, row(*x))], None, None, warn))
        if other != "[open": r.append(([("t0", "%s A %s b." % (one(x), other))], [(0, row(*x))], None, None, warn))
    for n in (1, 2, 3) if not deep else (1, 2, 3, 4):
        for m in itertools.product(("``", "[Ref]", "p", "[[", "p. 5"), repeat=n):
            for a, b in itertools.product(("", " "), repeat=2):
                if not a and m[0] == "``": continue
                t = "`" + a + " ".join(m) + b + "`"
                for pre in ("Proof %s. ", "(%s) ", "A%s"): r.append(([("t0", pre % t + one(x) + " B %s." % t)], [(0, row(*x))]))
    # obsolete and future statements
    for l in ("tOLD", "OLDt", "tOLDb", "NEWt", "tNEW", "told", "tnew", "tOL", "tNE"):
        omit = "OLD" in l or "NEW" in l
        r.append(([(l, one(x)), ("t1", one(pool[0]))], [] + ([] if omit else [(0, row(*x))]) + [(1, row(*pool[0]))]))
    # without keyword, without page
    r.append(([("t0", "See [Ref] p. 3."), ("t1", one(x))], [(1, row(*x))], None, None, 1))
    r.append(([("t0", "Theorem 3 of [Ref]."), ("t1", one(x))], [(1, row(*x))], None, None, 1))
    # the extended section and mathboxes
    for n in (2, 3):
        for ext in [None] + ["t%d" % i for i in range(n)]:
            for box in [None] + list(range(n)):
                if ext and box is not None and int(ext[1]) >= box: continue
                for same in (False, True):
                    st = [("mathbox" if i == box else "t%d" % i, one(pool[0 if same else i])) for i in range(n)]
                    r.append((st, [(i, row(*pool[0 if same else i])) for i in range(n)], ext, "mathbox" if box is not None else None))
    return r

# ---------------------------------------------------------------- WRITE RECENT_ADDITIONS
MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
def ds(d): return "%d-%s-%d" % (d[2], MON[d[1] - 1], d[0])
DATES = [(2001, 1, 1), (2001, 1, 31), (2001, 2, 1), (2000, 12, 31), (2000, 2, 29), (2001, 10, 9), (1999, 12, 31)]
RFILE = "top\n<!-- last updated -->\n<!-- #START# -->\nold\n<!-- #END# -->\nend\nThis page was last updated on 1-Jan-1999.\nz\n"
def rec_db(stmts):
    """stmts: (label, dates); the dates are given as Contributed, Revised, Proof shortened"""
    t = TDEFS % "" + WHEAD
    for l, d, p in stmts: t += "$( About %s. %s $)\n%s %s |- ( p -> q ) $%s\n" % (l, " ".join("(%s by A. B., %s.)" % (k, ds(x)) for k, x in zip(p, d)), l, "$p" if len(d) % 2 else "$a", "= ? $." if len(d) % 2 else ".")
    return t
CRS = ("Contributed", "Revised", "Proof shortened")
def rec_run(stmts, limit, alt=False):
    r = S(["read a.mm", "write recent_additions r.html%s%s" % (" /limit %d" % limit if limit is not None else "", " /alt_html" if alt else " /html"), "exit"], dict(BIB, **{"a.mm": rec_db(stmts), "r.html": RFILE}), timeout=60)
    if r.crashed: return "crash " + r.log[-200:]
    s = mm.server(); t = s.read("r.html") or ""
    if s.read("r.html~1") != RFILE: return "the old file was not kept as ~1"
    al = sorted(((max(d), i) for i, (l, d, p) in enumerate(stmts) if d), reverse=True)
    al = al[:limit if limit is not None else 100]
    m = re.search(r"<!-- #START# -->\n(.*?)<!-- #END# -->\n", t, re.S)
    if not m: return "the START and END lines are lost"
    body = nocolor(m.group(1)); got = []
    for x in re.finditer(r'<TR><TD NOWRAP>([^<]*)</TD><TD ALIGN=CENTER><A HREF="([^"]*)\.html">([^<]*)</A>' + NUM + r'</TD><TD ALIGN=LEFT>(.*?)</TD></TR><TR><TD COLSPAN=3 ALIGN=CENTER>(.*?)</TD></TR>', body):
        if x.group(2) != x.group(3): return "link to %s at %s" % (x.group(2), x.group(3))
        got.append((x.group(1), x.group(2), int(x.group(4)), x.group(5).strip(), strip_tags(x.group(6))))
    want = []
    for d, i in al:
        l, dd, p = stmts[i]
        want.append((ds(d), l, i + 3, "About %s. %s" % (l, " ".join("(%s by A. B., %s.)" % (k, ds(x)) for k, x in zip(p, dd))), ("a" if alt else "h") + "VD (P ARROW Q)"))
    if got != want: return "listed %r instead of %r" % next((a, b) for a, b in itertools.zip_longest(got, want) if a != b)
    if body.count("<TD NOWRAP>") != len(want): return "more rows than understood"
    if "The %d most recent theorem(s) were written." % len(want) not in r.out: return "wrong number of theorems written"
    a, b = [re.sub(r"last updated.*", "", re.sub(r"(<!-- #START# -->\n).*(<!-- #END# -->\n)", r"\1\2", y, flags=re.S)) for y in (t, RFILE)]
    if a != b: return "text outside of the START and END lines has changed"
    # for scripts: each listed statement with the ones before and after it
    labs = ["wi", "ax-1"] + [l for l, _, _ in stmts]
    for pv, cu, nx in re.findall(r"(?:<!-- For script: previous = (\S+) --> )?<!-- For script: current = (\S+) -->(?: <!-- For script: next = (\S+) -->)?", body):
        i = labs.index(cu)
        if (pv, nx) != (labs[i - 1], labs[i + 1] if i + 1 < len(labs) else ""): return "statements around %s are %s and %s" % (cu, pv, nx)
    return None
def rec_job(chunk):
    bad = []
    for a in chunk:
        e = rec_run(*a)
        if e: bad.append(("recent additions: " + e, {"kind": "rec", "args": a}))
    return bad, len(chunk)
def rec_tasks(deep):
    r = []; D = DATES
    for n in (1, 2, 3, 4) if deep else (1, 2, 3):
        for ds_ in itertools.product([None] + D[:5 if n == 3 and not deep else 7], repeat=n):
            st = [("t%d" % i, (d,) if d else (), CRS[:1]) for i, d in enumerate(ds_)]
            for lim in range(1, n + 2): r.append((st, lim, n == 2))
    for n in range(0, 6):
        for lim in list(range(1, n + 2)) + [None]: r.append(([("t%d" % i, (D[(i * 3) % 7],), CRS[:1]) for i in range(n)], lim))
    # several dates in one statement, in every order of their kinds
    for p in itertools.permutations(CRS):
        for k in (2, 3):
            for dd in itertools.product(D[:4] if not deep else D, repeat=k): r.append(([("t0", tuple(dd), p[:k]), ("t1", (D[1],), CRS[:1])], 2)) if p[0] == "Contributed" else None
    # every day around the ends of all months of two years
    today = datetime.date.today()
    days = [datetime.date(2003, 12, 25) + datetime.timedelta(i) for i in range(740)]
    days = [d for d in days if d.day < 3 or d.day > 27]
    r.append(([("t%d" % i, ((d.year, d.month, d.day),), CRS[:1]) for i, d in enumerate(days)], 1000))
    days = [today - datetime.timedelta(i) for i in range(0, 70)]
    r.append(([("t%d" % i, ((d.year, d.month, d.day),), CRS[:1]) for i, d in enumerate(days[1:])], 1000))
    r.append(([("t%d" % i, ((y, 1 + y % 12, 1 + y % 28),), CRS[:1]) for i, y in enumerate(range(1993, 2026))], 1000))
    return r

# ---------------------------------------------------------------- files without the lines
def file_tasks():
    r = []
    for cmd in ("write bibliography b.html", "write recent_additions b.html", "write recent_additions b.html /limit 1"):
        for present in itertools.product((0, 1), repeat=2):
            for order in (0, 1):
                for pre, mid, post in itertools.product(("", "a\n"), repeat=3):
                    for end in ("\n", ""):
                        ls = [("<!-- #START# -->\n" if present[0] else "<!-- #Start# -->\n"), ("<!-- #END# -->\n" if present[1] else "<!-- #END# --> \n")]
                        if order: ls.reverse()
                        t = pre + ls[0] + mid + ls[1] + post
                        if not end: t = t.rstrip("\n")
                        r.append((cmd, t))
        r.append((cmd, None))
    return sorted(set(r), key=str)
def file_job(chunk):
    bad = []
    for cmd, t in chunk:
        db = rec_db([("t0", (DATES[0],), CRS[:1])]).replace("About t0.", "Theorem 3 of [Ref] p. 3. About t0.")
        files = dict(BIB, **{"a.mm": db})
        if t is not None: files["b.html"] = t
        r = S(["read a.mm", cmd, "exit"], files, timeout=30); s = mm.server(); ls = s.ls(); e = None
        if r.crashed: e = "crash " + r.log[-200:]
        elif t is None:
            if "b.html" in ls: e = "a file was made"
            elif "?" not in r.out.split("MM> ")[-2]: e = "nothing was said"
        else:
            lines = t.split("\n"); lines = lines[:-1] if lines[-1] == "" else lines
            ok = "<!-- #START# -->" in lines and "<!-- #END# -->" in lines[lines.index("<!-- #START# -->"):]
            now = s.read("b.html")
            if not ok:
                if now != t: e = "a file without the two lines was changed to %r" % now
                elif "was not modified" not in r.out: e = "nothing was said about the missing line"
                elif "b.html~1" in ls: e = "the file is there twice"
            else:
                i = lines.index("<!-- #START# -->"); j = i + lines[i:].index("<!-- #END# -->")
                got = (now or "").split("\n")
                if got[:i + 1] != lines[:i + 1]: e = "text before START changed"
                elif "<!-- #END# -->" not in got or got[got.index("<!-- #END# -->"):] != lines[j:] + [""]: e = "text after END changed"
                elif s.read("b.html~1") != t: e = "the old file was not kept"
                elif "t0.html" not in now: e = "nothing was written"
        if e: bad.append(("%s of %r: %s" % (cmd, t, e), {"kind": "file", "args": [cmd, t]}))
    return bad, len(chunk)

JOBS = {"disc": disc_job, "tag": tag_job, "list": list_job, "bib": bib_job, "rec": rec_job, "file": file_job}
def job(a):
    bad, n = JOBS[a[0]](a[1])
    return a[0], bad, n, {mm.digest(repr(x)) for x in a[1]}
def main(c):
    deep = c.thorough
    fams = {"disc": disc_tasks(deep), "tag": tag_tasks(), "list": list_tasks(deep), "bib": bib_tasks(deep), "rec": rec_tasks(deep), "file": file_tasks()}
    tasks = []
    for k, v in fams.items():
        for ch in mm.chunks(v, {"disc": 25, "rec": 12}.get(k, 20)): tasks.append((k, ch))
    for fam, bad, k, ds in mm.pmap(job, tasks, stop=c.enough):
        c.add(fam, k); c.add("evaluations", k); c.distinct(ds)
        for w, rep in bad: c.violation("%s:%s" % (fam, mm.digest(repr(rep))), w, rep)
    for t in tasks[::max(1, len(tasks) // 5)]: c.sample(repr(t)[:150])

def replay(v):
    r = v["replay"]
    def tup(x): return tuple(tup(y) for y in x) if isinstance(x, list) else x
    if r["kind"] == "disc":
        x = S(["read a.mm", "show discouraged", "exit"], {"a.mm": r["db"]}); print(x.out); print("expected:", "\n".join(r["want"]))
        return 1 if dlines(x.out) != r["want"] else 0
    bad = JOBS[r["kind"]]([tup(r["args"])])[0]
    print(bad[0][0] if bad else "holds")
    return 1 if bad else 0
