"""G02: HTML and LaTeX output.
chars:     every printable character (and pairs) in the text of a description, in HTML and
           LaTeX
comments:  every short sequence of well-formed markup pieces in descriptions: rendered
           piece by piece as documented (HTML, ALT_HTML, LaTeX)
markup:    the same pieces through the MARKUP command with every subset of its qualifiers;
           without qualifiers the text comes out as it went in
defs:      every short spelling of typesetting definitions ($t syntax): the page shows the
           defined string
formulas:  every short formula as hypothesis and assertion: the definitions in order
proofs:    the steps of the proof table of the pages of enumerated proofs"""
import itertools, re
import mm, refmm, enum_proofs
LEVEL = "model_checking"

SYM = {"wff": "wf", "|-": "<VD>", "(": "LP ", ")": " RP", "->": "&rarr;", "p": "<I>p</I>", "q": "\\q{a b}", '"': "DQ'", "`": "BQ", "~~": "\"tt\"", "a_b": "A<SUB>b</SUB>", "[x]": "[X]", "<": "&lt;", "_": "US"}
KIND = {"tex": "latexdef", "html": "htmldef", "alt": "althtmldef"}
def quote(s): return '"%s"' % s.replace('"', '""') if "'" in s else "'%s'" % s
def defd(k, s): return k[0].upper() + SYM[s]
def tdefs(): return "$( $t\n" + "".join("%s %s as %s;\n" % (KIND[k], quote(s), quote(defd(k, s))) for k in KIND for s in SYM) + "htmltitle 'T';\nhtmlbibliography 'mmset.html';\n$)\n"
def head(t=None): return (t or tdefs()) + "$c wff |- ( ) -> %s $.\n$v p q $.\nwp $f wff p $.\nwq $f wff q $.\nwi $a wff ( p -> q ) $.\n$( An axiom. $)\nax-id $a |- ( p -> p ) $.\n$( An underscore. $)\na_b $a |- p $.\n" % " ".join(s for s in SYM if s not in "wff |- ( ) -> p q".split())
NUM = {"wi": 1, "ax-id": 2, "a_b": 3}

def norm(t): return re.sub(r"\s+", " ", t).strip()
def clean(t):
    """without the colour of statement numbers"""
    return re.sub(r'STYLE="color:#[0-9A-F]{6}"', "STYLE=C", norm(t))
def num(n): return "&nbsp;<SPAN CLASS=r STYLE=C>%d</SPAN>" % n
def math(k, toks, font=""):
    if k == "tex":
        out = ""; last = ""
        for t in toks:
            d = defd(k, t); out += ("\\," if last[:1].isalpha() and d[:1].isalpha() else "") + d + " "; last = d
        return "$" + out.rstrip() + "$"
    s = "".join(defd(k, t) for t in toks).strip()
    return "<SPAN %s>%s</SPAN>" % (font, s) if k == "alt" else s

# a piece: (source, kind, value): T text, M math, L label, U url, S plain special
def T(s, html, tex=None): return (s, "T", html, html if tex is None else tex)
def M(s, toks, pre="", post=""): return (pre + s + post, "M", tuple(toks.split()), (pre, post))
PIECES = [T("word", "word"), T("a<b>c", "a&lt;b&gt;c", "a\\{b\\}c"), T("A&B;", "A&B;", "A\\&B;"), T('"q"', "&quot;q&quot;", '``q"'), T("(", "("), T(")", ")"), T(",", ","), T(".", "."), T("[", "["),
          T("_it_", "<I>it</I>", None), T("_two words_", "<I>two words</I>", None), T("(_it_),", "(<I>it</I>),", None), T("x_2", 'x<SUB><FONT SIZE="-1">2</FONT></SUB>', None), T("x_2b,", 'x<SUB><FONT SIZE="-1">2b</FONT></SUB>,', None), T("F_n(x)", 'F<SUB><FONT SIZE="-1">n</FONT></SUB>(x)', None), T("x_2.5", 'x<SUB><FONT SIZE="-1">2</FONT></SUB>.5', None), T("(x_2)", '(x<SUB><FONT SIZE="-1">2</FONT></SUB>)', None), T("x_", "x_", None), T("_a-b_", "<I>a-b</I>", None), T("a__b", "a_b", None), T("__", "_", None),
          T("[Ref]", '[<A HREF="mmset.html#Ref">Ref</A>]', "[Ref]"), T("[[Ref]", "[Ref]", None), T("``", "`", "`"), T("~~", "~", "~"), T("[two words]", "[two words]"), T("50%#", "50%#", "50\\%\\#"),
          M("` p `", "p"), M("`p`", "p"), M("` ( p -> q ) `", "( p -> q )"), M('` p " `` `', 'p " `'), M("` ~~ a_b [x] < _ `", "~~ a_b [x] < _"), M("` p `", "p", "(", "),"), M("`p`", "p", "x", "y"), M("` `", ""),
          ("~ ax-id", "L", "ax-id"), ("~ax-id", "L", "ax-id"), ("~\n  a_b", "L", "a_b"), ("~ http://x.y_z/~~u_v", "U", "http://x.y_z/~u_v"), ("~ mmx.html#a", "U", "mmx.html#a"), ("~ https://x/%7E#c", "U", "https://x/%7E#c")]
TEX_ONLY_DIFFERS = {p[0] for p in PIECES if p[1] == "T" and "_" in p[0] or p[0] == "[[Ref]"}     # web markup: open in LaTeX
CLOSE = ".,;)?!:]'\"_-"

def escape_text(s): return s
def render(k, seq, seps, on=("S", "L", "N", "B", "U", "H"), font="", stale=False):
    """expected text; on: what is processed (Symbols, Labels, Numbers, Bibliography,
    Underscores, Html conversion); stale: the known defect that an external link is followed
    by the number of the label before it"""
    out = ""; prev = None; lastnum = ptxt = ""
    for i, p in enumerate(seq):
        sep = seps[i - 1] if i else ""
        src, kind = p[0], p[1]
        if kind == "M" and "S" not in on: txt = src
        elif kind in "LU" and "L" not in on: txt = src
        elif kind == "M": txt = p[3][0] + math(k, p[2], font) + p[3][1]
        elif kind == "L": txt = ("{\\tt %s}" % src_tt(p[2])) if k == "tex" else '<A HREF="%s.html">%s</A>%s' % (p[2], p[2], num(NUM[p[2]]) if "N" in on else "")
        elif kind == "U": txt = "\\url{%s}" % p[2] if k == "tex" else '<A HREF="%s">%s</A>%s' % (p[2], p[2], lastnum if stale else "")
        else:
            txt = p[3] if k == "tex" else p[2]
            if k != "tex":
                if "U" not in on and "_" in src: txt = src
                if "B" not in on and "[" in src: txt = src
                if "H" not in on: txt = txt.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", '"')
                if src == "``" and "S" not in on: txt = src
                if src == "~~" and "L" not in on: txt = src
        if kind == "L" and "N" in on: lastnum = num(NUM[p[2]])
        live = (kind == "M" and "S" in on) or (kind in "LU" and "L" in on)
        plive = prev is not None and ((prev[1] == "M" and "S" in on) or (prev[1] in "LU" and "L" in on))
        if sep == " ":
            # the space between an opening parenthesis and a formula or label, and between
            # one and closing punctuation, is not shown
            if live and (kind != "M" or not p[3][0]) and ptxt and (out.endswith("(") or (kind in "LU" and out.endswith("["))): sep = ""
            head_ = txt if not (k != "tex" and kind == "T") else txt
            if plive and (prev[1] != "M" or not prev[3][1]) and not live and head_[:1] and head_[0] in CLOSE: sep = ""
        if "\n\n" in sep and k != "tex" and "H" in on: sep = "\n<P STYLE=\"margin-bottom:0em\">\n"
        out += sep + txt; prev = p; ptxt = txt
    return out
def src_tt(l): return l.replace("_", "\\char`\\_")
def ok_seq(seq, seps, k):
    for i, p in enumerate(seq):
        if k == "tex" and p[0] in TEX_ONLY_DIFFERS: return False
        if i and seps[i - 1] == "" and seq[i - 1][1] in "LU": return False
    # quotation marks next to formulas are set off by spaces in other ways
    if any(seq[i][0].startswith('"') or seq[i][0].endswith('"') for i in range(len(seq))) and any(q[1] in "MLU" for q in seq) and k != "tex" and len(seq) > 1: return False
    if k == "tex" and sum('"' in q[0] for q in seq if q[1] == "T") > 1: return True
    return True

SEPS = [" ", "\n", "\n\n "]
def seq_tasks(deep):
    r = [((p,), ()) for p in PIECES]
    for a, b in itertools.product(PIECES, repeat=2):
        for s in SEPS: r.append(((a, b), (s,)))
    core = [PIECES[i] for i in (0, 4, 6, 9, 12, 21, 23, 27, 32, 35, 38)] if not deep else PIECES
    for t in itertools.product(core, repeat=3): r.append((t, (" ", " ")))
    if deep:
        core = [PIECES[i] for i in (0, 4, 6, 9, 12, 21, 27, 35, 38)]
        for t in itertools.product(core, repeat=4): r.append((t, (" ", "\n", " ")))
    return r
def source(seq, seps): return "".join((seps[i - 1] if i else "") + p[0] for i, p in enumerate(seq))

def pages(db, n, cmds_, names):
    r = mm.sess(["read a.mm"] + cmds_ + ["exit"], {"a.mm": db, "mmset.html": '<A NAME="Ref"></A>\n'}, timeout=60, clean=False)
    s = mm.server(); got = {f: s.read(f) for f in names}
    return r, got
def description(page):
    m = re.search(r"<B>Description: </B>(.*?)</TD></TR></TABLE></CENTER>", page or "", re.S)
    return clean(m.group(1)) if m else None
def texdesc(text, label):
    m = re.search(r"\\begin\{\w+\}\\label\{\w+:%s\}(.*?)\\begin\{align\}" % re.escape(label), text or "", re.S)
    return norm(m.group(1)) if m else None

def comment_job(a):
    k, chunk = a; bad = []
    chunk = [x for x in chunk if ok_seq(x[0], x[1], k)]
    if not chunk: return bad, 0
    db = head() + "".join("$( T %s $)\nt%d $a |- p $.\n" % (source(*x), i) for i, x in enumerate(chunk))
    if k == "tex":
        r, got = pages(db, 0, ["open tex o.tex", "show statement t*/tex", "close tex"], ["o.tex"])
    else: r, got = pages(db, 0, ["show statement t?*/%s" % ("alt_html" if k == "alt" else "html")], ["t%d.html" % i for i in range(len(chunk))])
    if r.crashed: return [("program", "%s\n%s" % (r.out[-500:], db))], 0
    for i, (seq, seps) in enumerate(chunk):
        g = texdesc(got["o.tex"], "t%d" % i) if k == "tex" else description(got["t%d.html" % i])
        w = norm("T " + render(k, seq, seps))
        if g != w and k != "tex" and g == norm("T " + render(k, seq, seps, stale=True)):
            bad.append(("url-after-label", "description %r: the external link is followed by the number of the label before it: %r" % ("T " + source(seq, seps), g)))
        elif g != w:
            bad.append(("comments", "%s: description %r\n is rendered %r\n instead of  %r" % (k, "T " + source(seq, seps), g, w)))
            break
    return bad, len(chunk)

# characters
def tex_char(c):
    return {"|": "/", "<": "\\{", ">": "\\}", "_": "-", "%": "\\%", "#": "\\#", "{": "\\{", "}": "\\}", "&": "\\&", "^": "\\^{ }"}.get(c, c)
def html_char(c): return {"<": "&lt;", ">": "&gt;", '"': "&quot;"}.get(c, c)
def char_tasks(deep):
    cs = [chr(i) for i in range(33, 127) if chr(i) not in "`~$"]
    sp = list("<>&%#{}^|\\;\"'a(.-")
    r = [("%s", (c,)) for c in cs] + [("x%sy", (c,)) for c in cs] + [("x%s", (c,)) for c in cs] + [("%sx", (c,)) for c in cs]
    r += [("%s%s", (a, b)) for a in cs for b in (sp if not deep else cs)] + [("a %s ` p ` %s b", (a, b)) for a in sp for b in sp]
    return r
def char_job(a):
    k, chunk = a; bad = []; keep = []
    for f, cs in chunk:
        t = f % cs
        # characters with a meaning: covered by the pieces
        if "_" in t or "[" in t or ('"' in t and k == "tex") or ("`" in t and (cs[0] in "(\"" or cs[1] in CLOSE)): continue
        if k == "tex" and ("} " in t or t.endswith("}") or "<HTML" in t): continue
        if "$" in t: continue
        keep.append((f, cs))
    db = head() + "".join("$( T %s U $)\nt%d $a |- p $.\n" % (f % cs, i) for i, (f, cs) in enumerate(keep))
    if k == "tex": r, got = pages(db, 0, ["open tex o.tex", "show statement t*/tex", "close tex"], ["o.tex"])
    else: r, got = pages(db, 0, ["show statement t?*/%s" % ("alt_html" if k == "alt" else "html")], ["t%d.html" % i for i in range(len(keep))])
    if r.crashed: return [("program", "%s\n%s" % (r.out[-500:], db))], 0
    ch = tex_char if k == "tex" else html_char
    for i, (f, cs) in enumerate(keep):
        g = texdesc(got["o.tex"], "t%d" % i) if k == "tex" else description(got["t%d.html" % i])
        w = norm("T " + f.replace("` p `", math(k, ["p"])) % tuple(ch(c) for c in cs) + " U")
        if g != w: bad.append(("chars", "%s: %r is rendered %r instead of %r" % (k, f % cs, g, w))); break
    return bad, len(keep)

# MARKUP
QUAL = {"S": "symbols", "L": "labels", "N": "number_after_label", "B": "bib_refs", "U": "underscores"}
def markup_job(a):
    k, on, chunk = a; bad = []
    keep = [x for x in chunk if not any(p[0].startswith('"') for p in x[0]) or not set(on) & set("SL")]
    files = {}; cmds = []
    for i, (seq, seps) in enumerate(keep):
        files["i%d" % i] = "T " + source(seq, seps) + " .\n"
        cmds.append("markup i%d o%d/%s%s" % (i, i, "alt_html" if k == "alt" else "html", "".join("/" + QUAL[q] for q in on)))
    files.update({"a.mm": head(), "mmset.html": '<A NAME="Ref"></A>\n'})
    r = mm.sess(["read a.mm"] + cmds + ["exit"], files, timeout=60, clean=False)
    s = mm.server()
    if r.crashed: return [("program", r.out[-500:])], 0
    for i, (seq, seps) in enumerate(keep):
        g = s.read("o%d" % i)
        if not on:
            if g != files["i%d" % i]: bad.append(("markup", "MARKUP without qualifiers turns %r into %r" % (files["i%d" % i], g))); break
            continue
        w = "T " + render(k, seq + (T(".", "."),), tuple(seps) + (" ",), on=on)
        if clean(g or "") != norm(w) and clean(g or "") == norm("T " + render(k, seq + (T(".", "."),), tuple(seps) + (" ",), on=on, stale=True)):
            bad.append(("url-after-label", "MARKUP /%s %s on %r: the external link is followed by the number of the label before it: %r" % (k, on, files["i%d" % i], clean(g))))
        elif clean(g or "") != norm(w): bad.append(("markup", "MARKUP /%s %s turns %r into %r instead of %r" % (k, on, files["i%d" % i], clean(g or ""), norm(w)))); break
    return bad, len(keep)

# definitions
def def_tasks(deep):
    strs = ["x", "", "a b", "it''s", 'say ""hi""', "<B>", "a;b", "/* no */", "as", "x'", '"', "\\alpha", "$m", "~l", "`"]
    parts = [(q, s) for q in "'\"" for s in strs]
    r = []
    def lit(q, s):
        v = s.replace("''", "'").replace('""', '"'); return q + v.replace(q, q + q) + q, v
    L = []
    for q, s in parts:
        x = lit(q, s)
        if x not in L: L.append(x)
    for a in L: r.append((a[0], a[1]))
    gaps = [" ", "\n", " /* c ' \" ; */ ", "\n\t"]
    for a, b in itertools.product(L, repeat=2):
        for g in (gaps if deep else [" ", "\n"]): r.append((a[0] + g + "+" + g + b[0], a[1] + b[1]))
    for a in L[:6]:
        for g in itertools.product(gaps, repeat=2): r.append((g[0] + a[0] + g[1], a[1]))
        for b, c in itertools.product(L[:6], repeat=2): r.append((a[0] + "+" + b[0] + "\n+ " + c[0], a[1] + b[1] + c[1]))
    return r
def def_job(chunk):
    bad = []; n = len(chunk)
    for k in ("tex", "html", "alt"):
        syms = ["|-", "p", "wff"] + ["s%d" % i for i in range(n)]
        t = "$( $t /* definitions */\n"
        for kk in KIND:
            for s in ("|-", "p", "wff"): t += "%s '%s' as '%s';\n" % (KIND[kk], s, s)
            for i, (src, v) in enumerate(chunk):
                t += "%s %s as %s;%s" % (KIND[kk], ("'s%d'", '"s%d"')[i % 2] % i, src if kk == k else "'other'", ("\n", " ", " /* c */\n")[i % 3])
        t += "$)\n"
        db = t + "$c |- wff %s $.\n$v p $. wp $f wff p $.\n" % " ".join("s%d" % i for i in range(n)) + "".join("$( d $)\nt%d $a |- p s%d p $.\n" % (i, i) for i in range(n))
        if k == "tex": r, got = pages(db, 0, ["set width 9999", "open tex o.tex", "show statement t*/tex", "close tex"], ["o.tex"])
        else: r, got = pages(db, 0, ["set width 9999", "show statement t?*/%s" % ("alt_html" if k == "alt" else "html")], ["t%d.html" % i for i in range(n)])
        if r.crashed: return [("program", "%s\n%s" % (r.out[-500:], db))], 0
        if "?Error" in r.out: return [("defs", "rejected: %s\n%s" % (r.out[:1500], db))], 0
        for i, (src, v) in enumerate(chunk):
            if k == "tex":
                w = "\\begin{align} |-p %s p" % v
                m = re.search(r"\\label\{\w+:t%d\}.*?\\begin\{align\}(.*?)\\label\{eq:t%d\}" % (i, i), got["o.tex"] or "", re.S)
                g = m.group(1) if m else None
                w = "|- p %s p" % (("\\," + v) if v[:1].isalpha() else v)
                if v[:1].isalpha(): w = "|- p \\,%s \\,p" % v
                else: w = "|- p %s p" % v
                same = g is not None and norm(g) == norm(w)
            else:
                m = re.search(r"<B>t%d</B></FONT></TD><TD>(.*?)</TD></TR>" % i, got["t%d.html" % i] or "", re.S)
                g = m.group(1) if m else None; w = "|-p" + v + "p"
                if k == "alt": w = "<SPAN >%s</SPAN>" % w
                same = g is not None and norm(g) == norm(w)
            if not same: bad.append(("defs", "%s defined as %s (%r): formula shown %r instead of %r" % (KIND[k], src, v, g, w))); break
        if bad: break
    return bad, 3 * n

# formulas
FT = ["p", "q", "(", ")", "->", '"', "`", "~~", "a_b", "[x]", "<", "_"]
def formula_tasks(deep): return [c for n in (1, 2, 3) for c in itertools.product(FT, repeat=n)] + (list(itertools.product(FT, repeat=4)) if deep else [])
def tex_formula(toks):
    return math("tex", toks)[1:-1]
def formula_job(a):
    k, chunk = a; bad = []
    db = head()
    for i, f in enumerate(chunk):
        g = chunk[(i + 1) % len(chunk)]
        db += "${\nt%d.1 $e |- %s $.\nt%d.2 $e |- %s p $.\n$( d $)\nt%d $a |- %s $.\n$}\n" % (i, " ".join(g), i, " ".join(f), i, " ".join(f))
    if k == "tex": r, got = pages(db, 0, ["open tex o.tex", "show statement t*/tex", "close tex"], ["o.tex"])
    else: r, got = pages(db, 0, ["show statement t?*/%s" % ("alt_html" if k == "alt" else "html")], ["t%d.html" % i for i in range(len(chunk))])
    if r.crashed: return [("program", "%s\n%s" % (r.out[-500:], db))], 0
    for i, f in enumerate(chunk):
        fs = [("|-",) + chunk[(i + 1) % len(chunk)], ("|-",) + f + ("p",), ("|-",) + f]
        if k == "tex":
            m = re.search(r"\\label\{\w+:t%d\}.*?\\begin\{align\}(.*?)\\label\{eq:t%d\}\\tag\{t%d\}\s*\\end" % (i, i, i), got["o.tex"] or "", re.S)
            g = norm(m.group(1)) if m else None
            w = norm(tex_formula(fs[0]) + "\\quad\\&\\quad " + tex_formula(fs[1]) + "\\quad\\Rightarrow\\quad " + tex_formula(fs[2]))
            if g is None or g.replace(" ", "") != w.replace(" ", ""): bad.append(("formulas", "LaTeX: %s is shown as %r instead of %r" % (fs, g, w))); break
        else:
            m = re.findall(r"<TD>(?:<FONT[^>]*><B>)?(t\d+(?:\.\d)?)(?:</B></FONT>)?</TD><TD>(.*?)</TD></TR>", got["t%d.html" % i] or "", re.S)
            g = [(l, norm(x)) for l, x in m]
            w = [("t%d.1" % i, norm(math(k, fs[0]))), ("t%d.2" % i, norm(math(k, fs[1]))), ("t%d" % i, norm(math(k, fs[2])))]
            if g != w: bad.append(("formulas", "%s: page of %s shows %s instead of %s" % (k, fs, g, w))); break
    return bad, len(chunk)

# pages of proofs
PSYM = ["|-", "wff", "(", ")", "->", "~.", "p", "q", "r"]
PDEF = {"(": "LP", ")": "RP", "->": "IMP", "~.": "NOT"}
PPRE = "$c wff |- ( ) -> ~. $.\n$v p q r $.\nwp $f wff p $.\nwq $f wff q $.\nwr $f wff r $.\nwn $a wff ~. p $.\nwi $a wff ( p -> q ) $.\n$( First. $)\nax-1 $a |- ( p -> ( q -> p ) ) $.\n${ min $e |- p $. maj $e |- ( p -> q ) $.\n$( Detach \"it\". $)\nax-mp $a |- q $. $}\n$( A <def>. $)\ndf-n $a |- ( ~. p -> ( p -> p ) ) $.\nnot-ax $a |- ( p -> p ) $.\n"
PT = "$( $t\n" + "".join('%s "%s" as "%s";\n' % (KIND[k], t, PDEF.get(t, t)) for k in ("html", "alt") for t in PSYM) + "htmltitle 'T';\nhtmlbibliography 'mmset.html';\n$)\n"
TITLES = {"ax-1": "First.", "ax-mp": "Detach 'it'.", "df-n": "A <def>.", "not-ax": ""}
PHYPS = ["", "h.1 $e |- p $. h.2 $e |- ( p -> q ) $."]
def ptree(db, st, steps):
    """(label, arguments, formula)"""
    tr = []; ex = []
    for l in steps:
        n = len(db.labels[l].mand) if l not in st.hyps else 0
        db.step(st, ex, l)
        a = tr[len(tr) - n:]; del tr[len(tr) - n:]
        tr.append((l, tuple(a), ex[-1]))
    return tr[0]
def compress(db, st, t, mand):
    """compressed proof that shares every repeated subproof"""
    cnt = {}
    def walk(x):
        cnt[x] = cnt.get(x, 0) + 1
        if cnt[x] == 1:
            for y in x[1]: walk(y)
    walk(t)
    labs = []; order = []
    def collect(x, seen):
        if x in seen: return
        for y in x[1]: collect(y, seen)
        if x[0] not in mand and x[0] not in labs: labs.append(x[0])
        if x[1]: seen.add(x)
    collect(t, set())
    saved = []; out = []
    def emit(x):
        if x in saved: out.append(refmm.encode_number(len(mand) + len(labs) + saved.index(x) + 1)); return
        for y in x[1]: emit(y)
        out.append(refmm.encode_number((list(mand) + labs).index(x[0]) + 1))
        if x[1] and cnt[x] > 1: saved.append(x); out.append("Z")
    emit(t)
    return "( %s ) %s" % (" ".join(labs), "".join(out))
def prow(db, t, share):
    """rows (step, hypotheses, label, level, formula) of the essential steps"""
    rows = []; where = {}
    def rec(x, depth):
        if (share or not x[1]) and x in where: return where[x]
        ess = [y for y, h in zip(x[1], db.labels[x[0]].mand if x[1] else []) if db.labels[h].kind == "$e"]
        hs = [rec(y, depth + 1) for y in ess]
        rows.append((len(rows) + 1, hs, x[0], depth, x[2])); where[x] = len(rows)
        return len(rows)
    rec(t, 0)
    return rows
def pformula(m): return "".join(PDEF.get(x, x) for x in m)
def plist(t): return re.findall(r'<A HREF="([^"]*)\.html">([^<]*)</A>\s*&nbsp;<SPAN CLASS=r STYLE=C>(\d+)</SPAN>', t)
def proof_job(a):
    kind, hyps, fmt, chunk = a; bad = []
    db, st = enum_proofs.context(PPRE, hyps)
    text = PT + PPRE; number = {"wn": 1, "wi": 2, "ax-1": 3, "ax-mp": 4, "df-n": 5, "not-ax": 6}; want = {}
    mine = {"h.1": "h%d.1", "h.2": "h%d.2"}
    fs = {v: l for l, v in (("wp", "p"), ("wq", "q"), ("wr", "r"))}
    for i, steps in enumerate(chunk):
        t = ptree(db, st, steps); form = t[2]
        hy = [h for h in st.hyps if db.labels[h].kind == "$e"]
        vs = set(x for x in form if x in fs) | set(x for h in hy for x in db.labels[h].math if x in fs)
        mand = [h for h in st.hyps if db.labels[h].kind == "$e" or db.labels[h].math[1] in vs]
        pf = " ".join(steps) if fmt == "normal" else compress(db, st, t, mand)
        for h in hy: pf = re.sub(r"(?<!\S)%s(?!\S)" % re.escape(h), mine[h] % i, pf)
        hs = "".join("%s $e %s $. " % (mine[h] % i, " ".join(db.labels[h].math)) for h in hy)
        text += "${ %s\nt%d $p %s $= %s $.\n" % (hs, i, " ".join(form), pf)
        users = []
        if i % 3:                       # a theorem that uses it
            text += "u%d $p %s $= %s t%d $.\n" % (i, " ".join(form), " ".join(mine[h] % i if h in mine else h for h in mand), i); users = ["u%d" % i]
        text += "$}\n"
        number["t%d" % i] = len(number) + 1
        for u in users: number[u] = len(number) + 1
        used = sorted({l for l in steps if l in TITLES}, key=lambda l: number[l])
        # what syntax is not part of "proved from"
        want[i] = (prow(db, t, fmt != "normal"), [l for l in used if l.startswith("ax-")], [l for l in used if l.startswith("df-")], users)
    names = ["t%d.html" % i for i in want] + ["u%d.html" % i for i in want if want[i][3]]
    r, got = pages(text, 0, ["show statement */%s" % ("alt_html" if kind == "alt" else "html")], names)
    if r.crashed or "?" in r.out.split("No errors were found")[0].replace("?*", "")[-3000:]: return [("program", "%s\n%s" % (r.out[-1500:], text))], 0
    for i in want:
        rows, ax, df, users = want[i]; pg = clean(got["t%d.html" % i] or "")
        g = []
        for m in re.finditer(r'<TR ALIGN=LEFT><TD>(\d+)</TD><TD>(.*?)</TD><TD>(.*?)</TD><TD><A NAME="(\d+)"></A> <SPAN CLASS=i>(.*?)</SPAN> ?(.*?)</TD></TR>', pg):
            ref = m.group(3); e = re.sub(r"\s", "", m.group(6))
            if kind == "alt": e = e.replace("<SPAN>", "").replace("</SPAN>", "")
            g.append((m.group(1), m.group(2), ref, m.group(4), m.group(5), e))
        w = []
        for n, hs, l, depth, f in rows:
            ref = mine[l] % i if l in mine else '<A HREF="%s.html" TITLE="%s">%s</A>%s' % (l, TITLES[l], l, num(number[l]))
            w.append((str(n), ", ".join('<A HREF="#%d">%d</A>' % (h, h) for h in hs) or "&nbsp;", ref, str(n), ". " * depth + str(depth + 1), pformula(f)))
        if g != w: bad.append(("proofs", "page of t%d in\n%s\nshows the proof as\n%s\ninstead of\n%s" % (i, text, "\n".join(map(str, g)), "\n".join(map(str, w))))); break
        def sec(p, head_):
            m = re.search(re.escape(head_) + r"</B>(.*?)</TD></TR>", p); return [x[0] for x in plist(m.group(1)) if x[0] == x[1] and number[x[0]] == int(x[2])] if m else []
        for p, self in [(pg, "t%d" % i)] + ([(clean(got["u%d.html" % i] or ""), "u%d" % i)] if users else []):
            gg = [sec(p, "This theorem was proved from axioms:"), sec(p, "This theorem depends on definitions:"), sec(p, "This theorem is referenced by:")]
            ww = [ax, df, users if self[0] == "t" else []]
            if gg != ww: bad.append(("proofs", "page of %s in\n%s\nlists axioms, definitions, users %s instead of %s" % (self, text, gg, ww))); break
        if bad: break
    return bad, len(want)
def proof_tasks(deep):
    out = []
    for hyps in PHYPS:
        db, st = enum_proofs.context(PPRE, hyps)
        atoms = [(("p",), ("wp",)), (("q",), ("wq",))]
        wff = list(atoms); seen = {w for w, _ in wff}
        for _ in range(1):
            new = [(("~.",) + a, pa + ("wn",)) for a, pa in wff] + [(("(",) + a + ("->",) + b + (")",), pa + pb + ("wi",)) for a, pa in wff for b, pb in wff]
            wff += [x for x in new if x[0] not in seen and not seen.add(x[0])]
        W = dict(wff)
        def wp_(w):
            # proof of a formula
            if w in W: return W[w]
            if w[0] == "~.":
                return wp_(w[1:]) + ("wn",)
            n = 0
            for k, t in enumerate(w):
                n += (t == "(") - (t == ")")
                if t == "->" and n == 1: return wp_(w[1:k]) + wp_(w[k + 1:-1]) + ("wi",)
        imp = lambda a, b: ("(",) + a + ("->",) + b + (")",)
        level = []; have = {}
        def add(f, pr): 
            if len(pr) <= (40 if deep else 26) and len(f) < 24 and pr not in have: have[pr] = f; level.append((f, pr))
        for h in st.hyps:
            if db.labels[h].kind == "$e": add(db.labels[h].math[1:], (h,))
        for a in W:
            add(imp(a, a), wp_(a) + ("not-ax",)); add(imp(("~.",) + a, imp(a, a)), wp_(a) + ("df-n",))
            for b in (W if deep else list(W)[:4]): add(imp(a, imp(b, a)), wp_(a) + wp_(b) + ("ax-1",))
        for rnd in range(3 if hyps else 2):
            # every pair that fits
            maj = {}
            for f, pr in list(level):
                if f[0] != "(": continue
                n = 0
                for k, t in enumerate(f):
                    n += (t == "(") - (t == ")")
                    if t == "->" and n == 1: maj.setdefault(tuple(f[1:k]), []).append((tuple(f[k + 1:-1]), pr)); break
            for f, pr in list(level):
                for g, pm in maj.get(tuple(f), ()): add(g, wp_(tuple(f)) + wp_(g) + pr + pm + ("ax-mp",))
            if len(have) > (6000 if deep else 2500): break
        ps = sorted(have, key=lambda x: (len(x), x))[:6000 if deep else 1200]
        for fmt in ("normal", "compressed"):
            for j, x in enumerate(mm.chunks(ps, 40)): out.append(("alt" if j % 2 else "html", hyps, fmt, x))
    return out

FAM = {"proofs": proof_job, "comments": comment_job, "chars": char_job, "markup": markup_job, "defs": def_job, "formulas": formula_job}
def job(t):
    bad, k = FAM[t[0]](t[1])
    return t[0], [(a, b, list(t)) for a, b in bad], k, {mm.digest(repr(t[0]) + repr(x)) for x in (t[1] if t[0] == "defs" else t[1][-1])}

def main(c):
    deep = c.thorough; tasks = []
    st = seq_tasks(deep)
    for k in ("html", "alt", "tex"):
        tasks += [("comments", (k, x)) for x in mm.chunks(st, 40)]
        tasks += [("chars", (k, x)) for x in mm.chunks(char_tasks(deep), 60)]
        tasks += [("formulas", (k, x)) for x in mm.chunks(formula_tasks(deep), 40)]
    pairs = [x for x in st if len(x[0]) < 3 or deep]
    pairs = [x for x in pairs if "\n\n " not in x[1]]
    for j in range(6):
        for on in itertools.combinations("SLNBU", j):
            if "N" in on and "L" not in on: continue
            sub = pairs if not on or len(on) == 5 or deep else pairs[len(on) % 3::3]
            tasks += [("markup", ("alt" if j % 2 else "html", on, x)) for x in mm.chunks(sub, 60)]
    tasks += [("defs", x) for x in mm.chunks(def_tasks(deep), 40)]
    tasks += [("proofs", x) for x in proof_tasks(deep)]
    for fam, bad, k, ds in mm.pmap(job, tasks, stop=c.enough):
        c.add(fam, k); c.add("evaluations", k); c.distinct(ds)
        for key, what, task in bad: c.violation(key if key == "url-after-label" else "%s:%s" % (fam, key), what, {"task": task})
    for t in tasks[::max(1, len(tasks) // 5)]: c.sample(repr(t)[:150])

def replay(v):
    t = v["replay"]["task"]
    def tup(x): return tuple(tup(y) for y in x) if isinstance(x, list) else x
    bad = FAM[t[0]](tup(t[1]))[0]
    print(bad[0][1] if bad else "holds")
    return 1 if bad else 0
