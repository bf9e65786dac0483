"""The web page of a statement tells the truth about the statement.

Dependency graphs of theorems, formulas, distinct variable conditions, syntax
definitions and lengths of databases are enumerated; for each, the pages written by
SHOW STATEMENT /HTML and /ALT_HTML are read back and compared with a reference:
statement number and kind, links to the neighbours and to the list page, axioms,
definitions and unproved theorems behind the proof, users, syntax hints, syntax
breakdown of axioms and definitions, dummy variables, allowed substitutions and the
axiom or definition that explains a syntax statement."""
import itertools, re
import mm

LEVEL = "exploration"
SYMS = "T. ( ) -> -. A. |- wff setvar class e. ph ps x y A B".split()
TDEF = "$( $t\n" + "".join('htmldef "%s" as "[%s]"; althtmldef "%s" as "{%s}";\n' % (s, s.replace(">", "&gt;"), s, s.replace(">", "&gt;")) for s in SYMS) + "htmltitle \"Title\"; htmlvarcolor 'COL';\n%s$)\n"
FONT = 'htmlfont "CLASS=math";\n'
VARS = "$c T. ( ) -> -. A. |- wff setvar class e. $.\n$v ph ps x y A B $.\nwph $f wff ph $.\nwps $f wff ps $.\nvx $f setvar x $.\nvy $f setvar y $.\ncA $f class A $.\ncB $f class B $.\n"
SYNTAX = "$( Text wn. $)\nwn $a wff -. ph $.\n$( Text wi. $)\nwi $a wff ( ph -> ps ) $.\n$( Text wal. $)\nwal $a wff A. x ph $.\n$( Text cv. $)\ncv $a class x $.\n$( Text wel. $)\nwel $a wff A e. B $.\n$( Text wtru. $)\nwtru $a wff T. $.\n"
SYNL = ["wn", "wi", "wal", "cv", "wel", "wtru"]
MAIN = {"wn": "-.", "wi": "->", "wal": "A.", "cv": None, "wel": "e.", "wtru": "T."}
FLOAT = {"ph": "wph", "ps": "wps", "x": "vx", "y": "vy", "A": "cA", "B": "cB"}
RULES = "$( Text. $)\nax-any $a |- ph $.\n${ kk1 $e |- ph $. kk2 $e |- ps $.\n$( Text. $)\nax-k $a |- ph $. $}\n"

def sym(s, alt):
    s = s.replace(">", "&gt;")
    return "{%s}" % s if alt else "[%s]" % s

def clean(t):
    """one line, statement numbers as #n, without the SPANs of the math font"""
    t = re.sub(r"\s+", " ", t)
    t = re.sub(r'&nbsp;<SPAN CLASS=r STYLE="color:#[0-9A-F]{6}">(\d+)</SPAN>', r"#\1", t)
    t = re.sub(r"<SPAN (?:CLASS=math)?>(.*?)</SPAN>", r"\1", t)
    return t

LINK = re.compile(r'<A HREF="([^"]+)\.html">([^<]+)</A> ?#(\d+)')

def links(t):
    r = []
    for m in LINK.finditer(t):
        r.append((m.group(1) if m.group(1) == m.group(2) else m.group(0), int(m.group(3))))
    return r

def section(p, head):
    """the text of the table row that begins with head, or None"""
    m = re.search(re.escape(head) + r"</B>(.*?)</TD></TR>", p)
    return m.group(1) if m else None

class Page:
    def __init__(self, text, alt):
        self.p = p = clean(text)
        m = re.search(r'<CENTER><B><FONT SIZE="\+1">([A-Za-z ]+) <FONT COLOR="#006633">([^<]*)</FONT></FONT></B>#(\d+)</CENTER>', p)
        self.head = (m.group(1), m.group(2), int(m.group(3))) if m else None
        self.title = re.findall(r"<TITLE>(.*?)</TITLE>", p)
        m = re.search(r'<A HREF="([^"]*)\.html"> &lt; (Previous|Wrap)</A>&nbsp;&nbsp; <A HREF="([^"]*)\.html">(Next|Wrap) &gt;</A>', p)
        self.nav = m.groups() if m else None
        m = re.search(r'<A HREF="mmtheorems(\d+)\.html#([^"]*)">Nearby theorems</A>', p)
        self.near = (int(m.group(1)), m.group(2)) if m else None
        lst = lambda h: links(section(p, h) or "")
        self.axioms = lst("This theorem was proved from axioms:")
        self.defs = lst("This theorem depends on definitions:")
        m = re.search(r"<B>This (theorem|axiom|definition) is referenced by:</B>(.*?)</TD></TR>", p)
        self.users = (m.group(1), "none" if re.search(r"^ *\(None\)</FONT>$", m.group(2)) else links(m.group(2))) if m else None
        h = section(p, "Syntax hints:")
        self.hints = None if h is None else [(a.strip(), b, int(c)) for a, b, c in re.findall(r'&nbsp;(.*?)<A HREF="([^"]*)\.html">\2</A>#(\d+)', h)]
        self.incomplete = "WARNING: This theorem has an incomplete proof." in p
        m = re.search(r"WARNING: This proof depends on the following unproved theorem\(s\): (.*?)</B></FONT></TD></TR>", p)
        self.unproved = sorted(a if a == b else "?" for a, b in re.findall(r'<A HREF="([^"]*)\.html">([^<]*)</A>', m.group(1))) if m else []
        m = re.search(r'#dvnote1">Dummy variable(s?)</A> (.*?) (is|are mutually distinct and) ?distinct from all other variables\.</CENTER>', p)
        m = m or re.search(r'#dvnote1">Dummy variable(s?)</A> (.*?)( is| are mutually distinct and) +distinct from all other variables\.</CENTER>', p)
        self.dummy = None
        if m:
            vs = m.group(2).split()
            self.dummy = (sorted(vs), m.group(1) == "s" and m.group(3).strip()[:3] == "are")
        m = re.search(r'#allowedsubst">Allowed substitution</A> hint(s?): (.*?)</CENTER>', p)
        self.subst = None
        if m:
            self.subst = (m.group(1) == "s", sorted((a, tuple(sorted(b.split(",")))) for a, b in re.findall(r"&nbsp; (\S+?)\(([^()]*)\)", m.group(2))))
        m = re.search(r"<CENTER>(This syntax is primitive\. The first axiom using it is|See definition) (.*?)(\.| for more information\.)</CENTER>", p)
        self.first = (m.group(1)[:3], links(m.group(2))) if m else None
        self.rows = []
        for m in re.finditer(r'<TR ALIGN=LEFT><TD>(\d+)</TD><TD>(.*?)</TD><TD>(.*?)</TD><TD><A NAME="(\d+)"></A> ?<SPAN CLASS=i>(.*?)</SPAN> ?(.*?)</TD></TR>', p):
            self.rows.append((m.group(1), m.group(2), m.group(3), m.group(4), m.group(5), re.sub(r"\s", "", m.group(6))))
        m = re.search(r'<CAPTION><B>Detailed syntax breakdown of (\w+) <FONT COLOR="#006633">([^<]*)</FONT></B></CAPTION>', p)
        self.breakdown = m.groups() if m else None
        self.tables = []
        for m in re.finditer(r'SUMMARY="(Hypothes[ie]s|Assertion)"> <CAPTION><B>([A-Za-z]+)</B></CAPTION> <TR><TH>Ref </TH><TH>Expression</TH></TR>(.*?)</TABLE>', p):
            rows = re.findall(r'<TR ALIGN=LEFT><TD>(?:<FONT COLOR="#006633"><B>)?([^<]*)(?:</B></FONT>)?</TD><TD>(.*?)</TD></TR>', m.group(3))
            self.tables.append((m.group(1), m.group(2), [(a, re.sub(r"\s", "", b)) for a, b in rows], m.group(3).count("<TR")))
        m = re.findall(r'>Distinct variable</A> (groups?): (.*?)</CENTER>', p)
        self.groups = [(a, [tuple(g.split(",")) for g in b.replace("&nbsp;", " ").split()]) for a, b in m]

def pages(text, labels, alt, more=(), each=False):
    """-> ({label: Page}, problem)"""
    mm.server().clean()
    q = "alt_html" if alt else "html"
    cmds = ["show statement %s/%s" % (l, q) for l in labels] if each else ["show statement */%s" % q]
    r = mm.sess(["read a.mm"] + list(more) + cmds + ["exit"], {"a.mm": text, "mmset.html": "x\n"}, timeout=120, clean=False)
    if r.status != 0 or "No errors were found" not in r.out:
        return None, "status %d: %s" % (r.status, r.out[-600:])
    s = mm.server()
    out = {}
    for l in labels:
        t = s.read(l + ".html")
        if not t:
            return None, "no page %s.html: %s" % (l, r.out[-600:])
        if not t.rstrip().endswith("</BODY></HTML>"):
            return None, "page %s.html is cut off: %s" % (l, t[-200:])
        out[l] = Page(t, alt)
    return out, None

def common(pg, order, l, kind, title="Title"):
    """number, kind, neighbours and list page of label l"""
    n = order.index(l) + 1
    if pg.head != (kind, l, n):
        return "says %s instead of %s" % (pg.head, (kind, l, n))
    if pg.title != ["%s - %s" % (l, title)]:
        return "has the title %s" % pg.title
    nav = (order[n - 2], "Previous" if n > 1 else "Wrap", order[n % len(order)], "Next" if n < len(order) else "Wrap")
    if pg.nav != nav:
        return "links to its neighbours as %s instead of %s" % (pg.nav, nav)
    if pg.near != ((n - 1) // 100 + 1, l):
        return "gives its place in the list as %s" % (pg.near,)

def tables(p, l, hyps, math, alt):
    """the hypotheses [(label, tokens)] and the assertion, as the page shows them"""
    f = lambda toks: "".join(sym(t, alt) for t in toks)
    w = []
    if hyps:
        k = "Hypothesis" if len(hyps) == 1 else "Hypotheses"
        w.append((k, k, [(h, f(m)) for h, m in hyps], len(hyps)))
    w.append(("Assertion", "Assertion", [(l, f(math))], 1))
    if p.tables != w:
        return "shows the hypotheses and the assertion as %s instead of %s" % (p.tables, w)

SYNH = {"wn": (["ph"], "wff -. ph"), "wi": (["ph", "ps"], "wff ( ph -> ps )"), "wal": (["ph", "x"], "wff A. x ph"),
        "cv": (["x"], "class x"), "wel": (["A", "B"], "wff A e. B"), "wnal": (["ph", "x"], "wff A. x -. ph"), "wtru": ([], "wff T.")}

def syn_tables(p, l, alt):
    vs, m = SYNH[l]
    return tables(p, l, [(FLOAT[v], [tree_type((FLOAT[v], ())), v]) for v in vs], m.split(), alt)

def distinct(p, pairs, alt):
    """the distinct variable groups name exactly these pairs"""
    w = {frozenset(sym(v, alt) for v in q) for q in pairs}
    if not w:
        return "names distinct variables %s though there are none" % p.groups if p.groups else None
    if len(p.groups) != 1 or (p.groups[0][0] == "groups") != (len(p.groups[0][1]) > 1):
        return "names the distinct variables as %s" % p.groups
    got = {frozenset(q) for g in p.groups[0][1] for q in itertools.combinations(g, 2)}
    if got != w or any(len(set(g)) != len(g) or len(g) < 2 for g in p.groups[0][1]):
        return "names the distinct variables %s instead of the pairs %s" % (p.groups, sorted(map(sorted, w)))

# ------------------------------------------------------------ dependencies
GPRE = "$c wff |- $.\n$v ph $.\nwph $f wff ph $.\n${ j1 $e |- ph $. j2 $e |- ph $.\n$( Text. $)\nax-j $a |- ph $. $}\n"
GBASE = [("ax-a", "$a"), ("oth", "$a"), ("df-d", "$a"), ("axb", "$a")]
KINDS = {"ax-a": "Axiom", "ax-j": "Axiom", "oth": "Definition", "df-d": "Definition", "axb": "Definition"}

def gproof(s):
    if not s:
        return "?"
    leaf = lambda l: "?" if l == "?" else "wph %s" % l
    p = leaf(s[0])
    for l in s[1:]:
        p = "wph %s %s ax-j" % (p, leaf(l))
    return p

def gcomp(p):
    ls = [l for l in dict.fromkeys(p.split()) if l not in ("wph", "?")]
    if p == "?" or not ls:
        return p
    num = {l: i + 2 for i, l in enumerate(ls)}; num["wph"] = 1
    return "( " + " ".join(ls) + " ) " + "".join("?" if l == "?" else chr(64 + num[l]) for l in p.split())

def graph_run(groups, alt, fmt, each):
    """groups: [(uses of the 1st theorem, of the 2nd, ...)] each a tuple of labels, numbers of earlier theorems of the group or ?"""
    text = TDEF % "" + GPRE + "".join("$( Text. $)\n%s %s |- ph $.\n" % b for b in GBASE)
    order = ["ax-j"] + [b[0] for b in GBASE]
    use, opn = {}, {}
    for g, sets in enumerate(groups):
        for i, s in enumerate(sets):
            l = "t%d.%d" % (g, i)
            s = [("t%d.%d" % (g, x)) if isinstance(x, int) else x for x in s]
            p = gproof(s)
            text += "$( Text. $)\n%s $p |- ph $= %s $.\n" % (l, p if fmt == 0 else gcomp(p))
            use[l] = set(p.split()) - {"?", "wph"}
            opn[l] = "?" in p.split()
            order.append(l)
    num = {l: i + 1 for i, l in enumerate(order)}
    pg, e = pages(text, order, alt, each=each)
    if e:
        return [(0, e)]
    bad = []
    memo = {}
    def closure(l):
        if l not in memo:
            memo[l] = set(use.get(l, ())).union(*[closure(x) for x in use.get(l, ())]) if use.get(l) else set()
        return memo[l]
    L = lambda ls: sorted(((x, num[x]) for x in ls), key=lambda z: z[1])
    for l in order:
        p = pg[l]
        e = common(p, order, l, KINDS.get(l, "Theorem"))
        us = L(m for m in use if l in use[m])
        if not e and p.users != (KINDS.get(l, "Theorem").lower(), us or "none"):
            e = "says it is referenced by %s instead of %s" % (p.users, us or "none")
        if not e and l in use:
            c = closure(l)
            w = (L(x for x in c if x.startswith("ax-")), L(x for x in c if x.startswith("df-")))
            if (p.axioms, p.defs) != w:
                e = "says it was proved from axioms and definitions %s instead of %s" % ((p.axioms, p.defs), w)
            un = sorted(x for x in c | {l} if opn.get(x))
            w = (un == [l], un if un and un != [l] else [])
            if not e and (p.incomplete, p.unproved) != w:
                e = "says (proof incomplete, unproved theorems) %s instead of %s" % ((p.incomplete, p.unproved), w)
        if not e:
            e = tables(p, l, [("j1", ["|-", "ph"]), ("j2", ["|-", "ph"])] if l == "ax-j" else [], ["|-", "ph"], alt) or distinct(p, [], alt)
        if e:
            g = int(l[1:].split(".")[0]) if l in use else 0
            bad.append((g, "the page of %s %s\nin %s" % (l, e, text[text.index("$c"):][:1500])))
    return bad

def subsets(xs):
    return [c for k in range(len(xs) + 1) for c in itertools.combinations(xs, k)]

def graph_cases(deep):
    out = []
    items = ["ax-a", "oth", "df-d", "?"]
    for a in subsets(items):
        for b in subsets(items + [0]):
            out.append((a, b))
    items = ["ax-a", "df-d", "?"] if deep < 2 else ["ax-a", "oth", "df-d", "?"]
    for a in subsets(items):
        for b in subsets(items + [0]):
            for d in subsets(items + [0, 1]):
                out.append((a, b, d))
    items = ["ax-a", "?"]
    for a in subsets(items):
        for b in subsets(items + [0]):
            for d in subsets(items + [0, 1]):
                for f in subsets([0, 1, 2, "df-d"] + ([] if deep < 2 else ["?"])):
                    out.append((a, b, d, f))
    return out

# ------------------------------------------------------------ formulas
def tree_math(t):
    """tree: (label, children) -> tokens"""
    l, ch = t
    a = [tree_math(c) for c in ch]
    if l in FLOAT.values():
        return [v for v in FLOAT if FLOAT[v] == l]
    return {"wn": lambda: ["-."] + a[0], "wi": lambda: ["("] + a[0] + ["->"] + a[1] + [")"], "wal": lambda: ["A."] + a[1] + a[0],
            "cv": lambda: a[0], "wel": lambda: a[0] + ["e."] + a[1], "wtru": lambda: ["T."]}[l]()

def tree_type(t):
    return "setvar" if t[0] in ("vx", "vy") else "class" if t[0] in ("cA", "cB", "cv") else "wff"

def tree_rpn(t):
    return [x for c in t[1] for x in tree_rpn(c)] + [t[0]]

def labels_of(t):
    return {t[0]}.union(*[labels_of(c) for c in t[1]]) if t[1] else {t[0]}

def wffs(depth, cls):
    if depth == 0:
        return [("wph", ()), ("wps", ()), ("wtru", ())]
    w = wffs(depth - 1, cls)
    out = list(w)
    for a in w:
        out.append(("wn", (a,)))
        for b in w:
            out.append(("wi", (a, b)))
        for v in ("vx", "vy"):
            out.append(("wal", (a, (v, ()))))       # hypotheses wph vx in the order of the database
    for a in cls:
        for b in cls:
            out.append(("wel", (a, b)))
    return list(dict.fromkeys(out))

CLS = [("cA", ()), ("cB", ()), ("cv", (("vx", ()),)), ("cv", (("vy", ()),))]

def rows_of(t, num, alt):
    """the lines of the syntax breakdown"""
    out, seen = [], {}
    def go(t, d):
        hs = [go(c, d + 1) for c in t[1]]
        if t in seen:
            return seen[t]
        n = len(out) + 1
        seen[t] = n
        ref = t[0] if t[0] in FLOAT.values() else '<A HREF="%s.html" TITLE="Text %s.">%s</A>#%d' % (t[0], t[0], t[0], num[t[0]])
        out.append((str(n), ", ".join('<A HREF="#%d">%d</A>' % (h, h) for h in hs) or "&nbsp;", ref, str(n), ". " * d + str(d + 1),
                    sym(tree_type(t), alt) + "".join(sym(s, alt) for s in tree_math(t))))
        return n
    go(t, 0)
    return out

def form_run(items, alt, font):
    """items: (kind, assertion, hypotheses, further formula in the proof or None)"""
    text = TDEF % (FONT if font else "") + VARS + SYNTAX + RULES
    order = SYNL + ["ax-any", "ax-k"]
    rpn = lambda t: " ".join(tree_rpn(t))
    for i, (k, f, hs, extra) in enumerate(items):
        l = "%s%d" % (k, i)
        text += "${\n" + "".join("h%d.%d $e |- %s $.\n" % (i, j, " ".join(tree_math(h))) for j, h in enumerate(hs)) + "$( Text %s. $)\n" % l
        if k == "th":
            p = "?" if extra is None else "%s ax-any" % rpn(f) if extra == 0 else "%s %s %s ax-any %s ax-any ax-k" % (rpn(f), rpn(extra), rpn(f), rpn(extra))
            text += "%s $p |- %s $= %s $.\n$}\n" % (l, " ".join(tree_math(f)), p)
        else:
            text += "%s $a |- %s $.\n$}\n" % (l, " ".join(tree_math(f)))
        order.append(l)
    num = {l: i + 1 for i, l in enumerate(order)}
    pg, e = pages(text, order, alt)
    e = e or next(("the page of %s %s" % (l, y) for l in SYNL for y in [syn_tables(pg[l], l, alt)] if y), None)
    if e:
        return [(0, e)]
    bad = []
    for i, (k, f, hs, extra) in enumerate(items):
        l = order[8 + i]; p = pg[l]
        e = common(p, order, l, {"th": "Theorem", "ax-": "Axiom"}.get(k, "Definition"))
        if not e and k == "th":
            used = set().union(*[labels_of(h) for h in hs]) if hs else set()
            used |= labels_of(f) | (labels_of(extra) if extra else set())
            w = [(sym(MAIN[s], alt), s, num[s]) for s in SYNL if s in used and s != "cv"]
            if (p.hints or []) != w:
                e = "gives the syntax hints %s instead of %s" % (p.hints, w)
        elif not e:
            if p.breakdown != ("Axiom" if k == "ax-" else "Definition", l):
                e = "has the syntax breakdown %s" % (p.breakdown,)
            elif p.rows != rows_of(f, num, alt):
                e = "breaks the formula down as\n%s\ninstead of\n%s" % ("\n".join(map(str, p.rows)), "\n".join(map(str, rows_of(f, num, alt))))
        if not e:
            e = tables(p, l, [("h%d.%d" % (i, j), ["|-"] + tree_math(h)) for j, h in enumerate(hs)], ["|-"] + tree_math(f), alt) or distinct(p, [], alt)
        if e:
            bad.append((i, "the page of %s (%s, hypotheses %s) %s" % (l, " ".join(tree_math(f)), [" ".join(tree_math(h)) for h in hs], e)))
    return bad

def form_cases(deep):
    w1, w2 = wffs(1, CLS), wffs(2, CLS)
    out = [("ax-", f, (), None) for f in w2]
    out += [(k, f, (), None) for f in w1 for k in ("df-", "bi-")]
    out += [("th", f, hs, x) for f in w1 for hs in [()] + [(h,) for h in w1] for x in (None, 0)]
    out += [("th", f, (), x) for f in w1 for x in w1]
    if deep > 1:
        out += [("th", f, (g, h), None) for f in w1 for g in w1 for h in w1]
        out += [("df-", f, (), None) for f in w2]
        out += [("th", f, (), None) for f in w2]
    return out

# ------------------------------------------------------------ distinct variables
DVV = ["x", "y", "ph", "A"]
DVP = list(itertools.combinations(DVV, 2))

def mention(vs):
    """a wff with exactly these variables, and its RPN"""
    a = [v for v in vs if v == "ph"]
    cl = [v for v in vs if v != "ph"]
    node = {"A": ("cA", ()), "x": ("cv", (("vx", ()),)), "y": ("cv", (("vy", ()),))}
    ts = [("wph", ())] if a else []
    ts += [("wel", (node[v], node[v])) for v in cl]
    if not ts:
        return None
    t = ts[0]
    for u in ts[1:]:
        t = ("wi", (t, u))
    return t

def dv_run(items, alt, font):
    """items: (variables of the statement, variables of its hypothesis, variables used in the proof, pairs)"""
    text = TDEF % (FONT if font else "") + VARS + SYNTAX + RULES
    order = SYNL + ["ax-any", "ax-k"]
    rpn = lambda t: " ".join(tree_rpn(t))
    for i, (sv, hv, pv, prs) in enumerate(items):
        text += "${ " + "".join("$d %s %s $. " % q for q in prs)
        if hv:
            text += "e%d $e |- %s $. " % (i, " ".join(tree_math(mention(hv))))
        f, d = mention(sv), mention(pv)
        pf = rpn(f) + " ax-any"
        if d:
            pf = "%s %s %s ax-any %s ax-any ax-k" % (rpn(f), rpn(d), rpn(f), rpn(d))
        text += "\n$( Text. $)\nt%d $p |- %s $= %s $. $}\n" % (i, " ".join(tree_math(f)), pf)
        order.append("t%d" % i)
    pg, e = pages(text, order, alt)
    if e:
        return [(0, e)]
    bad = []
    for i, (sv, hv, pv, prs) in enumerate(items):
        p = pg["t%d" % i]
        mand = set(sv) | set(hv)
        mp = [q for q in prs if set(q) <= mand]
        op = [q for q in prs if not set(q) <= mand]
        du = sorted(v for v in set(pv) - mand if any(v in q for q in op))
        w = (sorted(sym(v, alt) for v in du), len(du) > 1) if du else None
        e = None
        if p.dummy != w:
            e = "names the dummy variables %s instead of %s" % (p.dummy, w)
        if mp:
            al = []
            for v in ("ph", "A"):
                if v in mand:
                    fr = [s for s in ("x", "y") if s in mand and (s, v) not in mp]
                    if fr:
                        al.append((sym(v, alt), tuple(sorted(sym(s, alt) for s in fr))))
            w = (sum(len(b) for _, b in al) > 1, sorted(al)) if al else None
        else:
            w = None
        if not e and p.subst != w:
            e = "gives the allowed substitutions %s instead of %s" % (p.subst, w)
        if not e:
            e = tables(p, "t%d" % i, [("e%d" % i, ["|-"] + tree_math(mention(hv)))] if hv else [], ["|-"] + tree_math(mention(sv)), alt) or distinct(p, mp, alt)
        if e:
            bad.append((i, "the page of t%d (statement with %s, hypothesis with %s, proof with %s, $d %s) %s" % (i, sv, hv, pv, prs, e)))
    return bad

def dv_cases(deep):
    out = []
    for sv in subsets(DVV)[1:]:
        for hv in subsets(DVV)[:1 if deep < 2 else None]:
            for pv in subsets([v for v in DVV if v not in sv and v not in hv]):
                for prs in subsets(DVP):
                    if deep < 2 or not hv or len(prs) < 4:
                        out.append((sv, hv, pv, prs))
    if deep < 2:
        for sv in (("x",), ("ph",), ("x", "ph")):
            for hv in subsets(DVV)[1:]:
                for prs in subsets(DVP):
                    if len(prs) < 4:
                        out.append((sv, hv, (), prs))
    return out

# ------------------------------------------------------------ syntax statements
SY = {"wn": ["-."], "wi": ["->"], "wal": ["A."], "wel": ["e."]}
EXPL = {"n": "-. ph", "i": "( ph -> ps )", "ni": "-. ( ph -> ps )", "l": "A. x ph", "nl": "A. x -. ph", "p": "ph"}

def syn_run(items, alt):
    """items: what follows the syntax: [(label prefix, formula key)], one list; each list is a database"""
    bad = []
    for n, seq in enumerate(items):
        text = TDEF % "" + VARS + "$( T. $)\npre $a |- ph $.\n"
        order = ["pre"]; maths = {"pre": "ph"}
        first = list(seq)
        syn = {"S1": ("wn", "wff -. ph"), "S2": ("wi", "wff ( ph -> ps )"), "S3": ("wnal", "wff A. x -. ph"), "S4": ("cv", "class x")}
        k = 0
        for pre, f in first:
            if pre in syn:
                l, m = syn[pre]
                text += "$( T. $)\n%s $a %s $.\n" % (l, m)
            else:
                k += 1; l = "%s%d" % (pre, k)
                if pre == "th":
                    text += "$( T. $)\n%s $p |- %s $= ? $.\n" % (l, EXPL[f])
                else:
                    text += "$( T. $)\n%s $a |- %s $.\n" % (l, EXPL[f])
                maths[l] = EXPL[f]
            order.append(l)
        pg, e = pages(text, order, alt)
        if e:
            bad.append((n, e)); continue
        for i, l in enumerate(order):
            if l in maths:
                e = common(pg[l], order, l, "Theorem" if l.startswith("th") else "Axiom" if l.startswith("ax-") else "Definition")
                e = e or tables(pg[l], l, [], ["|-"] + maths[l].split(), alt)
            else:
                cs = {"wn": {"-."}, "wi": {"(", "->", ")"}, "wnal": {"A.", "-."}, "cv": set()}[l]
                w = None
                for j in range(i + 1, len(order)):
                    m = order[j]
                    if m in maths and not m.startswith("th") and cs <= set(maths[m].split()):
                        w = ("Thi" if m.startswith("ax-") else "See", [(m, j + 1)])
                        break
                e = common(pg[l], order, l, "Syntax Definition")
                if not e and pg[l].first != w:
                    e = "is explained by %s instead of %s" % (pg[l].first, w)
                e = e or syn_tables(pg[l], l, alt) or distinct(pg[l], [], alt)
                if not e and pg[l].users is not None:
                    e = "lists users"
            if e:
                bad.append((n, "the page of %s %s\nin %s" % (l, e, text[text.index("$c"):])))
                break
    return bad

def syn_cases(deep):
    el = [(p, f) for p in ("ax-", "df-", "th") for f in ("n", "i", "ni", "nl", "p")]
    sy = [("S1", ""), ("S2", ""), ("S3", ""), ("S4", "")]
    out = []
    for s in sy:
        for k in (0, 1, 2) if deep < 2 else (0, 1, 2, 3):
            for q in itertools.product(el, repeat=k):
                out.append((s,) + q)
    for s, t in itertools.permutations(sy, 2):
        for q in itertools.product(el, repeat=1):
            out += [(s, t) + q, (s,) + q + (t,)]
    return out

# ------------------------------------------------------------ lengths and parts of the web site
def site_run(case, alt):
    n, ext, box, hd = case
    labels = ["s%d" % i for i in range(n)]
    extra = ""
    if ext is not None:
        extra = 'exthtmltitle "Extitle"; exthtmlhome "<A HREF=\'exthome.html\'><IMG SRC=\'ext.gif\' ALT=\'X\'></A>"; exthtmllabel "%s"; exthtmlbibliography "mmset.html";\n' % labels[ext]
    text = TDEF % extra + "$c wff |- $.\n$v ph $.\nwph $f wff ph $.\n"
    H = "$(\n%s\n  %s\n%s\n$)\n" % ("#*" * 30, "Sec", "#*" * 30)
    order, titles = [], {}
    cur = "Title"
    for i in range(n):
        if box == i:
            text += "mathbox $a |- ph $.\n" if False else ""
        if ext == i:
            cur = "Extitle"
        text += "$( Text. $)\n%s $a |- ph $.\n" % labels[i]
        order.append(labels[i]); titles[labels[i]] = cur
    names = order if n < 12 else [order[k] for k in sorted({0, 1, 98, 99, 100, 101, 198, 199, 200, 201, n - 2, n - 1}) if 0 <= k < n]
    pg, e = pages(text, names, alt, each=n >= 12)
    if e:
        return [(0, "%s: %s" % (case, e))]
    bad = []
    for l in names:
        e = common(pg[l], order, l, "Definition", titles[l])
        if e:
            bad.append((0, "with %s, the page of %s %s" % (case, l, e)))
    return bad

def site_cases(deep):
    out = [(n, None, None, None) for n in list(range(1, 12)) + [98, 99, 100, 101, 102, 199, 200, 201, 202, 203]]
    out += [(n, e, None, None) for n in range(1, 7) for e in range(n)]
    return out

# ------------------------------------------------------------ driver
FAM = {"graphs": (lambda ch, alt: graph_run(ch, alt, 0, False)), "graphs_compressed": (lambda ch, alt: graph_run(ch, alt, 1, False)),
       "graphs_each": (lambda ch, alt: graph_run(ch, alt, 0, True)),
       "formulas": (lambda ch, alt: form_run(ch, alt, False)), "formulas_font": (lambda ch, alt: form_run(ch, alt, True)),
       "distinct": (lambda ch, alt: dv_run(ch, alt, False)), "distinct_font": (lambda ch, alt: dv_run(ch, alt, True)),
       "syntax": syn_run, "site": (lambda ch, alt: [b for x in ch for b in site_run(x, alt)])}

def gen(deep):
    for i, ch in enumerate(mm.chunks(graph_cases(deep), 12)):
        if deep > 1:
            for f in ("graphs", "graphs_compressed", "graphs_each"):
                for alt in (0, 1):
                    yield f, ch, alt
        else:
            yield ("graphs", "graphs_compressed", "graphs_each")[i % 3], ch, i % 2
    for name, cs, size in (("formulas", form_cases(deep), 25), ("distinct", dv_cases(deep), 25), ("syntax", syn_cases(deep), 25), ("site", site_cases(deep), 1)):
        for i, ch in enumerate(mm.chunks(cs, size)):
            if name in ("formulas", "distinct"):
                yield name, ch, 0
                yield name + "_font", ch, 1
            else:
                yield name, ch, 0
                if deep > 1 or name == "site":
                    yield name, ch, 1

def job(t):
    name, ch, alt = t
    ch = list(ch)
    bad = FAM[name](ch, alt)
    return name, len(ch), [(ch, alt, b[1]) for b in bad[:2]]

def main(c):
    for name, n, bad in mm.pmap(job, gen(2 if c.thorough else 1), stop=c.enough):
        c.add(name.split("_")[0], n)
        for ch, alt, what in bad:
            c.violation("%s:%s" % (name, mm.digest(what)), what, {"family": name, "cases": ch, "alt": alt})
    c.cov["rule"] = "every page of every enumerated database against the reference; no sampling"

def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x

def replay(v):
    r = v["replay"]
    bad = FAM[r["family"]]([tup(x) for x in r["cases"]], r["alt"])
    for b in bad:
        print(b[1])
    return 1 if bad else 0
