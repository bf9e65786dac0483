"""Answers depend only on the database, not on the session's history."""
import itertools, re
import mm, units

LEVEL = "model_checking"

DEFS = lambda v, **kw: "".join('htmldef "%s" as "%s%s "; althtmldef "%s" as "%s%s%s "; latexdef "%s" as "%s%s";\n' % (s, v, s, s, v, v, s, s, v, s) for s in ("wff", "|-", "(", ")", "->", "x", "y", "z"))
HEAD = "$(\n#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#\n%s\n#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#\n%s\n$)\n"
SUBH = "$(\n=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=\n%s\n=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=-=\n%s\n$)\n"
F = """$( $t htmltitle "First"; htmlhome "<A HREF='f.html'>Home</A>"; htmlbibliography "mmbiblio.html"; exthtmltitle "Ext"; exthtmlhome "<A HREF='e.html'>E</A>"; exthtmllabel "u"; htmlcss "<STYLE>f</STYLE>"; htmlfont "F";
""" + DEFS("1") + """$)
$c |- ( -> ) wff $. $[ inc.mm $] $v z $. fz $f wff z $.
wi $a wff ( x -> y ) $.
""" + HEAD % ("Part one", "About ~ a and ` x ` .") + """$( First axiom. [Book] p. 3. (New usage is discouraged.) $)
a $a |- ( x -> ( y -> x ) ) $.
$( An axiom. [Book] p. 4. $)
ax-1 $a |- ( x -> ( y -> ( z -> x ) ) ) $.
$( Distinct. $)
dv $a |- ( x -> z ) $.
${ m1 $e |- x $. m2 $e |- ( x -> y ) $.
$( Detachment. $)
mp $a |- y $. $}
${ i.1 $e |- x $.
$( Inference. (Contributed by N, 1-Jan-2000.) $)
i $p |- ( y -> x ) $= fx fy fx wi i.1 fx fy a mp $. $}
$( A theorem. (Contributed by N, 1-Jan-2000.) (Proof modification is discouraged.) $)
t $p |- ( z -> ( x -> ( y -> x ) ) ) $= fx fy fx wi wi fz fx fy a i $.
""" + HEAD % ("Mathboxes", "M.") + SUBH % ("Mathbox for Me", "Text.") + """$( Incomplete. (Contributed by N, 1-Jan-2000.) $)
u $p |- ( x -> ( y -> x ) ) $= ? $.
"""
G = """$( $t htmltitle "Second"; htmlhome "<A HREF='g.html'>Home2</A>"; htmlbibliography "mmbiblio.html";
""" + DEFS("2") + """ htmldef "o" as "o "; althtmldef "o" as "O "; latexdef "o" as "o"; $)
$c wff |- ( -> ) o $.
$v x y $. fx $f wff x $. fy $f wff y $.
wi $a wff ( x -> y ) $. wo $a wff o $.
""" + HEAD % ("Other", "Reads ~ b .") + """$( Axiom. [Paper] p. 4. $)
b $a |- ( x -> ( y -> x ) ) $.
$( An axiom. [Paper] p. 5. $)
ax-2 $a |- ( o -> ( y -> y ) ) $.
$( A definition. $)
df-3 $a |- ( ( x -> o ) -> y ) $.
${ $d x y $. $( With distinct variables. $)
dv $a |- ( x -> y ) $. $}
${ m1 $e |- ( x -> y ) $. m2 $e |- x $.
mp $a |- y $. $}
${ i.1 $e |- ( x -> x ) $.
$( Another inference. (Contributed by Q, 2-Feb-2002.) $)
i $p |- ( x -> ( y -> x ) ) $= ( b ) ABD $. $}
""" + HEAD % ("Mathbox", "M.") + SUBH % ("Mathbox for You", "Text.") + """$( Theorem two. See ~ i . (Contributed by Q, 2-Feb-2002.) $)
t $p |- ( o -> ( o -> o ) ) $= wo wo b $.
""" + SUBH % ("Mathbox for Them", "Text.") + """$( Unfinished. (New usage is discouraged.) (Contributed by Q, 2-Feb-2002.) $)
u $p |- ( ( o -> o ) -> ( y -> ( o -> o ) ) ) $= ? $.
$( Uses it. (Contributed by Q, 2-Feb-2002.) $)
v $p |- ( o -> ( x -> o ) ) $= wo fx b $.
"""
INC = "$v x y $. fx $f wff x $. fy $f wff y $.\n"
F2 = F.replace("inc.mm", "inc2.mm")
BAD = "$c w $. $v x $. f $f w x $. a $a w x y $. p $p w x $= f f $. $t ${\n"
FILES = {"f.mm": F, "g.mm": G, "inc.mm": INC, "inc2.mm": INC, "f2.mm": F2, "bad.mm": BAD, "tx.txt": "one x\ntwo\nx\n", "e.mm": "$c z |- $. $v a $. fa $f z a $. ze $a z $. za $a z a a $. x $a |- a a $. p $p |- a $= ? $.", "th.txt": "h", "ty.txt": "q x\nr\n", "c.cmd": "show labels *\nshow proof t\n", "m.txt": "Text ~ t and ` x -> y ` _em_ [Book].\n",
         "mmbiblio.html": "<HTML>\n<A NAME=\"Book\"></A><A NAME=\"Paper\"></A>\n<!-- #START# -->\n<!-- #END# -->\n</HTML>\n", "r.html": "<HTML>\n<!-- last updated -->x<!-- #START# -->\n<!-- #END# -->\n</HTML>\n", "tex.tex": ""}

ONLY = {  # commands that only inspect
 "show labels */all", "show labels t~u", "show statement t", "show statement */full", "show statement */comment", "show source t", "show proof t", "show proof */all", "show proof t/normal", "show proof u/unknown",
 "show proof t/lemmon/renumber", "show proof t/detailed_step 4", "show proof t/statement_summary", "show proof i/compressed", "show proof t/tree", "show usage i/recursive", "show usage fx", "show trace_back t", "show trace_back t/axioms",
 "show trace_back t/tree", "show trace_back t/to a", "show trace_back t/count_steps", "show trace_back *", "search * '( x'", "search * '$* x'/all", "search * 'inference'/comments", "search * 'o'/join", "show discouraged", "show settings", "verify proof *",
 "verify proof t", "verify proof */syntax_only", "verify markup */file_skip", "help show proof", "show memory", "file search f.mm 'theorem'", "show statement t/full/time", "foo", "show labels nolabel", "show proof nolabel", "search * ')) (('",
 "show proof t/size", "show proof t/packed", "show proof t/explicit", "more tx.txt", "show elapsed_time", "verify markup t/verbose/file_skip"}
HTML = {"show statement t/html", "show statement ax-*/html", "show statement df-*/alt_html", "show statement v/html", "show statement */alt_html/no_versioning", "show statement t/brief_html", "show statement i/brief_alt_html", "show statement t/mnemonics", "markup m.txt mo.html/html/symbols/labels/bib_refs/underscores", "markup m.txt mo.html/alt_html/symbols/css",
        "write theorem_list/html/show_lemmas", "write theorem_list/alt_html", "write bibliography mmbiblio.html", "write recent_additions r.html/html", "verify markup */file_skip", "verify markup t/verbose/file_skip"}
TEX = {"open tex a.tex;show statement t/tex/full;show proof t/tex;close tex", "open tex b.tex/old_tex;show statement i/old_tex;show proof t/old_tex;close tex", "open tex c.tex/no_header;show proof t/tex/statement_summary;close tex"}
ANY = {  # what else there is
 "save proof t/normal", "save proof */compressed", "save proof i/explicit/packed", "save proof u/normal", "write source o.mm", "write source o.mm/rewrap", "write source o.mm/split", "write source o.mm/extract t", "write source o.mm/format/keep_includes",
 "prove t/override;show new_proof;_exit_pa/force", "prove u/override;improve all;save new_proof/compressed;_exit_pa/force", "prove t/override;delete step 10;assign last a/override;undo;redo;_exit_pa/force", "prove t/override;minimize_with */no_new_axioms_from a;save new_proof/override/normal;_exit_pa/force",
 "prove i;expand *;initialize all;unify all;_exit_pa/force", "prove u;assign last $x;let variable $1='x';show new_proof/all;replace last a/override;_exit_pa/force",
 "tools;count tx.txt x;add ty.txt < >;exit", "tools;help add;break ty.txt x;exit", "open log l.x;show labels *;close log", "submit c.cmd", "submit c.cmd/silent", "read bad.mm", "erase;Y;read bad.mm;verify proof *;show statement *;erase", "erase;Y;read g.mm", "erase;Y;read g.mm;prove u;assign last wo;save new_proof;_exit_pa/force;write source q.mm;erase",
 "erase;Y;read nofile.mm", "erase;Y;read e.mm;prove p;improve all;_exit_pa/force", "midi t", "beep"}
SET = {"set width 60", "set echo on", "set discouragement off", "set search_limit 5", "set unification_timeout 7", "set jeremy_henty_filter on", "set undo 5", "set contributor Someone", "set height 30", "set memory_status on", "set root_directory \"\""}
# asked of the database; the last ones change it
QUERY = sorted(ONLY - {"show memory", "show elapsed_time"}) + sorted(x for x in ANY if not x.startswith(("read", "erase", "open log l2")))
QTEX = sorted(TEX)
QHTML = sorted(HTML)

def normal(t):
    t = re.sub(r"\d+\.\d+( s\b| sec)", "N\\1", t)
    t = re.sub(r"(Memory:|poolTotalFree|Pool:).*\n", "", t, flags=re.M)
    t = re.sub(r"-?\d+ (bytes|free)", "N \\1", t)
    return re.sub(r"\d+[:-]\w+[:-]?\d*( [AP]M)?", "N", t)

PROGRESS = re.compile(r"(?<=\n)(Reading HTML bibliographic tags from|Reading definitions from \$t|\d+ typesetting statements were read)[^\n]*\n")
def default_label(t):                  # the default statement of SHOW commands is remembered
    t = PROGRESS.sub("", "\n" + t)       # what is cached is not read again
    t = re.sub(r'(\(OPEN LOG\.\.\.\) )[^\n]*\n', "\\1\n", t)
    return re.sub(r"\(SHOW\.\.\.\) The default statement[^\n]*\n", "", t)

RX = re.compile(r"(?:(?<=\n)|(?<=^)|(?<=MM> )|(?<=MM-PA> )|(?<=TOOLS> ))(?:MM> |MM-PA> |TOOLS> )")

def run(prefix, queries, db):
    """-> (replies to the queries, files, status); prefix ends with the READ"""
    cmds = [x for p in prefix for x in p.split(";")] + ["show statement z9"]
    q = [x for p in queries for x in p.split(";")]
    r = mm.sess(cmds + q, FILES)
    parts = RX.split(r.out)
    k = max((i for i, x in enumerate(parts) if "z9" in x), default=None)
    if k is None: return [r.out[-300:]], {}, r.status
    # until the last query's reply: what EXIT says depends on unsaved changes before
    rs = [default_label(normal(x)) for x in parts[k + 1:]]
    return rs, {f: normal(mm.server().read(f)) for f in mm.server().ls() if f.endswith((".html", ".mm", ".tex", ".txt"))}, r.status

def differ(a, b, queries, files=True):
    q = [x for p in queries for x in p.split(";")]
    if a[2] != b[2]: return "the program ends with status %s, otherwise %s" % (a[2], b[2])
    for k in range(len(q)):
        x, y = (a[0][k:k + 1] or [None])[0], (b[0][k:k + 1] or [None])[0]
        if x != y:
            x, y = x or "", y or ""
            i = next((i for i in range(max(len(x), len(y))) if x[i:i + 1] != y[i:i + 1]), 0)
            return "%s answers %r, otherwise %r" % (q[k], x[max(0, i - 80):i + 120], y[max(0, i - 80):i + 120])
    if files:
        for f in sorted(set(a[1]) | set(b[1])):
            if a[1].get(f) != b[1].get(f):
                x, y = a[1].get(f) or "", b[1].get(f) or ""
                i = next((i for i in range(max(len(x), len(y))) if x[i:i + 1] != y[i:i + 1]), 0)
                return "the file %s is %r, otherwise %r" % (f, x[max(0, i - 80):i + 120], y[max(0, i - 80):i + 120])
    return None

_base = {}
def fresh(settings, db, queries):
    k = (settings, db, tuple(queries))
    if k not in _base:
        _base[k] = run(list(settings) + ["read " + db], queries, db)
    return _base[k]

def queries_for(h):
    """TeX and HTML cannot be used in the same session (documented)"""
    html = any(x in HTML or "verify markup" in x for p in h for x in [p]) 
    return [QUERY_H] if html else [QUERY_H, QTEX]
QUERY_H = QHTML + QUERY

def leaves_files(h): return True

def after_erase(h, db):
    out, n, states = [], 0, set()
    sets = tuple(x for x in h if x in SET)
    h = tuple(x.replace("ty.txt", "th.txt") for x in h)
    for qs in queries_for(h):
        a = run(["read f.mm"] + list(h) + ["erase", "Y", "read " + db], qs, db)
        b = fresh(sets, db, qs)
        n += 1
        states.add(hash((tuple(b[0]), sets)))
        w = differ(a, b, qs, files=False)
        if w:
            out.append("after READ f.mm; %s; ERASE; READ %s: %s" % ("; ".join(h), db, w))
    return out, n, states

PRE = [(), ("save proof t/normal",), ("prove u/override",), ("prove t/override;delete step 10",), ("save proof i/compressed", "prove u;assign last dv"), ("tools",)]
INPA = [x for x in sorted(ONLY) if not x.startswith(("verify", "read", "tools"))] + ["show new_proof", "show new_proof/all/essential", "show new_proof/lemmon", "show new_proof/not_unified", "show new_proof/unknown", "help assign"]
Q_PA = ["show new_proof/all", "show new_proof/lemmon", "show new_proof/normal", "undo", "redo", "show new_proof/all", "match all", "assign last wi/no_unify", "improve all", "minimize_with *", "show new_proof/all", "undo", "show new_proof/compressed", "save new_proof/override", "show proof u/all", "exit/force"] + QUERY
IN_T = ["help add", "count tx.txt x", "type tx.txt all", "foo"]
Q_T = ["count tx.txt o", "exit"] + QUERY

def inspecting(pre, h, db):
    out, n, states = [], 0, set()
    inpa = any(p.startswith("prove") for p in pre); int_ = "tools" in pre
    lists = [Q_PA] if inpa else [Q_T] if int_ else queries_for(h)
    for qs in lists:
        k = (pre, db, tuple(qs))
        if k not in _base: _base[k] = runpre(["read " + db] + list(pre), qs)
        a, b = runpre(["read " + db] + list(pre), qs, list(h)), _base[k]
        n += 1
        states.add(hash((tuple(b[0]), pre)))
        w = differ(a, b, qs)
        if w:
            out.append("after READ %s; %s, the inspecting commands %s: %s" % (db, "; ".join(pre), "; ".join(h), w))
    return out, n, states

MARK = "zzz"                           # an unknown command, as a marker in every mode
def runpre(pre, queries, h=()):
    cmds = [x for p in list(pre) + list(h) for x in p.split(";")] + [MARK]
    q = [x for p in queries for x in p.split(";")]
    r = mm.sess(cmds + q, FILES)
    rs = RX.split(r.out)[len(cmds) + 2:]    # the banner, SET SCROLL, the commands: one prompt each
    return [default_label(normal(x)) for x in rs], {f: normal(mm.server().read(f)) for f in mm.server().ls() if f.endswith((".html", ".mm", ".tex", ".txt"))}, r.status

def job(task):
    kind, items = task
    viol, n, states = [], 0, set()
    for it in items:
        w, k, st = (after_erase if kind == "erase" else inspecting)(*it)
        n += k; states |= st
        for x in w[:1]:
            if len(viol) < 2: viol.append(dict(kind=kind, item=it, what=x))
    return dict(n=n, states=states, viol=viol, sample="%s %s" % (kind, items[0]))

def main(c):
    H = sorted(ONLY | HTML | TEX | ANY | SET)
    t = c.thorough
    tasks = []
    one = [(h,) for h in H]
    pairs = list(itertools.product(H, repeat=2))
    core = [h for h in H if h in ANY or h in HTML or h in TEX or h in SET or h in ("verify proof *", "show proof */all", "show discouraged", "show usage i/recursive", "show trace_back t", "search * 'o'/join")]
    er = [(h, db) for h in one + [()] for db in ("g.mm", "f2.mm")]
    er += [(h, "g.mm") for h in (pairs if t else itertools.product(core, repeat=2))]
    tasks += [("erase", er)]
    ins = []
    I = sorted(ONLY)
    for pre in PRE:
        al = IN_T if "tools" in pre else INPA if any(p.startswith("prove") for p in pre) else I + (["verify markup */file_skip"] if False else [])
        for db in ("f.mm", "g.mm"):
            if db == "g.mm" and ("dv" in " ".join(pre) or "delete" in " ".join(pre)): continue
            ins += [(pre, (h,), db) for h in al]
            if t or not pre: ins += [(pre, h, db) for h in itertools.product(al, repeat=2)] if t or db == "f.mm" else []
    tasks += [("inspect", ins)]
    for kind, items in tasks:
        for res in mm.pmap(job, [(kind, x) for x in mm.chunks(items, 30)], stop=c.enough):
            c.add("traces_validated_against_impl", res["n"]); c.add("transitions", res["n"] * len(QUERY)); c.distinct(res["states"]); c.sample(res["sample"])
            for v in res["viol"]:
                c.violation(mm.digest(v["what"]), v["what"], v)
    c.cov["states"] = len(c._d)
    c.cov["exhaustive"] = True
    c.cov["rule"] = ("all histories of 1 and 2 units (of %d) before ERASE and READ, and of 1 and 2 inspecting commands in %d situations; then %d questions, each answer compared with that of the session without the history" % (len(H), len(PRE), len(QUERY_H) + len(QTEX)))

def tup(x): return tuple(tup(y) for y in x) if isinstance(x, list) else x
def replay(v):
    p = v["replay"]
    w = (after_erase if p["kind"] == "erase" else inspecting)(*tup(p["item"]))[0]
    print(w[0] if w else "holds")
    return 1 if w else 0
