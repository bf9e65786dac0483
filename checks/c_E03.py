"""E03: (1) every line over small alphabets up to a length, for every width, prefix
and break mode, through the real wrapping function; (2) every listing of a set, at
every screen width, against the same listing at the greatest width; (3) every
sequence of answers to the paging prompt, for every screen height, against the
continuous listing."""
import itertools, os, re, subprocess
import mm, units
import c_F04 as F4
LEVEL = "model_checking"

def exe():
    return mm.compile_harness(os.path.join(mm.VERIF, "harness", "e03.c"), "e03", kind="asan")

# ------------------------------------------------------------------ widths
# the listing of labels in columns is arranged by the width, so it is not compared
MAINQ = sorted(q for q in F4.ONLY if q not in ("show settings", "show memory", "show elapsed_time", "show statement t/full/time", "more tx.txt", "show trace_back t/tree") and "verify markup" not in q and not ("search" in q and "/comments" in q)) + [
 "show statement t/full", "help verify proof", "help search", "help show proof", "help write source",
 "verify proof nolabel", "read f.mm", "show proof i/all/lemmon", "show proof t/lemmon/all", "show proof t/reverse/all", "show proof t/start_column 20/lemmon", "search * '( $* )'/all",
 "show proof t/compressed", "show proof t/normal", "show proof t/explicit", "show proof v/explicit/packed", "set nosuch", "foo bar baz"]
MAINQ = list(dict.fromkeys(MAINQ))
PAQ = ["show new_proof", "show new_proof/all", "show new_proof/unknown", "show new_proof/lemmon/all", "show new_proof/compressed", "show new_proof/normal", "assign first nosuchlabel", "improve all", "help assign", "delete step 1", "show new_proof/not_unified"]
BIG = 9999
# a database with long things
LONG = "$c |- ( ) -> averyveryverylongconstantsymbolthatneedsalotofroom w $. $v x y aquitelongvariablename $.\nfx $f w x $. fy $f w y $. fa $f w aquitelongvariablename $.\n" + \
 "$( A comment with several words, some of which areverylongandcannotbebrokenanywhereatall, and a link ~ http://us.metamath.org/mpeuni/mmset.html#anchorwithaname . Two sentences.  They have two blanks between them. $)\nwi $a w ( x -> y ) $.\n" + \
 "ax $a |- ( x -> ( y -> x ) ) $.\n${ alonghypothesislabel $e |- x $. mp.2 $e |- ( x -> y ) $.\nmp $a |- y $. $}\n" + \
 "${ thm.hypothesisnumberone $e |- ( aquitelongvariablename -> ( x -> ( y -> x ) ) ) $. d $p |- ( y -> ( aquitelongvariablename -> ( x -> ( y -> x ) ) ) ) $=\n fa fx fy fx wi wi wi fy fa fx fy fx wi wi wi wi thm.hypothesisnumberone fa fx fy fx wi wi wi fy ax mp $. $}\n" + \
 "e $p |- ( ( x -> y ) -> ( aquitelongvariablename -> ( x -> y ) ) ) $=\n fx fy wi fa ax $.\n"
LQ = ["show statement */full", "show statement */comment", "show proof d/all", "show proof d/lemmon/all", "show proof d/reverse/all", "show proof d/compressed", "show proof d/normal", "show proof d/explicit", "show proof d/packed", "show proof e/all/unknown", "show proof d/detailed_step 18",
      "show trace_back d", "show usage wi", "show usage ax/recursive", "search * 'aquite'", "search * '$* aquitelongvariablename'/all", "show source d", "verify proof *", "show proof d/statement_summary", "show proof d/depth 2/all", "show proof d/essential", "show proof d/renumber"]
WORLDS = {"main": (F4.FILES, ["read f.mm"], [], MAINQ), "pa": (F4.FILES, ["read f.mm", "prove u/override"], [], PAQ), "long": (dict(F4.FILES, **{"l.mm": LONG}), ["read l.mm"], [], LQ), "lpa": (dict(F4.FILES, **{"l.mm": LONG}), ["read l.mm", "prove d"], [], ["show new_proof/all", "show new_proof/lemmon/all", "delete step 16", "show new_proof/all", "improve all", "show new_proof/all", "undo", "initialize all", "unify all"])}

def squeeze(t):
    """The text without white space, rulers (as wide as the screen) and times."""
    t = re.sub(r"-{8,}|\.{12,}", "", re.sub(r"\s+", "", t))
    return re.sub(r"\d+\.\d\ds\b", "n.s", t)

def listing(world, w):
    files, pre, post, qs = WORLDS[world]
    r = mm.sess(pre + ["set width %d" % w] + qs, files)
    o = mm.split_out(r.out)
    return r, o[2 + len(pre):]

def j_width(t):
    world, w = t
    files, pre, post, qs = WORLDS[world]
    n = 0; out = []; ds = set()
    r0, a = listing(world, BIG)
    r1, b = listing(world, w)
    if r1.crashed or len(a) != len(b):
        return 1, ds, [("session", "width %d, %s: %s replies instead of %s %s" % (w, world, len(b), len(a), r1.out[-300:]), dict(kind="width", world=world, w=w, q=None))]
    for q, x, y in zip(["set width %d" % w] + qs, a, b):
        if q.startswith("set width"): continue
        n += 1
        if x != y: ds.add(mm.digest(world + q + y))
        case = dict(kind="width", world=world, w=w, q=q)
        if "compressed" in q and w < 30: continue      # the order of the labels is chosen to fill the lines
        if squeeze(x) != squeeze(y):
            out.append(("text", "%s at width %d: %s" % (q, w, diff(x, y)), case)); continue
        words = x.split()
        longest = max((len(v) for v in words), default=0)
        for l in y.split("\n"):
            if len(l) > w and len(l) > longest + 30:   # (a word that does not fit, after a prefix)
                out.append(("too-wide", "%s at width %d prints a line of %d characters: %r" % (q, w, len(l), l), case)); break
    return n, ds, out

def diff(x, y):
    x, y = squeeze(x), squeeze(y)
    i = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), min(len(x), len(y)))
    return "...%r instead of ...%r" % (y[max(0, i - 30):i + 60], x[max(0, i - 30):i + 60])

# ------------------------------------------------------------------ paging
P1 = "Press <return> for more, Q <return> to quit, S <return> to scroll to end... "
P2 = "Press <return> for more, Q <ret> quit, S <ret> scroll, B <ret> back up... "
LISTS = ["show statement t/full", "show proof t/all", "show proof t/lemmon/all", "help let", "verify proof *", "show trace_back t", "search * '( $* )'/all", "show labels *", "foo"]

def paged(cmd, h, answers, log=True):
    s = mm.PRE + "read f.mm\nset width 50\nset height %d\n%sset scroll prompted\n%s\n%s" % (h, "open log l.txt\n" if log else "", cmd, "".join(a + "\n" for a in answers))
    r = mm.server().run(s, F4.FILES)
    # what follows the command, and the log from the command on
    o = r.out
    k = o.index("Prompted scrolling is now in effect.\nMM> ") + len("Prompted scrolling is now in effect.\nMM> ")
    l = mm.server().read("l.txt") or ""
    return r, o[k:], l[l.index("MM> " + cmd + "\n"):] if "MM> " + cmd + "\n" in l else ""

def pages(cmd, h):
    """The pages, from the session in which every prompt is answered with return."""
    r, o, l = paged(cmd, h, [""] * 300)
    o = o[:o.index("MM> ")]
    ps = re.split("(?:%s|%s)" % (re.escape(P1), re.escape(P2)), o)
    return ps, l

def walk(cmd, ps, answers):
    """What is shown when the questions are answered so, up to the prompt that reads
    something other than B or nothing; and how many of the pages were printed."""
    out = ps[0]; K = len(ps); n = pos = 1; quit = False
    a = list(answers)
    shown = ["MM> " + cmd + "\n" + ps[0]] + ps[1:]
    def pop():
        return a.pop(0) if a else None
    while n < K and not quit:
        out += P1 if pos == 1 else P2
        x = pop()
        if x is None: out += "".join(ps[n:]); n = K; break
        if x == "":
            if pos == n: n += 1; pos = n; out += ps[n - 1]
            else: pos += 1; out += shown[pos - 1]
        elif x in "qQ" and len(x) == 1: quit = True
        elif x in "sS" and len(x) == 1:
            out += "".join(shown[pos:n]) + "".join(ps[n:]); n = K
        elif x in "bB" and len(x) == 1 and pos > 1: pos -= 1; out += shown[pos - 1]
        elif len(x) == 1: out += "\a"
    while 1:      # at the command prompt
        out += "MM> "
        x = pop()
        if x is None: return out + "EXIT\n", n
        if x == "": continue
        if x not in ("b", "B") or n == 1: return out, n
        pos = n - 1; out += shown[pos - 1]
        while pos < n:
            out += P1 if pos == 1 else P2
            y = pop()
            if y is None: break
            if y == "": pos += 1; out += shown[pos - 1]
            elif y in "qQ" and len(y) == 1: break
            elif y in "sS" and len(y) == 1: out += "".join(shown[pos:n]); break
            elif y in "bB" and len(y) == 1 and pos > 1: pos -= 1; out += shown[pos - 1]
            elif len(y) == 1: out += "\a"

notime = lambda t: re.sub(r"\b\d+\.\d\d s\b", "n s", t)
def paging(cmd, h, answers, ps=None):
    if ps is None: ps = pages(cmd, h)[0]
    exp, n = walk(cmd, ps, answers)
    r, o, l = paged(cmd, h, answers)
    o, exp = notime(o), notime(exp)
    case = dict(kind="paging", cmd=cmd, h=h, answers=list(answers))
    if r.crashed: return "paging", "%s: %s" % (case, r.out[-300:]), case
    if not o.startswith(exp):
        i = next((k for k in range(min(len(o), len(exp))) if o[k] != exp[k]), min(len(o), len(exp)))
        return "paging", "%s at height %d answered %r prints ...%r instead of ...%r" % (cmd, h, answers, o[max(0, i - 40):i + 80], exp[max(0, i - 40):i + 80]), case
    want = notime("MM> " + cmd + "\n" + "".join(ps[:n]))
    if not notime(l).startswith(want):
        return "paging-log", "%s at height %d answered %r: the log has %r instead of %r" % (cmd, h, answers, l[:300], want[:300]), case
    return None

def j_pages(t):
    """the pages of a listing are its lines, in order, none longer than the screen is high"""
    cmd, h = t
    ps, l = pages(cmd, h)
    r = mm.sess(["read f.mm", "set width 50", "set height %d" % h, "open log l.txt", cmd], F4.FILES)
    o = mm.split_out(r.out)[6]
    case = dict(kind="pages", cmd=cmd, h=h)
    out = []
    if notime("".join(ps)) != notime(o): out.append(("pages", "%s at height %d: the pages are %r, the whole listing is %r" % (cmd, h, ps, o), case))
    for i, p in enumerate(ps):
        if p.count("\n") > h or (i < len(ps) - 1 and not p.endswith("\n")): out.append(("pages", "%s at height %d: page %r" % (cmd, h, p), case)); break
    return ps, out

ANS = ["", "b", "s", "q", "x"]
def j_paging(t):
    cmd, h, depth = t
    ps, out = j_pages((cmd, h)); n = 1; ds = set()
    if out or cmd == "foo" and h > 2: return n, ds, out
    K = len(ps)
    al = ANS + (["B", "S", "Q", "bb"] if h in (3, 7) else [])
    d = depth - (len(al) > 5)
    for k in range(d + 1):
        for a in itertools.product(al, repeat=k):
            n += 1; ds.add(mm.digest(cmd + "".join(x + "." for x in a) + str(h)))
            v = paging(cmd, h, a, ps)
            if v:
                out.append(v)
                if len(out) > 3: return n, ds, out
    return n, ds, out

def main(c):
    mm.run_harness(c, exe(), 16, c.thorough)
    tasks = [(k, w) for k in WORLDS for w in range(8, 131)]
    for n, ds, vs in mm.pmap(j_width, tasks, stop=c.enough):
        c.add("evaluations", n); c.add("listings_at_a_width", n); c.distinct(ds)
        for v in vs: c.violation(*v)
    tasks = [(q, h, 6 if c.thorough else 4) for h in (range(1, 13) if c.thorough else (1, 2, 3, 4, 7)) for q in LISTS]
    for n, ds, vs in mm.pmap(j_paging, tasks, stop=c.enough):
        c.add("evaluations", n); c.add("paging_sequences", n); c.distinct(ds)
        for v in vs: c.violation(*v)

def replay(v):
    r = v["replay"]
    if "part" in r:
        p = subprocess.run([exe(), str(r["part"]), str(r["parts"]), str(r["deep"])], capture_output=True, text=True)
        print(p.stdout[-3000:], p.stderr[-3000:])
        return p.returncode != 0
    if r["kind"] == "width": vs = j_width((r["world"], r["w"]))[2]
    elif r["kind"] == "pages": vs = j_pages((r["cmd"], r["h"]))[1]
    else: vs = [x for x in [paging(r["cmd"], r["h"], r["answers"])] if x]
    print(vs[0][1] if vs else "holds")
    return 1 if vs else 0
