"""No input makes the program crash or corrupt memory.

The real program, built with address and undefined-behaviour checks, is run on
every file and command line of the enumerated families; the same cases are run
on two builds in which uninitialised objects have different values."""
import itertools, re
import mm, commands

LEVEL = "exploration"

# ------------------------------------------------------------------ judging
def verdict(r, single=True):
    """-> None or (signature, detail). A bug check after an error message is not
    counted: the program's text announces that earlier errors may lead to it."""
    o = r.out
    if "AddressSanitizer failed to allocate" in o or "Out of memory" in o.split("==")[0]:
        return None                                  # memory exhausted: the program says so
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", o)
    if m or "runtime error:" in o:
        k = m.group(1) if m else re.search(r"runtime error: (.*)", o).group(1)
        k = re.sub(r"0x[0-9a-f]+|-?\d{2,}", "N", k)
        f = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) \S*/src/", o)
        i = o.find("ERROR: AddressSanitizer") if m else o.find("runtime error:")
        return "%s in %s" % (k, f[0] if f else "?"), o[max(0, i - 100):i + 900]
    m = re.search(r"DETECTED BUG (\d+)", o)
    if m and single and "?Error" in o[:m.start()]:
        return None
    if m:
        return "bug check %s" % m.group(1), o[max(0, o.find("DETECTED BUG") - 300):][:600]
    if r.status == 2000:
        return "no end", o[-500:]
    if r.status != 0:
        return "status %d" % r.status, o[-600:]
    return None

def batch(cases, mk, kind="asan", timeout=20.0):
    """run several cases in one session; when something happens, one by one.
    mk(case, i) -> (commands, files)"""
    cmds, files = [], {}
    for i, x in enumerate(cases):
        c, f = mk(x, i)
        cmds += c; files.update(f)
    r = mm.sess(cmds + ["exit", "y"], files, kind=kind, timeout=timeout)
    if verdict(r, False) is None:
        return []
    out = []
    for x in cases:
        c, f = mk(x, 0)
        r = mm.sess(c + ["exit", "y"], f, kind=kind, timeout=60.0)
        v = verdict(r)
        if v:
            out.append((v[0], v[1], c, f))
    if not out:
        v = verdict(mm.sess(cmds + ["exit", "y"], files, kind=kind, timeout=timeout))
        if v:
            out.append((v[0] + " (history)", v[1], cmds, files))
    return out

# ------------------------------------------------------------------ files
TOK = ["$c", "$v", "$f", "$e", "$d", "$a", "$p", "$=", "$.", "${", "$}", "$(", "$)", "$[", "$]", "w", "x", "l", "?", "b.mm"]
PTOK = ["l", "f", "a", "i", "t", "?", "(", ")", "A", "B", "C", "D", "Z", "U", "UA", "AB", "BZ", "ABCD", "x:a", "f:f", "=", "$."]
BASE = "$c w ( |- $. $v x y $. f $f w x $. g $f w y $. $d x y $.\n${ h $e |- x $. i $a |- ( x $. $}\na $a |- x $. "
PREFIXES = ["", "$c w $. $v x $. f $f w x $. ", BASE, BASE + "l $p |- ( x $= ", BASE + "t $p |- ( x $= f a i $. ${ h2 $e |- ( x $. "]

def f_tokens(deep):
    for p in PREFIXES:
        for k in range(0, 4 if deep else 3):
            for t in itertools.product(TOK, repeat=k):
                yield p + " ".join(t)
    for t in itertools.product(TOK, repeat=3) if not deep else ():
        yield PREFIXES[1] + " ".join(t)
    for st in ("f a i", "( i a ) "):
        for k in range(0, 4):
            for t in itertools.product(PTOK, repeat=k):
                yield BASE + "t $p |- ( x $= " + " ".join(t) + " $."
    for k in range(0, 6 if deep else 5):                # targets and local labels
        for t in itertools.product(("f", "a", "i", ":", "=", "x"), repeat=k):
            yield BASE + "t $p |- ( x $= " + " ".join(t) + " $."
            yield BASE + "t $p |- ( x $= f=f h=a " + " ".join(t) + " $."
            yield BASE + "t $p |- ( x $= " + " ".join(t) + " t=i $."
    for k in range(0, 4 if deep else 3):
        for t in itertools.product(PTOK, repeat=k):
            for st in ("( a i ) ", "( i ", "f a ", "( ) "):
                yield BASE + "t $p |- ( x $= " + st + " ".join(t) + " $."
                yield BASE + "t $p |- ( x $= " + st + "".join(t) + " $."

RICH = """$( head $)
  $c w ( |- $.  $v x y $.
  f $f w x $.  g $f w y $.
$(
#*#*
  T
#*#*
$)
  $( Axiom ~ a of [B] p. 3, ` ( x ` _em_ (Contributed by X, 1-Jan-2020.)
     (New usage is discouraged.) $)
  a $a |- x $.
  ${ $d x y $.  h $e |- x $.
    i $a |- ( x $.
    $( T ` x ` $)
    t $p |- ( y $= ( a i ) BBDE $. $}
  u $p |- ( x $= f f x:a i $.
$( $t
  htmldef "w" as "<B>w</B>" + 'q';  /* c */
  latexdef "(" as "(";  althtmldef "x" as "&x;";
  htmltitle "T"; exthtmlhome "q"; exthtmllabel "a";
  htmlvarcolor "x y"; htmlcss ""; htmlbibliography "b.html";
$)
"""
BYTES = ["", "\0", "$", "(", " ", "\n", "\r", "\x80", "\xff", "~", "`", "_", "[", "]", '"', ";", "/", "*", "?", ".", "\t", "A", "=", "#", "$( ", " $)", " $.", "$["]
def f_bytes(deep):
    n = len(RICH)
    for i in range(n):
        yield RICH[:i]
        for b in BYTES:
            yield RICH[:i] + b + RICH[i + 1:]
            if b:
                yield RICH[:i] + b + RICH[i:]
    words = re.findall(r"\s*\S+", RICH)
    for i in range(len(words)):
        for j in range(i + 1, len(words) + 1 if deep else min(len(words), i + 6) + 1):
            yield "".join(words[:i] + words[j:])
        yield "".join(words[:i] + words[i:i + 1] + words[i:])
        if i + 1 < len(words):
            yield "".join(words[:i] + words[i + 1:i + 2] + words[i:i + 1] + words[i + 2:])
    for k in (1, 2, 3, 5, 50, 500, 5000):        # long things
        yield BASE + "l" * min(k, 5000) + " $a |- x $."
        yield BASE + "l $a |- " + "x" * min(k, 500) + " $."
        yield BASE + "l $a |- " + "( " * k + "x $."
        yield BASE + "$( " + "` " * k + "$) l $a |- x $."
        yield BASE + "$( " + "abc~d " * k + "$) l $p |- x $= a $."
        yield BASE + "$( " + "b" * min(k, 5000) + " $) l $p |- x $= a $."
        yield BASE + "l $p |- ( x $= " + "f " * min(k, 500) + "a i $."
        yield BASE + "l $p |- ( x $= ( i ) " + "A" * min(k, 500) + " $."
        yield BASE + "l $p |- ( x $= ( i ) " + "U" * min(k, 5000) + "A $."
        yield "${ " * min(k, 31000)      # (the program documents a limit of 32000)
        yield "$c " + " ".join("c%d" % i for i in range(k)) + " $."
        yield "$c w $. $v " + " ".join("c%d" % i for i in range(min(k, 3000))) + " $. $d " + " ".join("c%d" % i for i in range(k if k < 101 else 60)) + " $. l $a w c0 $."
        yield "$( $t htmldef \"" + "q" * min(k, 5000) + "\" as \"" + "r" * min(k, 5000) + "\"; $)"
        yield " " * k
        yield "\n" * k

def f_sizes(deep):
    """databases in which one dimension has size n, for every n around the
    places where the program enlarges its tables"""
    ns = set(range(1, 45)) | {a + d for a in (64, 100, 128, 130, 200, 230, 256, 500, 512) for d in range(-3, 4)} | {a + d for a in (1000, 1024) for d in range(-2, 3)}
    if deep:
        ns |= set(range(1, 700)) | {a + d for a in (1100, 1500, 2000, 2048, 4096, 5000) for d in range(-3, 4)}
    for n in sorted(ns):
        R = range(n)
        W = "$c w |- ( $. $v x y $. fx $f w x $. fy $f w y $.\n"
        I = "${ ih $e |- x $. i $a |- ( x $. $}\n${ jh $e |- ( x $. j $a |- x $. $}\nc $a |- ( x $.\nwp $a w ( x $.\n"
        if n <= 160:
            vs = ["v%d" % i for i in R]
            V = "$c w |- $. $v %s $.\n" % " ".join(vs) + "".join("f%d $f w v%d $. " % (i, i) for i in R)
            hyps = lambda p: "".join("%s%d $e |- v%d $. " % (p, i, i) for i in R)
            pf = " ".join("f%d" % i for i in R) + " " + " ".join("g%d" % i for i in R)
            yield "$( hypotheses $) " + V + "${ " + hyps("m") + " big $a |- %s $. $}\n${ " % " ".join(vs) + hyps("g") + " t $p |- %s $= %s big $. $}" % (" ".join(vs), pf)
            yield "$( optional variables $) " + V + "$v z $. fz $f w z $. ${ m $e |- z $. q $a |- v0 $. $} k $a |- z $. t $p |- v0 $= f0 f%d f%d k q $." % (n - 1, n - 1)
            yield "$( constants $) $c w |- %s $. $v x $. f $f w x $. " % " ".join("c%d" % i for i in R) + "".join("a%d $a |- c%d x $. " % (i, i) for i in R) + "t $p |- c%d x $= f a%d $." % (n - 1, n - 1)
            yield "$( scopes $) " + W + I + "".join("${ $v u%d $. uf%d $f w u%d $. s%d $e |- u%d $. " % (i, i, i, i, i) for i in R) + "t $p |- u0 $= s0 $. " + "$} " * n
            if 2 <= n <= 46:
                yield "$( pairs $) " + V + "${ $d %s $. k $a |- %s $. t $p |- %s $= %s k $. $}" % (" ".join(vs), " ".join(vs), " ".join(vs), " ".join("f%d" % i for i in R))
            yield "$( pairs one by one $) " + W + I + "$v " + " ".join("u%d" % i for i in R) + " $. " + "".join("q%d $f w u%d $. $d x u%d $. " % (i, i, i) for i in R) + "k $a |- x u%d $. t $p |- x u%d $= fx q%d k $. u $p |- ( x $= fx c $." % (n - 1, n - 1, n - 1)
        yield "$( length $) " + W + I + "k $a |- %sx $. t $p |- %sx $= fx k $." % ("( " * n, "( " * n)
        yield "$( tight length $) $c w |- ( $. $v x $. f $f w x $. k $a |- %s $. t $p |- %s $= k $." % ("( " * n, "( " * n)
        yield "$( symbol $) $c w |- %s $. $v x%s $. f $f w x%s $. k $a |- %s x%s $. t $p |- %s x%s $= f k $." % ("q" * n, "y" * n, "y" * n, "q" * n, "y" * n, "q" * n, "y" * n)
        yield "$( label $) " + W + I + "k%s $a |- ( x $. t $p |- ( x $= fx k%s $. u $p |- ( x $= ( k%s ) AB $. v $p |- ( ( ( x $= fx z%s:wp wp z%s c i $." % (("b" * n,) * 5)
        yield "$( steps $) " + W + I + "t $p |- %s( x $= fx %sc $. u $p |- ( x $= ( c i j ) AA%s $." % ("( " * n, "wp " * n, "?" * n)
        yield "$( chain $) " + W + I + "t $p |- ( x $= %sfx c%s $." % ("fx wp fx wp " * n, " i j" * n)
        yield "$( labels in parentheses $) " + W + "".join("k%d $a |- ( x $. " % i for i in R) + "t $p |- ( x $= ( %s ) A%s $. u $p |- ( x $= fx k%d $." % (" ".join("k%d" % i for i in R), comp(n + 1), n - 1)
        yield "$( back references $) " + W + I + "t $p |- %s( x $= ( wp c i ) A%sC $. r $p |- %s( ( x $= ( wp c i ) A%sB%sCD $." % ("( " * n, "BZ" * n, "( " * n, "BZ" * n, comp(n + 4))
        yield "$( stack $) " + W + I + "t $p |- ( x $= %s $. u $p |- ( x $= ( c ) %s $." % ("fx " * n, "A" * n)
        yield "$( words $) " + W + I + "$( %s (Contributed by A, 1-Jan-2020.) $) t $p |- ( x $= fx c $." % " ".join(("word", "~ c", "` ( x `", "_em_", "[R]", "http://u")[i % 6] for i in R)
        yield "$( one word $) " + W + I + "$( %s ~ %s ` %s ` [%s] $) t $p |- ( x $= fx c $. $( %s $)" % (("b" * n,) * 5)
        yield "$( header $) " + W + "$(\n#*#*#*\n %s\n#*#*#*\n %s\n$)\n" % ("T" * n, "d " * n) + I + "t $p |- ( x $= fx c $."
        yield "$( typesetting $) " + W + I + "$( $t %s $) t $p |- ( x $= fx c $." % " ".join('htmldef "%s" as "%s"; althtmldef "%s" as "%s"; latexdef "%s" as "%s";' % ((t, "z" * n) * 3) for t in ("(", "x", "w", "|-", "y"))
        yield "$( white space $) " + W + I + "t $p %s |- ( %s x $= %s fx %s c $. %s" % (" " * n, "\n" * n, " " * n, "\n" * n, " " * n)
        if n <= 300:
            yield "$( statements $) " + W + I + "".join("t%d $p |- ( x $= fx c $. " % i for i in R)

def comp(k):
    """the k-th compressed-proof number"""
    k -= 1
    s = chr(65 + k % 20); k //= 20
    while k:
        k -= 1
        s = chr(85 + k % 5) + s; k //= 5
    return s

def f_includes(deep):
    """n files read one after the other, and each by the one before"""
    for n in list(range(1, 30)) + [39, 40, 41, 42, 43, 59, 60, 61, 62, 63, 100]:
        yield {"f.mm": " ".join("$[ i%d.mm $]" % i for i in range(n)) + " a0 $a c0 $.", **{"i%d.mm" % i: "$c c%d $." % i for i in range(n)}}
        yield {"f.mm": " ".join("$[ i%d.mm $]" % i for i in range(n)) * 2 + " a0 $a c0 $.", **{"i%d.mm" % i: "$c c%d $. $[ i%d.mm $]" % (i, i + 1 if i + 1 < n else 0) for i in range(n)}}
        yield {"f.mm": "$( $[ i0.mm $] $) $[ i0.mm $] a0 $a c0 $.", **{"i%d.mm" % i: "%s $c c%d $." % ("$[ i%d.mm $]" % (i + 1) if i + 1 < n else "", i) for i in range(n)}}
INCCMDS = ["read f.mm", "verify proof *", "show statement a0/full", "write source o.mm", "write source o.mm/split", "erase", "read o.mm", "verify proof *"]
def job_includes(xs):
    out = []
    for f in xs:
        c = INCCMDS
        v = verdict(mm.sess(c + ["exit", "y"], f, kind="asan", timeout=40.0))
        if v:
            out.append(dict(key=v[0], what=v[1], cmds=c, files=f))
    return dict(n=len(xs), viol=out, sample=str(xs[0])[:300], d=set(hash(str(x)) for x in xs))

def mk_file(deepcmds):
    def mk(x, i):
        n = "f%d.mm" % i
        return ["erase", "read %s" % n, "verify proof *", "show statement */full", "show proof */all", "show proof */compressed"] + deepcmds, {n: x}
    return mk
MARK = ["verify markup */file_skip", "show labels *", "search * \"x\"/comments", "show trace_back */all", "show usage */all", "write source o.mm/rewrap", "show statement t/html", "show statement a/alt_html"]
SIZED = ["show statement k*/tex", "show proof t/lemmon/essential", "show proof t/statement_summary", "show proof t/size", "save proof */packed", "verify proof *", "save proof */compressed/fast", "verify proof *", "save proof */explicit", "verify proof *",
         "save proof */normal", "verify proof *", "midi t", "write theorem_list", "prove t/override", "show new_proof/all", "delete all", "improve all", "assign last c/no_unify", "unify all/interactive", "q", "undo", "redo", "minimize_with */allow_new_axioms *", "save new_proof/compressed", "exit/force"]

def job_files(a):
    fam, xs = a
    bad = batch(xs, mk_file([]))
    n = len(xs)
    if fam in ("bytes", "sizes"):  # other commands when READ found no error
        good = set()
        o = mm.sess([z for i in range(len(xs)) for z in ("erase", "read f%d.mm" % i)] + ["exit"], {"f%d.mm" % i: x for i, x in enumerate(xs)}, timeout=20.0).out
        for i, part in enumerate(o.split("Metamath has been reset")[1:]):
            if "No errors were found" in part:
                good.add(i)
        ys = [x for i, x in enumerate(xs) if i in good]
        n += len(ys)
        if ys:
            bad += batch(ys, mk_file(MARK if fam == "bytes" else MARK + SIZED))
    return dict(n=n, viol=[dict(key=s, what=w, cmds=c, files=f) for s, w, c, f in bad], sample=xs[len(xs) // 2][:300], d=set(hash(x) for x in xs))

# ------------------------------------------------------------------ commands
FILES = {"f.mm": RICH, "g.txt": "x y\nabc x\n\n  z\t\xe9\n", "e.txt": "", "big.mm": BASE + "$( " + "word ~ a ` x ` " * 300 + "$) l $p |- ( x $= f f x:a i $."}
STATES = {                                       # commands that lead to the state
    "none": [],
    "db": ["read f.mm"],
    "bad": ["read e.txt", "read g.txt"],
    "pa": ["read f.mm", "prove u/override", "delete all", "assign last i"],
    "pa1": ["read f.mm", "prove t/override", "delete all"],
    "done": ["read f.mm", "prove u/override"],
    "tools": ["tools"],
}
ANSWERS = [[], [""] * 12, ["x", "1", "y", "n", "q", "", "a", "s"] * 2]
def kw_huge(l):
    """a number that only makes the program fill the disk or the memory"""
    return re.match(r"(number|insert|set undo)\b.*(2147483648|99999999999999999999)", l)
def f_cmds(deep):
    for st, tabs in (("db", (commands.MAIN,)), ("pa", (commands.PA,)), ("done", (commands.PA,)), ("pa1", (commands.PA,)), ("tools", (commands.TOOLS,)),
                     ("none", (commands.MAIN,)), ("bad", (commands.MAIN,)), ("pa", (commands.MAIN,))):
        full = deep or st in ("db", "pa", "tools")
        for t in tabs:
            for l in dict.fromkeys(commands.lines(t, deep)):
                n = len(l.split())
                if kw_huge(l):
                    continue
                if not full and (n > 4 or "/" in l) and t is commands.MAIN:
                    continue
                for a in range(3) if deep or n <= 3 else (1,):
                    yield st, l, a
    for h in commands.HELPS:
        yield "none", "help " + h, 0
        yield "tools", "help " + h, 0
    for st in STATES:
        for l in ("", "?", "/", "//", "=", "\x80", "\"", "'", "\"'", "e x", "exit extra", "!", "!x", " ", ";", "help nosuch", "(", ",", "a" * 5000, "show " * 300, "set width", "-1",
                  "help/x", "show/", "set", "=x", "b", "br", "<", ">x", "*", "show proof t/" + "all/" * 50, "\"echo\"", "'echo", "read \"f.mm", "save proof 'x", "@x"):
            for a in range(3):
                yield st, l, a

def cmd_case(x):
    st, l, a = x
    return STATES[st] + [l] + ANSWERS[a] + ["exit/force", "exit/force", "exit", "y"] * (a > 0), FILES

def job_cmds(xs):
    out = []
    for x in xs:
        c, f = cmd_case(x)
        v = verdict(mm.sess(c, f, kind="asan", timeout=40.0))
        if v:
            out.append(dict(key=v[0], what=v[1], cmds=c, files={}, line=x[1][:200], state=x[0]))
    return dict(n=len(xs), viol=out, sample=xs[len(xs) // 2], d=set(hash(x) for x in xs))

def main(c):
    deep = c.thorough
    mm.build("asan")
    tasks = [("tokens", x) for x in mm.chunks(f_tokens(deep), 40)] + [("sizes", x) for x in mm.chunks(f_sizes(deep), 6)] + [("bytes", x) for x in mm.chunks(f_bytes(deep), 25)]
    import os
    only = os.environ.get("F06", "files,cmds").split(",")
    jobs = []
    if "cmds" in only:
        jobs.append(("commands", job_cmds, mm.chunks(f_cmds(deep), 40)))
    if "files" in only:
        jobs.append(("files", job_files, tasks))
    if "files" in only or "inc" in only:
        jobs.append(("inclusions", job_includes, mm.chunks(f_includes(deep), 10)))
    for name, job, ts in jobs:
        for r in mm.pmap(job, ts, stop=c.enough):
            c.add("evaluations", r["n"]); c.add(name, r["n"]); c.distinct(r["d"])
            if r.get("sample"):
                c.sample(str(r["sample"])[:300])
            for v in r["viol"]:
                c.violation(v["key"] + (" | " + v["line"][:60] if "line" in v else ""), "%s | %s | %s" % (v["what"], v["cmds"], str(v["files"])[:400]), v)

def replay(v):
    v = v["replay"]
    w = verdict(mm.sess(v["cmds"] if "state" in v else v["cmds"] + ["exit", "y"], v["files"] or FILES, kind="asan", timeout=20.0))
    print(w or "holds")
    return 1 if w else 0
