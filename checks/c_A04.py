"""READ reports an error exactly for ill-formed databases."""
import itertools, re
import mm, refmm

LEVEL = "exploration"

def reference(text):
    """None if ill-formed, else (labels with types in order, counts)"""
    try:
        db = refmm.Db(text, lazy=True)
    except refmm.RefError as e:
        return None, str(e)
    n = sum(db.counts.values())
    return ([(l, db.labels[l].kind) for l in db.order],
            "The source has %d statements; %d are $a and %d are $p." % (n, db.counts.get("$a", 0), db.counts.get("$p", 0))), ""

SL = re.compile(r"(\d+)\s+(\S+)\s+(\$[aefp])")
def program(text):
    r = mm.sess(["read a.mm", "show labels * /all /linear", "exit"], {"a.mm": text})
    if r.status == 1 and "?Error" in r.out and r.out.index("?Error") < r.out.find("?BUG CHECK"):
        return None    # rejected; a sanity check fired after the error report (see DESIGN.md)
    if r.status != 0:
        return "status %d" % r.status
    o = mm.split_out(r.out)
    if len(o) < 4:
        return "short output"
    rd = o[2]
    good = "No errors were found." in rd
    bad = re.search(r"(One error was|\d+ errors were) found", rd)
    if good == bool(bad):
        return "neither accepted nor rejected: " + rd[-200:]
    if bad or "?Error" in rd:
        if good:
            return "error message, but no errors counted"
        return None
    labs = [(m.group(2), m.group(3)) for m in SL.finditer(o[3])]
    m = re.search(r"The source has .*", rd)
    return labs, m.group(0) if m else ""

def case(text):
    a, why = reference(text)
    b = program(text)
    if a is None:
        return (b is None), a, "ill-formed (%s), but the program says %r" % (why, b)
    return (a == b), a, "well-formed, %r, but the program says %r" % (a, b)

def job(texts):
    n = ok = 0
    viol = []
    for t in texts:
        good, ref, why = case(t)
        n += 1
        ok += ref is not None
        if not good and len(viol) < 3:
            viol.append(dict(text=t, what="%r: %s" % (t[-300:], why)))
    return dict(n=n, ok=ok, viol=viol, sample=texts[len(texts) // 2][-200:])

def seqs(thorough):
    A = ["$c c $.", "$c d $.", "$v x $.", "$v y $.", "fx $f c x $.", "gx $f d x $.", "fy $f c y $.", "${", "$}",
         "ex $e c x $.", "ax $a c x $.", "bx $a c y $.", "bx $p d x y $= ? $.", "$d x y $.", "x $a c $.", "e0 $e c $."]
    D = 7 if thorough else 5
    def okprefix(t):
        n = t.split().count("${") - t.split().count("$}")
        if n < 0 or n > 2:
            return None
        t += " $} " * n
        return t if reference(t)[0] is not None else None
    # declarations and uses of the same symbols in different scopes
    B = ["$c x $.", "$c c $.", "$v x $.", "$v c $.", "${", "$}", "a# $a c x $.", "a# $a x $.", "f# $f c x $.", "f# $f x c $."]
    C = ["${ $v x $. $}", "${ ${ $v x $. $} $}", "${ $v x y $. f# $f c x $.", "$c x $.", "$v x $.", "${", "$}", "$c y $.", "$v y $.", "f# $f c x $.", "f# $f d x $.",
         "f# $f c y $.", "$d x y $.", "e# $e c x y $.", "a# $a c y $."]
    for p, A, D in [(p, A, D - (p == "") * 2) for p in ["", "$c c d $. ", "$c c d $. $v x $. fx $f c x $. ", "$c c d $. $v x y $. ${ ",
              "$c c d $. $v x y $. fx $f c x $. fy $f c y $. ${ "]] + [("", B, D + 1), ("$c c d $. ", C, D - 1)]:
        front = [()]
        for k in range(D + 1):
            nxt = []
            for s in front:
                t = p + " ".join(s)
                cl = okprefix(t)
                yield t
                if cl is None:
                    n = t.split().count("${") - t.split().count("$}")
                    if n > 0:
                        yield t + " $}" * n     # not masked by the open block
                    continue                    # every extension is ill-formed
                if cl != t:
                    yield cl
                nxt += [s + (a.replace("#", str(len(s))),) for a in A]
            front = nxt

BASES = [
 "$c c d ( ) $. $v x y $. fx $f c x $. fy $f d y $. ${ $d x y $. e1 $e c x ( y ) $. t1 $a c ( x y ) $. $} t2 $p c x $= fx $. ${ $v z $. fz $f c z $. t3 $a d z $. $} t4 $a d $.",
 "$( c $) $c a $. ${ ${ $v u $. u1 $f a u $. $} $v u $. u2 $f a u $. ${ h $e a u $. p1 $p a u $= ( ) A $. $} $}",
]
def edits(thorough):
    for b in BASES:
        t = b.split()
        alpha = ["$c", "$v", "$f", "$e", "$d", "$a", "$p", "$=", "$.", "${", "$}", "$(", "$)", "c", "d", "x", "y", "z", "u", "a",
                 "fx", "t1", "new", "zz", "$x", "$", "a$b", "l*bl", "l.-_Z9", "(", "$$", "x$.", "$.x", "$:", "?"]
        out = set()
        for i in range(len(t)):
            out.add(tuple(t[:i] + t[i + 1:]))
            out.add(tuple(t[:i] + t[i:i + 1] * 2 + t[i + 1:]))
            if i + 1 < len(t):
                out.add(tuple(t[:i] + [t[i + 1], t[i]] + t[i + 2:]))
            for a in alpha:
                out.add(tuple(t[:i] + [a] + t[i + 1:]))
        for i in range(len(t) + 1):
            for a in alpha:
                out.add(tuple(t[:i] + [a] + t[i:]))
        for i in range(len(t)):          # truncations
            out.add(tuple(t[:i])); out.add(tuple(t[i:]))
        for o in sorted(out):
            yield " ".join(o)
            if thorough:
                for i in range(len(o)):
                    yield " ".join(o[:i] + o[i + 1:])
        # every move of a token range to another place (statement reorderings)
        for i in range(len(t)):
            for j in range(i + 1, min(len(t), i + (9 if not thorough else 14))):
                cut = t[i:j]; rest = t[:i] + t[j:]
                for k in range(len(rest) + 1):
                    if thorough or rest[k - 1:k] in (["$."], ["${"], ["$}"]) or k == 0:
                        yield " ".join(rest[:k] + cut + rest[k:])

def chars():
    """each byte value in each kind of position; spacing and comments at each gap"""
    for v in range(1, 256):
        if v == 11:
            continue   # vertical tab: white space to the program, unspecified elsewhere
        ch = chr(v)
        for w in (ch, "s" + ch, ch + "s", "s" + ch + "s", "s" + ch + ch + "s"):
            yield "$c %s $." % w
            yield "$c s $. %s $a s $." % w
            yield "$c s %s $. l $a s %s $." % (w, w)
            yield "$( %s $) $c s $." % w
            yield "$c s $. l $p s $= %s $." % w
            yield "$c s $. l $a s $. %s" % w
            yield "$c%ss $. l $a s%s$." % (w, w)
            yield "$c s $v $. $v %s $. f $f s %s $. m $a s %s $." % (w, w, w)
            yield "$c s $. l $a s $. $( %s $)" % w
            yield "%s $c s $." % w
    base = "$c c d $. $v x $. fx $f c x $. ${ e1 $e c x $. t1 $a c x $. $} t2 $p c x $= fx $.".split()
    seps = ["", "\n", "\t", "\r\n", "\f", "  ", " $( a $) ", "$( a $)", " $( a$) ", " $(a $) ", " $( $c d $) ", " $( $( $) ", " $( $) $) ",
            " $( a $)", "$( a $) ", " $( $[ b $] $) ", " $( a $.\n$) ", " $) ", " $( ", " $( ${ $$ $a $) $( x $) ", " $( a$( $) ", " $( a$b $) "]
    for i in range(len(base) + 1):
        for s in seps:
            yield " ".join(base[:i]) + s + " ".join(base[i:])
            for j in range(i, len(base) + 1, 5):
                yield " ".join(base[:i]) + s + " ".join(base[i:j]) + s + " ".join(base[j:])
    for s in seps:
        yield s.join(base)
        yield s
        yield s + s
    # characters inside keywords, every character after $
    for v in range(33, 127):
        yield "$c c $. $%s c $." % chr(v)
        yield "$c c $. a $%s c $." % chr(v)
        yield "$c c $. a $a c $%s b $a c $." % chr(v)
        yield "$c c $. a $p c $= a $%s b $a c $." % chr(v)
        yield "$c c $. a $p c $%s a $. b $a c $." % chr(v)
        yield "$c c $. $( $%s $) a $a c $." % chr(v)

def sizes():
    """table growth: n symbols, n labels, n nested blocks, n hypotheses"""
    for n in list(range(1, 12)) + [28, 29, 30, 31, 32, 33, 59, 60, 61, 62, 99, 100, 101, 102, 130, 131, 200, 500]:
        v = ["v%d" % i for i in range(n)]
        d = "$c c $. $v %s $. " % " ".join(v) + " ".join("f%d $f c v%d $." % (i, i) for i in range(n))
        yield d
        yield d + " a $a c %s $." % " ".join(v)
        yield d + " a $a c %s w $." % " ".join(v)
        yield d + " ${ " + " ".join("e%d $e c v%d $." % (i, i) for i in range(n)) + " a $a c $. $} e0x $a c v0 $."
        yield d + " f%d $a c $." % (n - 1)
        yield d + " v%d $a c $." % (n - 1)
        if n < 60:
            yield d + " ${ $d %s $. a $a c %s $. $}" % (" ".join(v + v[:1]), " ".join(v))
            yield d + " ${ $d %s c $. $}" % " ".join(v)
            yield d + " ${ $d %s v0x $. $}" % " ".join(v)
        yield "${ " * n + "$} " * n
        yield "${ " * n + "$} " * (n - 1)
        yield "${ " * n + "$} " * (n + 1)
        yield "$c c $. " + "".join("${ $v x $. f%d $f c x $. a%d $a c x $. " % (i, i) for i in range(1)) + "$} " + "".join("${ $v x $. f%d $f c x $. a%d $a c x $. $} " % (i, i) for i in range(1, n))
        yield "$c %s $. l $a %s $." % ("k" * n, "k" * n)
        yield "$c k $. %s $a k $." % ("l" * n)
        yield "$c k %s $. l $a k %s $." % ("j" * n, "j" * (n + 1))

def texts(thorough):
    yield from seqs(thorough)
    yield from edits(thorough)
    yield from chars()
    yield from sizes()

def main(c):
    c.cov["rule"] = ("every well-formed statement sequence up to the depth over an alphabet of 16 statements in 5 contexts and every one-statement extension of each; all token edits, "
                     "moves and truncations of two bases; each byte in each position kind; comments/white space at each gap; "
                     "table sizes. Texts are distinct; non-trivial = with a $a, $p, $e or $f.")
    seen = set()
    nt = set()
    def gen():
        for t in texts(c.thorough):
            h = hash(t)
            if h not in seen:
                seen.add(h)
                if any(k in t for k in ("$a", "$p", "$e", "$f")):
                    nt.add(h)
                yield t
    for r in mm.pmap(job, mm.chunks(gen(), 300), stop=c.enough):
        c.add("evaluations", r["n"]); c.add("well_formed", r["ok"]); c.add("ill_formed", r["n"] - r["ok"])
        c.sample(r["sample"])
        for v in r["viol"]:
            c.violation(mm.digest(v["text"]), v["what"], v)
    c.cov["distinct_nontrivial"] = len(nt)
    c.cov["exhaustive"] = True

def replay(v):
    g, a, why = case(v["replay"]["text"])
    print("agree" if g else why)
    return 0 if g else 1
