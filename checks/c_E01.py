"""TOOLS commands transform files as documented.

Every file of up to a few lines over a set of lines chosen to exercise the
commands, with every combination of argument values of every command, is run
through the real TOOLS; the complete directory afterwards (the output file, its
previous version under ~1, and nothing else) and the printed counts are compared
with a reference written from the help texts."""
import itertools, re
import mm

LEVEL = "exploration"

# ------------------------------------------------------------- the reference
def edit(s, letters):
    """CLEAN"""
    q = "Q" in letters
    bl = " \t"
    if "B" in letters: s = s.lstrip(bl)
    def chars(s, f):
        o, inq = [], False
        for ch in s:
            if q and ch in "\"'": inq = not inq
            o.append(ch if inq else f(ch))
        return "".join(o)
    if "D" in letters: s = chars(s, lambda c: "" if c in bl else c)
    if "P" in letters: s = chars(s, lambda c: chr(ord(c) & 127))
    if "G" in letters: s = chars(s, lambda c: "" if c in "\r\f\x1b\b" else c)
    if "C" in letters: s = chars(s, lambda c: c.upper() if "a" <= c <= "z" else c)
    if "L" in letters: s = chars(s, lambda c: c.lower() if "A" <= c <= "Z" else c)
    if "V" in letters:
        t = {}
        for k in (234, 235, 236, 237, 218, 217, 191, 192): t[chr(k)] = "+"
        for k in (241, 196): t[chr(k)] = "-"
        for k in (248, 166, 179): t[chr(k)] = "|"
        s = chars(s, lambda c: t.get(c, c))
    if "E" in letters: s = s.rstrip(bl)
    if "R" in letters:
        o, inq, b = [], False, False
        for ch in s:
            if q and ch in "\"'": inq = not inq
            if inq or ch not in bl:
                o.append(ch); b = False
            elif not b:
                o.append(" "); b = True
        s = "".join(o)
    if "U" in letters: s = s.expandtabs(8)
    return s

def find(s, m, start=0):
    return s.find(m, start)

def lines_of(t):
    l = t.split("\n")
    if l[-1] == "": l.pop()
    return l

def transform(cmd, a, ls):
    """-> output lines (a list), or a function that judges them"""
    if cmd == "add":
        return [a[0] + l + a[1] for l in ls]
    if cmd == "tag":
        beg, end, sm, sn, em, en = a
        o, seen, state, ends = [], 0, 0, 0
        for l in ls:
            if state == 0 and sm in l:
                seen += 1
                if seen == sn: state = 1
            if state == 1:
                o.append(beg + l + end)
                if em in l:
                    ends += 1
                    if ends == en: state = 2
            else:
                o.append(l)
        return o
    if cmd == "delete":
        o = []
        for l in ls:
            p = 0 if a[0] == "" else find(l, a[0])
            q = -1 if p < 0 else len(l) if a[1] == "" else find(l, a[1], p)
            o.append(l if q < 0 else l[:p] + (l[q + len(a[1]):] if a[1] else ""))
        return o
    if cmd == "clean":
        let = [x.upper() for x in (a[0] or "b,e,r").split(",")]
        if "T" in let:
            def ok(out, let=let):
                if len(out) != len(ls): return False
                for l, r in zip(ls, out):
                    e = edit(l, let).expandtabs(8)
                    if r.expandtabs(8) != e: return False
                    col = 0; run = 0
                    for i, ch in enumerate(r):
                        if ch == "\t": col = (col // 8 + 1) * 8; run = 0
                        else:
                            col += 1; run = run + 1 if ch == " " else 0
                        if col % 8 == 0:
                            if run >= 2 and ch == " " and i + 1 < len(r): return False
                            run = 0
                return True
            return ok
        return [edit(l, let) for l in ls]
    if cmd in ("substitute", "s"):
        old, new, occ, m = a
        nl = new == "\\n"
        if nl: new = "\n"
        if "\\n" in old:
            o, i = [], 0
            while i < len(ls):
                if (m == "" or m in ls[i]) and i + 1 < len(ls):
                    j = ls[i] + "\\n" + ls[i + 1]
                    p = find(j, old)
                    if p >= 0:
                        o.append(j[:p] + new + j[p + len(old):]); i += 2
                        continue
                o.append(ls[i]); i += 1
            return lines_of("".join(l + "\n" for l in o))
        o = []
        for l in ls:
            if m != "" and m not in l:
                o.append(l); continue
            if occ == "ALL":
                o.append(l.replace(old, new))
            else:
                # occurrences are counted as they stand, overlapping ones included
                p, c = -1, 0
                while True:
                    p = find(l, old, p + 1)
                    if p < 0: break
                    c += 1
                    if c == occ:
                        l = l[:p] + new + l[p + len(old):]
                        break
                o.append(l)
        return lines_of("".join(l + "\n" for l in o))
    if cmd == "swap":
        o = []
        for l in ls:
            p = find(l, a[0])
            o.append(l if p < 0 else l[p + len(a[0]):] + a[0] + l[:p])
        return o
    if cmd == "insert":
        s, n = a
        return [l.ljust(n - 1)[:n - 1] + s + l.ljust(n - 1)[n - 1:] for l in ls]
    if cmd == "break":
        o = []
        for l in ls:
            for ch in a[0] or "()[],=:;{}":
                l = l.replace(ch, " " + ch + " ")
            o += re.split("[ \t]+", l.strip(" \t")) if l.strip(" \t") else []
        return o
    if cmd == "build":
        toks = [l for l in ls if l]
        def ok(out):
            if " ".join(toks) != " ".join(out): return False
            if not toks: return out == []
            # greedy within one width
            i, lines = 0, []
            for l in out:
                k = i; t = toks[i]; i += 1
                while t != l:
                    if len(t) > len(l) or i >= len(toks): return False
                    t += " " + toks[i]; i += 1
                lines.append((k, i))
            widths = [len(l) for l, (k, j) in zip(out, lines) if j - k > 1]
            next_ = [len(out[n]) + 1 + len(toks[lines[n][1]]) for n in range(len(out) - 1)]
            return max(widths, default=0) < min(next_, default=999) and max(widths, default=0) <= 80 and min(next_, default=999) > 72
        return ok
    if cmd == "match":
        return [l for l in ls if ((a[0] in l) if a[0] else l != "") == (a[1] == "Y")]
    if cmd == "sort":
        def key(l):
            p = find(l, a[0]) if a[0] else 0
            return l[max(p, 0):]
        def ok(out):
            return sorted(out) == sorted(ls) and [key(l) for l in out] == sorted(key(l) for l in ls)
        return ok
    if cmd == "unduplicate": return sorted(set(ls))
    if cmd == "duplicate": return sorted(l for l in set(ls) if ls.count(l) > 1)
    if cmd == "unique": return sorted(l for l in set(ls) if ls.count(l) == 1)
    if cmd == "reverse": return ls[::-1]
    if cmd == "right":
        w = max(map(len, ls), default=0)
        return [l.rjust(w) for l in ls]
    raise KeyError(cmd)

# ------------------------------------------------------------------ the space
PLAIN = ["", "a", "ab", "b a", "aab aa", " b\ta  "]
WIDE = ["(a=b)", "x,y;[z]:{w}", "\"a  b\"  c", "a\"b  c\"d  e", "aXb", "\x81\xe1 \xea\xf1\xf8", "a\rb\x08\x0c\x1b", "        x        y       z", "        \tx  \ty ", "12.5 -3",
        "a" * 72 + " b", "b" * 90, "ab" * 36, "7", "ba", "aaa", "'a  b' c"]

def argsets(cmd, deep):
    S = ["", "x", " "]
    if cmd == "add": return [(x, y) for x in S + ["a b"] for y in S + ["'"]]
    if cmd == "tag": return [(b, e, sm, sn, em, en) for b, e in (("<", ""), ("", ">"), ("<", ">")) for sm in ("", "a", "b") for sn in (1, 2, 3) for em in ("", "b", "a") for en in (1, 2)]
    if cmd == "delete": return list(itertools.product(["", "a", "b", "ab", " "], repeat=2))
    if cmd == "clean":
        L = "dberqtupgclv"
        r = [("",)] + [(x,) for x in L] + [(x + "," + y,) for x, y in itertools.combinations(L, 2) if x + y != "cl"] + [("B,E,R,Q",), ("r,q,b",), ("u,r",), ("b,e,r,c",), ("d,g,p",)]
        return r
    if cmd == "substitute": return [(o, n, k, m) for o in ("a", "ab", "aa", " ", "\\n", "a\\n") for n in ("", "b", "aa", "\\n") for k in (1, 2, "ALL") for m in ("", "b")]
    if cmd == "swap": return [("a",), ("b",), ("ab",), (" ",)]
    if cmd == "insert": return [(s, n) for s in ("!", "xy", " ") for n in (1, 2, 3, 5, 9)]
    if cmd == "break": return [("",), (" ",), ("a",), ("(;",), ("ab",), ("aa",)]
    if cmd == "match": return [(s, y) for s in ("", "a", "ab", " ") for y in "YN"]
    if cmd == "sort": return [("",), ("a",), ("b",), (" ",)]
    return [()]

CMDS = ["add", "tag", "delete", "clean", "substitute", "swap", "insert", "break", "build", "match", "sort", "unduplicate", "duplicate", "unique", "reverse", "right"]

def q(s):
    s = str(s)
    return "'" + s + "'" if '"' in s else '"' + s + '"'

def text(ls, final=True):
    t = "".join(l + "\n" for l in ls)
    return t if final or not t else t[:-1]

def cases(deep):
    def files(k, pool):
        for n in range(k + 1):
            yield from itertools.product(pool, repeat=n)
    for cmd in CMDS:
        args = argsets(cmd, deep)
        for a in args:
            if cmd == "clean":
                for w in PLAIN + WIDE:
                    yield cmd, a, (w,), True
                yield cmd, a, ("a", " b  "), False
                yield cmd, a, tuple(PLAIN + WIDE), True
                continue
            k = 4 if deep and len(args) < 10 else 3 if len(args) < 30 or deep else 2
            for f in files(k, PLAIN):
                # (a line that is empty and not ended is no line)
                yield cmd, a, f, not (len(f) == 2 and f[-1] and len(args) < 80)
            for w in WIDE:
                yield cmd, a, (w,), True
                yield cmd, a, ("a", w, w, "b"), True
    pool = ["a", "b" * 5, "c" * 30, "", "d" * 71, "e" * 72, "f" * 73, "g" * 80]
    for f in files(5 if deep else 4, pool):
        yield "build", (), f, True
    for n in list(range(60, 80)):
        yield "build", (), tuple(["x"] * n), True
        yield "build", (), ("y" * n, "zz", "w" * 40), True
    # the length of the read buffer
    for n in (9998, 9999, 10000, 10001, 19999, 20000, 20001):
        for f in (("z" * n,), ("z" * n, "a"), ("a", "z" * n, "b")):
            for fin in (True, False):
                yield "add", ("<", ">"), f, fin
                yield "reverse", (), f, fin
                yield "insert", ("!", 10000), f, fin

def job(batch):
    """all commands of a batch in one session, each on its own file"""
    files, cmds, exp = {}, ["tools"], {}
    for i, (cmd, a, ls, fin) in enumerate(batch):
        n = "f%d" % i
        files[n] = text(ls, fin)
        if cmd == "substitute" and i % 2: cmd_ = "s"
        else: cmd_ = cmd
        # one case in four answers the questions instead
        if i % 4 == 3 and all(str(x) == str(x).strip() for x in a):
            cmds.append("\n".join([cmd_, n] + [str(x) for x in a]))
        else:
            cmds.append(" ".join([cmd_, n] + [q(x) for x in a]))
    cmds += ["exit", "exit"]
    r = mm.sess(cmds, files, timeout=30)
    ls_ = mm.server().ls()
    bad, seen = [], set()
    if r.crashed:
        bad.append(("crash", "session of %d TOOLS commands ends with status %d" % (len(batch), r.status), dict(cmds=cmds, files=files)))
    for i, (cmd, a, ls, fin) in enumerate(batch):
        n = "f%d" % i
        old, new = ls_.pop(n + "~1", None), ls_.pop(n, None)
        t = transform(cmd, a, list(ls))
        want = None
        if new is None or (new and not new.endswith("\n")): ok = False
        elif callable(t): ok = t(lines_of(new))
        else:
            want = text(t); ok = new == want
        if not ok or old != files[n]:
            bad.append((cmd, "%s gives %r from %r%s%s" % (cmds[i + 1], new and new[:300], files[n][:300], ", expected %r" % want[:300] if want is not None and not ok else "", "" if old == files[n] else ", previous version %r" % (old and old[:200])),
                        dict(cmds=["tools", cmds[i + 1].replace(n, "f0"), "exit", "exit"], files={"f0": files[n]})))
        if not callable(t) and want != files[n]: seen.add(hash((cmd, a, ls)))
    if ls_:
        bad.append(("extra-files", "files left behind: %s" % sorted(ls_), dict(cmds=cmds, files=files)))
    return len(batch), seen, bad

# --------------------------------------- commands with several files or output
def others(deep):
    F = [text(f) for n in range(4) for f in itertools.product(["", "a", "12", "b -3.5 a"], repeat=n)]
    for f in F:
        for s in ("a", "b", "ab", " ", ""):
            yield "count", (s,), (f,)
        for n in ("", "0", "1", "2", "all", "ALL", "3"):
            yield "type", (n,), (f,)
    yield "type", ("",), (text(str(i) for i in range(14)),)
    yield "type", ("all",), (text(str(i) for i in range(140)),)
    yield "type", ("all",), (text(["w" * k + " " + "v" * (100 - k) for k in (10, 60, 99)]),)
    G = [text(f) for n in range(4) for f in itertools.product(["", "a", "b c"], repeat=n)]
    for f in G:
        for g in G:
            for s in (["", "-", " | "] if deep else ["", " - "]):
                for o in ("o", "f", "g"):
                    yield "parallel", (s, o), (f, g)
    for f in G[:14]:
        for g in G[:14]:
            for l in ("f", "f,g", "g,f", "f,f", "f,g,f", "f,nofile", "nofile"):
                for o in ("o", "f", "g"):
                    yield "copy", (l, o), (f, g)
    R = range(-3, 14) if not deep else range(-12, 120)
    for x in R:
        for y in R:
            for i in (1, 2, 3, 10):
                yield "number", (x, y, i), ()
    for y in (99, 100, 101, 1000, 10001):
        yield "number", (1, y, 1), (); yield "number", (95, y, 5), ()
    for c in CMDS:
        yield "missing", (c,), ()

def num(s):
    """the numeric content of a line, as TOOLS documents it"""
    d = re.sub(r"[^0-9.\-]", "", s)
    return d

def job2(case):
    cmd, a, fs = case
    files = dict(zip("fg", fs))
    want, bad = None, []
    if cmd == "count":
        line = "count f " + q(a[0])
    elif cmd == "type":
        line = "type f" + (" " + a[0] if a[0] else "")
    elif cmd == "parallel":
        line = "parallel f g %s %s" % (a[1], q(a[0]))
        x, y = lines_of(fs[0]), lines_of(fs[1])
        want = {a[1]: text(p + a[0] + r for p, r in itertools.zip_longest(x, y, fillvalue=""))}
    elif cmd == "copy":
        line = "copy %s %s" % a
        want = {} if "nofile" in a[0] else {a[1]: "".join(files[n] for n in a[0].split(","))}
    elif cmd == "number":
        line = "number o %d %d %d" % a
        want = {"o": text(str(i) for i in range(a[0], a[1] + 1, a[2]))}
    elif cmd == "missing":
        line = " ".join([a[0], "nofile"] + [q(x) for x in argsets(a[0], False)[0]]); want = {}
    r = mm.sess(["tools", line, "exit", "exit"], files)
    o = mm.split_out(r.out)
    got = mm.server().ls()
    exp = dict(files)
    for n, t in (want or {}).items():
        if n in files: exp[n + "~1"] = files[n]
        exp[n] = t
    if r.status: bad.append("ends with status %d" % r.status)
    if got != exp: bad.append("leaves %r instead of %r" % (got, exp))
    rep = o[3] if len(o) > 3 else ""
    if cmd == "count":
        ls = lines_of(fs[0]); s = a[0] or ";"
        occ, on = sum(l.count(s) for l in ls), sum(s in l for l in ls)
        m = re.search(r"The file has (\d+) lines\.\s+The string \"(.*)\" occurs (\d+) times on (\d+) lines\.", rep)
        if not m or (int(m[1]), m[2], int(m[3]), int(m[4])) != (len(ls), s, occ, on): bad.append("says %r; the file has %d lines, %r occurs %d times on %d lines" % (rep, len(ls), s, occ, on))
        f = re.search(r"The first occurrence is on line (\d+):\n(.*)\n", rep)
        first = next((i for i, l in enumerate(ls) if s in l), None)
        if (f is None) != (first is None) or f and (int(f[1]), f[2]) != (first + 1, ls[first]): bad.append("gives the first occurrence as %r" % (f and f[0]))
        if ls and max(map(len, ls)):
            w = max(map(len, ls))
            f = re.search(r"The first longest line \(out of (\d+)\) is line (\d+) and has (\d+) characters:\n(.*)\n", rep)
            e = (sum(len(l) == w for l in ls), [len(l) for l in ls].index(w) + 1, w)
            if not f or tuple(int(f[i]) for i in (1, 2, 3)) != e or f[4] != ls[e[1] - 1]: bad.append("gives the longest line as %r, it is %r" % (f and f[0], e))
        tot = sum({"": 0, "a": 0, "12": 12, "b -3.5 a": -3.5}[l] for l in ls)
        f = re.search(r"the sum of lines is\s+(-?[\d.]+)", rep)
        if not f or float(f[1]) != tot: bad.append("gives the sum %r instead of %s" % (f and f[1], tot))
    if cmd == "type":
        ls = lines_of(fs[0])
        n = 10 if a[0] == "" else None if a[0][0] in "aA" else int(a[0])
        if max(map(len, ls), default=0) < 80:
            if rep != text(ls[:n]): bad.append("types %r instead of %r" % (rep, text(ls[:n])))
        elif "".join(rep.split()) != "".join("".join(ls[:n]).split()): bad.append("types %r" % rep)
    if cmd == "missing" and "?" not in rep: bad.append("reports nothing: %r" % rep)
    return [(cmd, "%s on %r: %s" % (line, files, "; ".join(bad)), dict(cmds=["tools", line, "exit", "exit"], files=files))] if bad else []

def job3(cs):
    r = []
    for c in cs: r += job2(c)
    return len(cs), set(hash(c) for c in cs), r

def main(c):
    allseen = set()
    def take(it):
        for n, seen, bad in it:
            c.add("evaluations", n); allseen.update(seen)
            for k, w, rep in bad: c.violation(k + ":" + w.split(" gives ")[0][:60], w, rep)
    c.sample("tag f0 \"<\" \"\" \"a\" 2 \"b\" 1 on every file of at most 2-3 lines over %r" % PLAIN)
    take(mm.pmap(job, mm.chunks(cases(c.thorough), 150), stop=c.enough))
    take(mm.pmap(job3, mm.chunks(others(c.thorough), 40), stop=c.enough))
    c.distinct(allseen)

def replay(v):
    r = mm.sess(v["replay"]["cmds"], v["replay"]["files"])
    print(r.out)
    for n, t in sorted(mm.server().ls().items()): print("---", n); print(repr(t)[:2000])
    return 0
