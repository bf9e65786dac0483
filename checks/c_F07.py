"""SHOW SETTINGS tells the state that the commands have put the program in.

Every sequence of SET (and of the other commands SHOW SETTINGS reports on) to a depth
is executed with SHOW SETTINGS after each command, and every line is compared with a
reference: a command changes the setting it is for and nothing else, an invalid value
changes nothing, and the value offered at the prompt of an incomplete command is the
one it takes.  The root directory and the contributor are also followed to where they
are used."""
import itertools, re
import mm

LEVEL = "exploration"
DB = """$( $t htmltitle "T"; htmldef "w" as "w"; htmldef "|-" as "|-"; htmldef "x" as "x"; $)
$c w |- $. $v x $. wx $f w x $.
$( An axiom.  (Contributed by N, 1-Jan-2000.) $)
ax $a |- x $.
$( Proved. $)
ok $p |- x $= wx ax $.
$( A theorem. $)
th $p |- x $= ? $.
"""
ANY = "any"
START = {"echo": "OFF", "scroll": "PROMPTED", "width": 79, "height": 24, "read": None, "root": "", "disc": "ON", "contrib": "?who?", "prove": None,
         "undo": None, "unif": None, "limit": None, "empty": "OFF", "henty": "ON", "show": None, "log": None, "tex": None, "mode": None}
PAT = {"echo": r"\(SET ECHO\.\.\.\) Command ECHO is (ON|OFF)\.", "scroll": r"\(SET SCROLL\.\.\.\) SCROLLing mode is (PROMPTED|CONTINUOUS)\.",
       "width": r"\(SET WIDTH\.\.\.\) Screen display WIDTH is (-?\d+)\.", "height": r"\(SET HEIGHT\.\.\.\) Screen display HEIGHT is (-?\d+)\.",
       "read": r'\(READ\.\.\.\) (?:No source file has been read in yet|(\d+ statements have been read from ".*"))\.',
       "root": r'\(SET ROOT_DIRECTORY\.\.\.\) Root directory is "(.*)"\.', "disc": r'\(SET DISCOURAGEMENT\.\.\.\) Blocking based on "discouraged" tags is (ON|OFF)\.',
       "contrib": r'\(SET CONTRIBUTOR\.\.\.\) The current contributor is "(.*)"\.', "prove": r'\(PROVE\.\.\.\) The statement you are proving is "(.*)"\.',
       "undo": r"\(SET UNDO\.\.\.\) The maximum number of UNDOs is (-?\d+)\.", "unif": r"\(SET UNIFICATION_TIMEOUT\.\.\.\) The unification timeout parameter is (-?\d+)\.",
       "limit": r"\(SET SEARCH_LIMIT\.\.\.\) The SEARCH_LIMIT for the IMPROVE command is (-?\d+)\.",
       "empty": r"\(SET EMPTY_SUBSTITUTION\.\.\.\) EMPTY_SUBSTITUTION is (?:not )?allowed \((ON|OFF)\)\.",
       "henty": r"\(SET JEREMY_HENTY_FILTER\.\.\.\) The Henty filter is turned (ON|OFF)\.", "show": r'\(SHOW\.\.\.\) The default statement for SHOW commands is "(.*)"\.',
       "log": r'\(OPEN LOG\.\.\.\) (?:No log file is currently open|The log file "(.*)" is open)\.', "tex": r'The (?:HTML|LaTeX) file "(.*)" is open\.',
       "mode": r"\(SHOW STATEMENT\.\.\./\[TEX,HTML,ALT_HTML\]\) Current output mode is (.*)\."}
OPTIONAL = {"prove", "show", "tex"}
NUM = {"width": "width", "height": "height", "undo": "undo", "unification_timeout": "unif", "search_limit": "limit"}
ONOFF = {"echo": "echo", "discouragement": "disc", "empty_substitution": "empty", "jeremy_henty_filter": "henty"}

def settings(txt):
    """-> dict, or a message"""
    t = re.sub(r"\n +", " ", txt)
    d = {}
    for k, p in PAT.items():
        m = re.findall("^" + p + "$", t, re.M)
        if len(m) > 1 or (not m and k not in OPTIONAL):
            return "SHOW SETTINGS has %d lines about %s:\n%s" % (len(m), k, txt)
        v = m[0] if m else None
        d[k] = int(v) if k in NUM.values() else (v or None) if k in ("read", "log") else v
    return d

def floor(k, n):
    return max(n, {"width": 3, "height": 2, "undo": 0}.get(k, n))

def step(st, cmd):
    """-> (the settings after the command, what its answer must contain)"""
    s = dict(st)
    w = cmd.split(None, 2)
    pa = s["prove"] is not None
    if w[0] == "set":
        name, arg = w[1], (w[2] if len(w) > 2 else None)
        if name in NUM:
            k = NUM[name]
            if arg is None:
                arg = str(s[k])                 # ENTER: what is offered is kept
            if not re.match(r"\d+$", arg):
                return s, "?A number was expected here."
            s[k] = floor(k, int(arg))
            if s[k] == st[k] and k == "undo":
                return s, "was not changed"
            return s, "from %d to %d" % (st[k], s[k])
        if name in ONOFF or name == "scroll":
            k = ONOFF.get(name, name)
            vals = ("PROMPTED", "CONTINUOUS") if k == "scroll" else ("ON", "OFF")
            if arg is None:
                arg = vals[1 - vals.index(s[k])]
            if arg.upper() not in vals:
                return s, "?Expected"
            s[k] = arg.upper()
            return s, ""
        if name == "contributor":
            if arg is None or arg == "''":
                return s, "from \"%s\" to \"%s\"" % (s["contrib"], s["contrib"])
            s["contrib"] = arg.strip("'\"")
            return s, "from \"%s\" to \"%s\"" % (st["contrib"], s["contrib"])
        if name == "root_directory":
            if arg is None or arg == "''":
                return s, ""
            a = arg.strip("'\"").strip(" ")
            s["root"] = a + "/" if a and a[-1] != "/" else a
            return s, "" if s["root"] == st["root"] else "from \"%s\" to \"%s\"" % (st["root"], s["root"])
        return s, "?"
    if w[0] == "read":
        if pa:
            return s, "?"
        if s["read"]:
            return s, "?Sorry"
        fn = w[1].strip("'")
        if s["root"] + fn not in FILES:
            return s, "?"
        s["read"] = "%d statements have been read from \"%s\"" % (FILES[s["root"] + fn].count("$."), fn)
        if fn == "e.mm":
            s["empty"] = "ON"
        return s, "No errors were found"
    if w[0] == "erase":
        if pa:
            return s, "?"
        if s["read"]:
            s["empty"] = "OFF"          # belongs to the database: READ may turn it on
        s["read"] = s["show"] = None
        return s, ""
    if w[0] == "prove":
        if pa:
            return s, "?"
        if not s["read"]:
            return s, "?"
        s["prove"] = w[1]
        return s, ""
    if w[0] == "exit":
        s["prove"] = None
        return s, ""
    if cmd.startswith("open log"):
        s["log"] = w[2]
        return s, ""
    if cmd == "close log":
        if not s["log"]:
            return s, "?Sorry, there is no log file currently open."
        s["log"] = None
        return s, "was closed"
    if cmd in NEUTRAL or cmd in NEUTRALPA:
        s["show"] = ANY
        if w[0] == "markup" or cmd == "write theorem_list":
            s["mode"] = ANY
        return s, ""
    if cmd.startswith("show statement"):
        l = w[2].split("/")[0]
        if not s["read"]:
            return s, "?"
        s["show"] = l
        if w[2].endswith("/html"):
            s["mode"] = "HTML"
        if w[2].endswith("/alt_html"):
            s["mode"] = "ALT_HTML"
        return s, ""
    raise Exception(cmd)

FILES = {"a.mm": DB, "d/a.mm": DB, "e.mm": DB.replace("$v x $.", "$v x $. we $a w $.")}
SETS = ["set %s %s" % (n, v) for n in NUM for v in {"width": ("200", "1000", "099", "abc"), "height": ("30", "2", "1", "0x"), "undo": ("0", "1", "50", "007", "1e1")}.get(n, ("7", "0", "1234567", "x1"))]
SETS += ["set " + n for n in NUM]
SETS += ["set %s %s" % (n, v) for n in ONOFF for v in ("on", "off")] + ["set " + n for n in ONOFF]
SETS += ["set scroll prompted", "set scroll continuous", "set echo maybe", "set scroll up"]
SETS += ["set contributor Bob", "set contributor 'Jo Anne'", "set contributor", "set contributor ''", "set root_directory d", "set root_directory 'd/'", "set root_directory ' '", "set root_directory",
         "set root_directory 'no such'", "set root_directory 'd/e'"]
OTHER = ["read a.mm", "read e.mm", "read b.mm", "erase", "prove th", "open log l.txt", "close log", "show statement ax", "show statement th/html", "show statement ax/alt_html"]
# commands that do their work and leave every setting as it was (but the default of SHOW)
NEUTRAL = ["verify proof *", "verify markup *", "write source o.mm", "write source o.mm/rewrap", "show proof th", "show proof ok/lemmon", "show usage ax", "search * 'x'", "show labels *", "show memory", "show trace_back ok",
           "show discouraged", "save proof ok/compressed", "show statement ax/full", "help set width", "show source ax", "show elapsed_time", "write theorem_list", "midi ok", "markup m.html o.html/symbols", "tools"]
NEUTRALPA = ["improve all", "improve all/depth 1", "unify all", "minimize_with *", "assign last ax", "delete all", "undo", "redo", "initialize all", "show new_proof/all", "save new_proof/compressed", "verify proof *", "write source o.mm",
             "let step 1 = 'x'", "expand ax", "initialize user", "show new_proof/unknown", "delete floating_hypotheses"]
CORE = ["set width 200", "set width", "set height 30", "set height", "set undo 1", "set undo", "set echo on", "set discouragement", "set contributor Bob", "set root_directory d", "set root_directory ' '",
        "set search_limit 7", "set unification_timeout", "set empty_substitution on", "set scroll continuous", "set jeremy_henty_filter off"]

def run(seq, pre):
    cmds, asks = ["set width 79", "set scroll continuous"] + list(pre), []
    full = cmds + list(seq)
    # a prompt needs an answer: an empty line after an incomplete command
    lines, marks = [], []
    for c in full:
        lines.append(c)
        if c == "tools":
            lines.append("exit")
        if re.match(r"set (\S+)$", c):
            lines.append("")
        lines.append("show settings")
    r = mm.sess(lines + ["exit", "exit"] + ["y", "exit"], FILES, timeout=20)
    if r.status != 0:
        return "status %d: %s" % (r.status, r.out[-400:])
    parts = re.split(r"^.*Metamath settings on .*$", re.sub(r"(?<=\n)((?:MM|MM-PA)> )?!.*\n", "", r.out), flags=re.M)
    if len(parts) != len(full) + 1:
        return "%d answers of SHOW SETTINGS instead of %d after %s: %s" % (len(parts) - 1, len(full), full, r.out[-600:])
    st = dict(START)
    st["scroll"] = "CONTINUOUS"
    first = settings(parts[1])
    if isinstance(first, str):
        return first
    for k in st:
        if st[k] is None and k in ("undo", "unif", "limit", "mode"):
            st[k] = first[k]
    for i, c in enumerate(full):
        prev = st
        st, must = step(prev, c)
        got = settings(parts[i + 1])
        if isinstance(got, str):
            return got
        ans = parts[i] if i == 0 else parts[i][parts[i].find("sizeof(short)"):]
        ans = re.sub(r"\s+", "", ans)
        if must and re.sub(r"\s+", "", must) not in ans:
            return "%r after %s says %r, without %r" % (c, full[2:i], parts[i][-300:], must)
        if not must and "?" in ans.replace("<?who?>", "").replace("?who?", "").replace(">?", "").replace("?Warning:", "") and not (c.startswith(("set", "prove")) or c == "erase" or c in NEUTRAL or c in NEUTRALPA or "show statement" in c):
            return "%r after %s says %r" % (c, full[2:i], parts[i][-300:])
        for k in st:
            if st[k] == ANY:
                st[k] = got[k]
        if got != st:
            d = ["%s is %s instead of %s" % (k, got[k], st[k]) for k in st if got[k] != st[k]]
            return "after %s: %s" % ("; ".join(full[2:i + 1]), ", ".join(d))
    return None

# ------------------------------------------------------------ where settings are used
def use_run(case):
    kind = case[0]
    if kind == "root":
        _, root, fn = case
        files = {"a.mm": "$c a $.\n", "d/a.mm": "$c a $. $c b $.\n", "d/e/a.mm": "$c a $. $c b $. $c c $.\n$c d $.\n", "d x/a.mm": "$c a $. $c b $. $c c $.\n$c d $. $c e $.\n"}
        n = {"a.mm": 1, "d/a.mm": 2, "d/e/a.mm": 4, "d x/a.mm": 5}
        pre = root.strip(" ")
        path = (pre + "/" if pre and pre[-1] != "/" else pre) + fn
        mm.server().clean()
        r = mm.sess(["set root_directory '%s'" % root, "read '%s'" % fn, "write source o.mm", "exit"], files, timeout=20, clean=False)
        o = re.sub(r"\s+", " ", r.out)
        if path in n:
            if "The source has %d statements" % n[path] not in o:
                return "with the root directory %r READ %s does not read %s: %s" % (root, fn, path, r.out[-400:])
            want = (pre + "/" if pre and pre[-1] != "/" else pre) + "o.mm"
            got = mm.server().read(want)
            if got is None or got != files[path]:
                return "with the root directory %r WRITE SOURCE o.mm does not write %s" % (root, want)
        elif "?Error" not in o and "?Sorry" not in o:
            return "with the root directory %r READ %s does not fail: %s" % (root, fn, r.out[-400:])
        return None
    if kind == "include":
        _, root, where, form = case
        files = {"d/a.mm": "$c a $. %s $c b $.\n" % (form % where), "d/i.mm": "$c i $. $c j $.\n", "i.mm": "$c i $. $c j $. $c k $.\n", "d/e/i.mm": "$c i $.\n"}
        pre = root.strip(" ") and root.strip(" /") + "/"
        r = mm.sess(["set root_directory '%s'" % root, "read '%s'" % ("d/a.mm" if not pre else "a.mm"), "exit"], files, timeout=20)
        n = files.get(pre + where, "").count("$c")
        if n and "The source has %d statements" % (n + 2) not in r.out or not n and "was not found" not in r.out:
            return "with the root directory %r the inclusion of %s is not of %s: %s" % (root, where, pre + where, r.out[-400:])
        return None
    _, names, cmd = case
    st = "?who?"
    cmds = ["read a.mm"]
    for x in names:
        cmds.append("set contributor '%s'" % x)
        if x:
            st = x
    db = DB.replace("$= ? $.", "$= wx ax $.")
    cmds += ["prove th", "improve all", "save new_proof/normal", "exit", "show statement th/comment"] if cmd == "new" else ["save proof th/normal", "show statement th/comment"]
    r = mm.sess(["set width 9999"] + cmds + ["exit", "y"], {"a.mm": DB if cmd == "new" else db}, timeout=20)
    m = re.findall(r"\(Contributed by (.*?), \d+-[A-Z][a-z][a-z]-\d+\.\)", re.sub(r"\s+", " ", mm.split_out(r.out)[-2 if cmd != "new" else -2] + mm.split_out(r.out)[-3]))
    if not m or set(m) != {st}:
        return "after %s a proof saved with SAVE %s is said to be contributed by %s: %s" % (cmds[1:1 + len(names)], cmd, m, r.out[-500:])
    return None

def use_cases():
    out = [("root", r, f) for r in ("", " ", "d", "d/", " d", "d ", "d/e", "d/e/", "d x", "no", "D") for f in ("a.mm", "d/a.mm", "e/a.mm")]
    out += [("include", r, f, g) for r in ("", " ", "d", "d/", " d", "d ") for f in ("i.mm", "e/i.mm", "d/i.mm", "d/e/i.mm") for g in ("$[ %s $]", "$( Skip $[ %s $] $)")]
    out += [("contrib", ns, c) for k in (0, 1, 2) for ns in itertools.product(("Bob", "Jo Anne", "", "O.(K)"), repeat=k) for c in ("new", "old")]
    return out

def gen(deep):
    al = SETS + OTHER
    yield from (("use", [c]) for c in use_cases())
    seqs = [(s, ()) for k in (1, 2) for s in itertools.product(al, repeat=k)]
    seqs += [(s, ("read a.mm", "prove th")) for k in (1, 2) for s in itertools.product(SETS + ["exit", "read a.mm", "erase", "open log l.txt"], repeat=k) if "exit" not in s[:-1] or deep > 1 and s[-1] != "exit"]
    seqs += [((a, b), ("read a.mm",)) for a in SETS for b in NEUTRAL] + [((a, b), ("read a.mm",)) for a in NEUTRAL for b in SETS + OTHER + NEUTRAL]
    seqs += [((a, b), ("read a.mm", "prove th")) for a in SETS for b in NEUTRALPA] + [((a, b), ("read a.mm", "prove th")) for a in NEUTRALPA for b in SETS + NEUTRALPA]
    seqs += [((a, "read a.mm", "prove th", b, "exit /force", "erase", "read e.mm", "show statement ax/html"), ()) for a in SETS for b in ("improve all", "undo", "redo") if a[-5:] not in ("such'", "'d/e'")]
    if deep > 1:
        seqs += [((a, b, d), ("read a.mm", "prove th")) for a in SETS for b in NEUTRALPA for d in NEUTRALPA]
    seqs += [(s, ()) for s in itertools.product(al if deep > 1 else CORE, repeat=3)]
    # a small page would put the questions of the pager (F05) into the listing
    seqs = [x for x in seqs if not ("set scroll prompted" in x[0] and any(re.match(r"set height [12]", y) or y in NEUTRAL or y in NEUTRALPA for y in x[0]))]
    # ERASE asks when something is not saved
    seqs = [x for x in seqs if x[0] != ("save proof ok/compressed", "erase")]
    for ch in mm.chunks(seqs, 60):
        yield "seq", ch

def job(t):
    kind, ch = t
    bad = []
    for x in ch:
        e = use_run(x) if kind == "use" else run(*x)
        if e:
            bad.append((x, e))
    return kind, len(ch), bad[:2]

def main(c):
    for kind, n, bad in mm.pmap(job, gen(2 if c.thorough else 1), stop=c.enough):
        c.add({"use": "uses", "seq": "sequences"}[kind], n)
        for x, what in bad:
            c.violation("%s:%s" % (kind, mm.digest(str(x))), what, {"family": kind, "case": x})
    c.cov["rule"] = "SHOW SETTINGS after every command of every sequence against the reference; no sampling"

def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x

def replay(v):
    r = v["replay"]
    x = tup(r["case"])
    e = use_run(x) if r["family"] == "use" else run(*x)
    if e:
        print(e)
    return 1 if e else 0
