"""Abbreviated commands mean exactly the full command."""
import itertools, re
import mm, commands
from units import DB, FILES

LEVEL = "exploration"

# every keyword of the command language, by mode and position
TOP = {"m": "dbg help read write prove show search save submit open close set file beep exit quit erase verify markup more tools midi",
       "p": "dbg help write show search save submit open close set file beep exit _exit_pa quit verify initialize assign replace let unify improve minimize_with expand match delete undo redo markup more tools midi",
       "t": "help submit add delete substitute s swap clean insert break build match sort unduplicate duplicate unique reverse right parallel number count copy c type t tag update beep b exit quit"}
SECOND = {"help": "language proof_assistant mm-pa beep exit quit read erase open close show search set verify submit system prove file write markup assign replace match unify let initialize delete improve minimize_with expand undo redo save demo invoke cli explore tex latex html comments bibliography more tools midi",
          "help open": "log tex", "help close": "log tex", "help show": "memory settings labels source statement proof new_proof usage trace_back elapsed_time discouraged",
          "help set": "echo scroll width height undo unification_timeout discouragement contributor root_directory empty_substitution search_limit jeremy_henty_filter",
          "help verify": "proof markup", "help write": "source theorem_list bibliography recent_additions", "help file": "search", "help save": "proof new_proof",
          "write": "source theorem_list bibliography recent_additions", "open": "log tex", "close": "log tex", "file": "search",
          "show": "settings memory elapsed_time discouraged labels statement source proof trace_back usage",
          "set": "echo scroll width height undo unification_timeout discouragement contributor root_directory empty_substitution search_limit jeremy_henty_filter memory_status debug",
          "save": "proof", "verify": "proof markup", "match": "step all", "initialize": "step all user", "unify": "step all", "delete": "step all floating_hypotheses", "let": "step variable",
          "set echo": "on off", "set discouragement": "on off", "set memory_status": "on off", "set jeremy_henty_filter": "on off", "set empty_substitution": "on off", "set scroll": "continuous prompted"}
SECOND_P = {"show": SECOND["show"] + " new_proof", "save": "proof new_proof"}
HELP_T = "add delete substitute s swap clean insert break build match sort unduplicate duplicate unique reverse right parallel number count type t tag update beep b exit quit copy c submit system cli"
ALIAS = dict(s="substitute", t="type", c="copy", b="beep")     # tools: one letter stands for a command
ALL_SHOW = ["show settings", "show labels *", "show proof t/normal", "show proof i/normal", "close log", "close tex"]
OBS = {"m": ALL_SHOW, "p": ["show new_proof/all"] + ALL_SHOW, "t": ["type g.txt all", "type h.txt all", "exit"] + ALL_SHOW}
PRE = {"m": ["read f.mm"], "p": ["read f.mm", "prove t", "delete step 10", "assign last i"], "t": ["read f.mm", "tools"]}
VALUES = {("read", 0): "f.mm", ("submit", 0): "c.cmd", ("let step", 2): "\"|- ( z -> x )\"", ("let step", 0): "last", ("let variable", 0): "\"$1\"",
          ("search", 1): "\"( x\"", ("write bibliography", 0): "mmbiblio.html", ("write recent_additions", 0): "r.html", ("replace", 1): "i", ("assign", 0): "last", ("assign", 1): "a",
          ("write source", 0): "o.x", ("minimize_with", 0): "*", ("expand", 0): "i", ("delete step", 0): "5", ("improve", 0): "all", ("replace", 0): "last", ("set width", 0): "60"}
LONG_SWITCH = {"from_line": "1", "to_line": "2", "from_step": "2", "to_step": "4", "depth": "2", "detailed_step": "5", "start_column": "30", "extract": "t", "theorems_per_page": "5",
               "limit": "3", "match": "a", "to": "a", "parameter": "x", "except": "nolabel", "forbid": "nolabel", "max_essential_hyp": "2"}

def table():
    """(mode, [tokens], indices of keyword tokens)"""
    for mode, tab in (("m", commands.MAIN), ("p", commands.PA + [x for x in commands.MAIN if x[0].split()[0] in TOP["p"].split() and x[0] not in ("prove", "read", "erase")]), ("t", commands.TOOLS)):
        for kw, args, sws in tab:
            if kw == "submit" and mode == "t":
                VAL = ["t.cmd"]
            else:
                VAL = [VALUES.get((kw, i), a[0] if isinstance(a, tuple) else commands.good(a)) for i, a in enumerate(args)]
            if kw == "update":
                VAL = ["g.txt", "h.txt", "o.x", "\"/* #1 */\"", "1"]
            if kw == "parallel":
                VAL[1] = "h.txt"
            if kw == "copy":
                VAL[0] = "g.txt,h.txt"
            closed = [isinstance(a, tuple) and a[0] != "=" for a in args]
            base = kw.split() + VAL
            keys = list(range(len(kw.split()))) + [len(kw.split()) + i for i, x in enumerate(closed) if x]
            yield mode, base, keys
            for i, x in enumerate(closed):      # the other values of a closed list
                if x:
                    for v in args[i][1:]:
                        if v:
                            b = list(base); b[len(kw.split()) + i] = v
                            yield mode, b, keys
            for s, sa in sws.items():
                yield mode, base + ["/", s] + [LONG_SWITCH.get(s, commands.good(a)) for a in sa], keys + [len(base) + 1]
    for h in commands.HELPS:
        yield "m", ["help"] + h.split(), list(range(1 + len(h.split())))
    for h in HELP_T.split():
        yield "t", ["help", h], [0, 1]

def alts(mode, tokens, i):
    """the keywords possible at token i"""
    if i == 0:
        return TOP[mode].split()
    if tokens[i - 1] == "/":
        for tab in (commands.PA if mode == "p" else commands.MAIN if mode == "m" else commands.TOOLS, commands.MAIN):
            sw, found = set(), False
            for kw, args, sws in tab:
                if tokens[:len(kw.split())] == kw.split():
                    sw |= set(sws); found = True
            if found:
                return sorted(sw)
    k = " ".join(tokens[:i])
    if mode == "t" and k == "help":
        return HELP_T.split()
    if mode == "p" and k in SECOND_P:
        return SECOND_P[k].split()
    return SECOND[k].split() if k in SECOND else [tokens[i]]

def meaning(w, ks):
    """the keyword meant by w (any case), or None (unknown or ambiguous)"""
    w = w.lower()
    if w in ks:
        return w
    m = [k for k in ks if k.startswith(w)]
    return m[0] if len(m) == 1 else None

def norm(t):
    t = re.sub(r"\d+\.\d+( s\b| sec)", "N\\1", t)
    t = re.sub(r"\d+[:-]\w+[:-]?\d*( [AP]M)?", "N", t)
    t = re.sub(r"(?m)^ *\^+$", "^", t)
    t = re.sub(r"(?m)^ *(Pool:|poolTotal|Memory:|Pool).*", "", t)
    return re.sub(r"[Mm]emory:? .*|\d+ bytes.*|Total .*", "", t)

RUNS = {}
def run(mode, lines):
    """-> (reply to the lines, replies to the observers, files)"""
    cmds = ["set width 9999"] + PRE[mode] + lines + OBS[mode]
    r = mm.sess(cmds, FILES)
    parts = mm.split_out(r.out)
    k = 3 + len(PRE[mode])
    no = len(OBS[mode])
    files = {f: norm(mm.server().read(f)) for f in mm.server().ls() if not f.startswith("f.mm")}
    return norm("".join(parts[k:])), r.status, files, parts, k

def full(mode, line):
    if (mode, line) not in RUNS:
        RUNS[mode, line] = run(mode, [line] if line is not None else [])
    return RUNS[mode, line]

def line(tokens, tight=True):
    out = ""
    for i, t in enumerate(tokens):
        out += t if t == "/" and tight or out.endswith("/") and tight or not out else " " + t
    return out

def check_abbrev(mode, tokens, words):
    """words: tokens with some keywords replaced"""
    exp, known = list(tokens), True
    for i, w in enumerate(words):
        if w != tokens[i]:
            m = meaning(w, alts(mode, exp[:i] + tokens[i:], i))
            if m is None:
                known = False
                break
            if m != tokens[i] and not (mode == "t" and ALIAS.get(m) == tokens[i]):
                return "skip"          # means another command: covered there
    got = run(mode, [line(words)])
    if known:
        want = full(mode, line(tokens))
        rep = "".join(want[3][want[4]:want[4] + 1])
        if re.search(r"(?m)^ *\^+\n\?(Expected|Ambiguous)|^\?(Expected|Ambiguous)", rep) or tokens[0] == "help" and len(rep) < 9:
            return "%r is not understood: %r" % (line(tokens), rep[:300])
        if got[:3] != want[:3]:
            return "%r does not do what %r does: %s" % (line(words), line(tokens), diff(got, want))
        return None
    ref = full(mode, None)
    rep = "".join(got[3][got[4]:got[4] + 1])
    if "?" not in rep or "?This command has not been impl" in rep:
        return "%r is accepted although %r is unknown or ambiguous: %r" % (line(words), words[i], rep[:200])
    rest = norm("".join(got[3][got[4] + 1:]))
    if rest != ref[0] or got[1:3] != ref[1:3]:
        return "%r is rejected but has an effect: %s" % (line(words), diff((rest,) + got[1:3], ref))
    return None

def diff(a, b):
    if a[1] != b[1]:
        return "status %d / %d; %r" % (a[1], b[1], a[0][-200:])
    for f in sorted(set(a[2]) | set(b[2])):
        if a[2].get(f) != b[2].get(f):
            return "file %s: %r / %r" % (f, (a[2].get(f) or "")[:200], (b[2].get(f) or "")[:200])
    la, lb = a[0].split("\n"), b[0].split("\n")
    for x, y in itertools.zip_longest(la, lb):
        if x != y:
            return "output %r / %r" % (x and x[:200], y and y[:200])

def variants(w, deep):
    """ways to type a keyword: every prefix, in several cases, and unknown words"""
    out = []
    for n in range(1, len(w) + 1):
        p = w[:n]
        out += [p, p.upper()]
        if deep:
            out += [p.capitalize(), p[:-1] + p[-1].upper()]
    bad = [w + "x", w + "_", "x" + w, "@", w[:-1] + "\x7f"]
    if len(w) > 2:
        bad += [w[1:], w[:1] + w[2:], w[::-1], w[:-1] + w[-2]]
    return out, bad

def answers(mode, tokens, cut):
    """the answers to the questions for the tokens from cut; None if the program
    does not ask (the rest is optional)"""
    if tokens[cut] == "/" or tokens[0] == "help" and cut == 1 or tokens[0] in ("type", "t") and cut == 2:
        return None
    out = []
    for i in range(cut, len(tokens)):
        if tokens[0] in ("type", "t") and i == 2:
            return None
        a = alts(mode, tokens, i) if i in KEYS(mode, tokens) or tokens[i - 1] == "/" or tokens[i] == "=" else None
        if a is not None and len(a) == 1:
            continue                   # the only possibility: not asked for
        t = tokens[i]
        out.append(t[1:-1] if t[:1] == "\"" else t)
    return out

def KEYS(mode, tokens):
    """positions of keywords (other than switches)"""
    k = [0]
    for i in range(1, len(tokens)):
        j = " ".join(tokens[:i])
        if j in SECOND and not (mode == "t") or tokens[0] == "help":
            k.append(i)
    return k

def check_asked(mode, tokens, cut, tailblank):
    """the first tokens on the command line, the rest as answers"""
    ans = answers(mode, tokens, cut)
    if ans is None:
        return None, None
    return run(mode, [line(tokens[:cut])] + ans + [""] * tailblank), full(mode, line(tokens))

def interactive(mode, tokens, cut):
    got, want = check_asked(mode, tokens, cut, 2)
    if got is None:
        return "skip"
    parts, k = got[3], got[4]
    n = len(OBS[mode])
    # replies that come before the observers' replies
    body = parts[k:len(parts) - n]
    wbody = want[3][want[4]:len(want[3]) - n]
    if got[1] != want[1]:
        return "status %d instead of %d" % (got[1], want[1])
    if want[1] != 0 or len(want[3]) < k + n:
        return None
    if norm("".join(parts[len(parts) - n:])) != norm("".join(want[3][len(want[3]) - n:])) or got[2] != want[2]:
        return "%r answered with %r does not have the effect of %r: %s" % (line(tokens[:cut]), tokens[cut:], line(tokens),
            diff((norm("".join(parts[len(parts) - n:])),) + got[1:3], (norm("".join(want[3][len(want[3]) - n:])),) + want[1:3]))
    wl = [x for x in norm("".join(wbody)).split("\n") if x.strip() and x.strip() != "^"]
    gl = norm("".join(body)).split("\n")
    pos = 0
    for x in wl:
        while pos < len(gl) and not gl[pos].endswith(x):
            pos += 1
        if pos == len(gl):
            return "%r answered with %r does not print %r" % (line(tokens[:cut]), tokens[cut:], x)
        pos += 1
    return None

def cases(deep):
    for mode, tokens, keys in table():
        words = [variants(tokens[i], deep) for i in keys]
        seen = set()
        # one keyword at a time, everything; pairs (product) of valid prefixes
        for j, i in enumerate(keys):
            for w in words[j][0] + words[j][1]:
                ws = list(tokens); ws[i] = w
                seen.add(tuple(ws))
        for i, t in enumerate(tokens):
            if mode == "p" and i and i not in keys and t in ("first", "last", "all"):
                for w in variants(t, deep)[0]:
                    ws = list(tokens); ws[i] = w
                    seen.add(tuple(ws))
        lim = 60 if deep else 3
        pre = [[w for n, w in enumerate(v[0]) if n % (4 if deep else 2) == 0] for v in words]
        short = [[w for w in p if meaning(w, alts(mode, tokens, keys[j])) == tokens[keys[j]]] for j, p in enumerate(pre)]
        # all keywords cut at once: the product of the shortest forms
        for combo in itertools.product(*[s[:lim] for s in short]):
            ws = list(tokens)
            for i, w in zip(keys, combo):
                ws[i] = w
            seen.add(tuple(ws))
        seen.discard(tuple(tokens))
        for ws in sorted(seen):
            yield "abbrev", mode, tokens, list(ws)
        yield "space", mode, tokens, None
        for cut in range(1, len(tokens)):
            yield "ask", mode, tokens, cut

def one(kind, mode, tokens, x):
    if kind == "abbrev":
        v = check_abbrev(mode, tokens, x)
        return None if v == "skip" else v, v == "skip"
    if kind == "ask":
        v = interactive(mode, tokens, x)
        return None if v == "skip" else v, v == "skip"
    a, b = run(mode, ["  " + "   ".join(tokens) + " "]), full(mode, line(tokens))
    return ("%r typed with other spacing: %s" % (line(tokens), diff(a, b)) if a[:3] != b[:3] else None), False

def job(cs):
    viol, n, skip = [], {}, 0
    for c in cs:
        v, s = one(*c)
        if s:
            skip += 1
            continue
        n[c[0]] = n.get(c[0], 0) + 1
        if v and len(viol) < 3:
            viol.append(dict(case=list(c), what=v))
    RUNS.clear()
    return dict(n=n, viol=viol, sample="%s %s" % (cs[0][1], line(cs[0][3]) if isinstance(cs[0][3], list) else cs[0][2]))

def main(c):
    todo = list(cases(c.thorough))
    # keep the cases of one command together (the full form is run once)
    groups = [list(g) for _, g in itertools.groupby(todo, key=lambda x: (x[1], tuple(x[2])))]
    for res in mm.pmap(job, groups, stop=c.enough):
        for k, n in res["n"].items():
            c.add({"abbrev": "abbreviations", "ask": "commands completed by answers", "space": "spacings"}[k], n)
            c.add("evaluations", n)
        c.sample(res["sample"])
        for v in res["viol"]:
            c.violation(mm.digest(v["what"]), v["what"], v)
    c.cov["commands"] = len(groups)
    c.cov["exhaustive"] = True
    c.cov["rule"] = ("every command of the three modes with each of its switches; every prefix of every keyword in lower and upper case (thorough: also mixed), unknown words made from each keyword, "
                     "products of prefixes of all keywords of a command; every way to cut a command and give the rest as answers")

def replay(v):
    r = v["replay"]["case"]
    b = one(*r)[0]
    print(b or "holds")
    return 1 if b else 0
