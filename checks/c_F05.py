"""Unsaved work is never discarded silently."""
import itertools, re
import mm, systems

LEVEL = "model_checking"

DB = systems.PROP + """
${ a1i.1 $e |- p $. a1i $p |- ( q -> p ) $= wp wq wp wi a1i.1 wp wq ax1 mp $. $}
ti $p |- ( q -> ( p -> q ) ) $= wq wp ax1 $.
t $p |- ( p -> ( q -> p ) ) $= wp wq ax1 $.
b $p |- ( p -> ( q -> q ) ) $= wp wq ax1 $.
${ u.1 $e |- p $. u $p |- ( r -> ( q -> p ) ) $= ? $. $}
"""
FILES = {"a.mm": DB}
# an operation: lines typed; %d is the position (for file names)
OPS = dict(
 # main mode and Proof Assistant
 S=["save proof t/compressed"], SB=["save proof b"], SA=["save proof */normal"],
 W=["write source o%d.mm"], WN=["write source nodir/o%d.mm"], WX=["write source o%d.mm/extract t"], WK=["write source o%d.mm/keep_includes"], WR=["write source o%d.mm/rewrap"],
 WD=["write source /dev/full"],
 XN=["exit", "n"], XE=["exit", ""], XX=["quit", "x"], XY=["exit", "y"], XF=["exit/force"], QY=["quit", "Yes"], PN=["_exit_pa", "n"], PY=["_exit_pa", "y"],
 EN=["erase", "n"], EE=["erase", ""], EX=["erase", "no y"], EY=["erase", "y"], R=["read a.mm"],
 P=["prove u"], V=["verify proof *"], RO=["show proof *"],
 # Proof Assistant
 A=["assign last a1i"], B=["assign last u.1"], C=["assign last wp"], AF=["assign last b"], IM=["improve all"], IS=["improve first"], D=["delete all"], DS=["delete step 1"], DF=["delete floating_hypotheses"],
 U=["undo"], Z=["redo"], N=["save new_proof/normal"], NC=["save new_proof/compressed"], I=["initialize all"], IU=["initialize user"], L=["let step last = '|- ( q -> p )'"],
 MW=["minimize_with *"], SU=["set undo 2"], SU1=["set undo 1"], UA=["unify all"], ST=["save proof u/normal"], RP=["replace last a1i"], EP=["expand a1i"], TO=["tools", "exit"],
)
MAIN = ["S", "SB", "SA", "W", "WN", "WX", "WK", "WR", "WD", "XN", "XE", "XX", "XY", "XF", "QY", "EN", "EE", "EX", "EY", "R", "P", "V", "TO"]
PAS = ["A", "B", "C", "AF", "IM", "IS", "D", "DS", "DF", "U", "Z", "N", "NC", "I", "IU", "L", "MW", "SU", "SU1", "UA", "S", "ST", "RP", "EP", "W", "WN", "RO", "XN", "XE", "XX", "XY", "XF", "PN", "PY", "TO"]
CORE_M = ["S", "W", "WX", "XN", "P", "EY"]
CORE_P = ["A", "IM", "U", "Z", "N", "S", "W", "XN", "XY", "SU1"]
OBS = ["show new_proof/all", "show proof t/normal", "show proof u/normal", "show proof ti/normal"]
ASKX, ASKE = "Do you want to EXIT anyway", "Do you want to ERASE anyway"
NOCHANGE = re.compile(r"There is nothing to undo|There is nothing more to redo|Exceeded maximum of|No new subproofs were found|No shorter proof was found|No new unifications were made|There are no floating-hypothesis")
SAVED = re.compile(r"saved\s+internally")

def gen(depth, main, pas, first=None):
    """all sequences of the depth, following the expected mode"""
    def rec(seq, mode):
        if len(seq) == depth:
            yield tuple(seq)
            return
        for o in (main if mode == "m" else pas if mode == "p" else main + [x for x in pas if x not in main]):
            if not seq and first and o not in first:
                continue
            m = mode
            if o == "P":
                m = "p"
            elif o in ("XY", "XF", "QY", "PY"):
                if mode == "m":
                    yield tuple(seq) + (o,)
                    continue
                m = "m"
            elif o in ("XN", "XE", "XX", "PN") and mode == "p":
                m = "b"
            yield from rec(seq + [o], m)
    yield from rec([], "m")

class Bad(Exception):
    pass

def follow(seq):
    """-> (violation or None, transitions, states)"""
    cmds, at = ["set width 9999", "read a.mm"] + OBS, []
    for k, o in enumerate(seq):
        cmds += [l.replace("%d", str(k)) for l in OPS[o]] + OBS
    r = mm.sess(cmds, FILES)
    parts = mm.split_out(r.out)[4:]
    pos = [0]
    def nxt():
        if pos[0] >= len(parts):
            raise Bad("the output ends early (status %d): %s" % (r.status, r.out[-200:]))
        pos[0] += 1
        return parts[pos[0] - 1]
    def obs():
        return [nxt() for _ in OBS]
    states = set()
    trs, written = 0, []
    src, mode = False, "m"          # unsaved source; mode m / p
    cur = obs()
    orig = cur
    loaded, base, maybe, exp_u = True, None, False, cur[2]
    try:
        for k, o in enumerate(seq):
            ls = OPS[o]
            trs += 1
            here = "after %s, " % (list(seq[:k + 1]),)
            states.add((mode, src, loaded, maybe, tuple(cur)))
            if o[0] in "XQP" and o != "P" and not (o[0] == "P" and mode == "m"):
                rep = nxt()
                asked = ASKX in rep
                if mode == "m":
                    if asked != (src and loaded):
                        raise Bad(here + ("the program asks although nothing is unsaved" if asked else "the program ends without asking although the source has unsaved changes"))
                    yes = not asked or len(ls) == 1 or ls[1][:1] in "yY" and ls[1] != ""
                    if yes:
                        if pos[0] != len(parts) or r.status != 0:
                            raise Bad(here + "the program does not end: %r" % rep[-200:])
                        break
                else:
                    if not asked and cur[0] != base:
                        raise Bad(here + "the changed proof\n%swas left without a question; saved or entered was\n%s" % (cur[0], base))
                    if asked and not maybe:
                        raise Bad(here + "the program asks although the proof was not changed since it was entered or saved")
                    yes = not asked or len(ls) == 1 or ls[1][:1] in "yY" and ls[1] != ""
                    if yes:
                        mode = "m"
                    if not asked and len(ls) > 1:
                        nx = nxt()     # the answer was taken as a command
                new = obs()
                if not yes:
                    if new != cur:
                        raise Bad(here + "the answer %r does not keep everything: %r instead of %r" % (ls[1], new, cur))
                elif new[1:] != cur[1:]:
                    raise Bad(here + "leaving the Proof Assistant changes the database from %r to %r" % (cur[1:], new[1:]))
                elif not new[0].lstrip().startswith(("^", "?")):
                    raise Bad(here + "the Proof Assistant was not left")
                cur = new
                continue
            if o[0] == "E" and o != "EP":
                rep = nxt()
                asked = ASKE in rep
                if mode == "p":
                    nxt()
                    new = obs()
                    if new != cur:
                        raise Bad(here + "ERASE in the Proof Assistant has an effect")
                    continue
                if asked != (src and loaded):
                    raise Bad(here + ("ERASE asks although nothing is unsaved" if asked else "ERASE discards unsaved changes without asking"))
                yes = not asked or ls[1][:1] in "yY" and ls[1] != ""
                if not asked:
                    nxt()
                new = obs()
                if not yes and new != cur:
                    raise Bad(here + "the answer %r to ERASE does not keep everything" % ls[1])
                if yes:
                    if "?No source file" not in new[1]:
                        raise Bad(here + "the database is not erased: %r" % new)
                    src, loaded = False, False
                cur = new
                continue
            rep = "".join(nxt() for _ in ls)
            new = obs()
            c = ls[0]
            if o == "R":
                if not loaded and mode == "m":
                    if new[1:] != orig[1:]:
                        raise Bad(here + "the database read again shows %r" % new[1:])
                    loaded, src = True, False
                elif new != cur:
                    raise Bad(here + "a refused READ changes %r to %r" % (cur, new))
            elif o == "P":
                if mode == "m" and loaded:
                    mode, base, maybe = "p", new[0], False
                    if new[1:] != cur[1:]:
                        raise Bad(here + "PROVE changes the database")
                elif new != cur:
                    raise Bad(here + "a refused PROVE has an effect")
            elif o[0] == "S" and c.startswith("save"):
                if new[0] != cur[0]:
                    raise Bad(here + "SAVE PROOF changes the proof in progress")
                if SAVED.search(rep):
                    src = True
                elif new != cur:
                    raise Bad(here + "SAVE PROOF saves without saying so")
            elif o in ("N", "NC") and mode == "p":
                if not SAVED.search(rep):
                    raise Bad(here + "SAVE NEW_PROOF does not save: %r" % rep[:200])
                if new[0] != cur[0]:
                    raise Bad(here + "SAVE NEW_PROOF changes the proof in progress")
                if new[1] != cur[1] or new[3] != cur[3]:
                    raise Bad(here + "SAVE NEW_PROOF changes another proof")
                src, base, maybe = True, cur[0], False
            elif c.startswith("write"):
                # /REWRAP indents the statements anew, and the shown proofs with them
                if [x.split() for x in new] != [x.split() for x in cur]:
                    raise Bad(here + "WRITE SOURCE changes the proofs from %r to %r" % (cur, new))
                if loaded and o in ("W", "WK", "WR"):
                    if "could not" in rep or rep.lstrip().startswith("?"):
                        raise Bad(here + "WRITE SOURCE fails: %r" % rep[:200])
                    src = False
                    written.append("o%d.mm" % k)
            elif mode == "p":
                if new[1:] != cur[1:]:
                    raise Bad(here + "%r changes a proof of the database from %r to %r" % (c, cur[1:], new[1:]))
                if rep.lstrip(" ").startswith(("?", "^")):
                    if new[0] != cur[0]:
                        raise Bad(here + "%r reports an error but changes the proof" % c)
                elif c.startswith(("set", "tools", "show", "verify")):
                    if new[0] != cur[0]:
                        raise Bad(here + "%r changes the proof in progress" % c)
                    if c.startswith("set undo") and "no longer available" in rep:
                        maybe = True
                elif NOCHANGE.search(rep) and new[0] == cur[0]:
                    pass
                else:
                    maybe = True
            elif new != cur:
                raise Bad(here + "%r changes what is shown" % c)
            cur = new
        states.add((mode, src, loaded, maybe, tuple(cur)))
        have = mm.server().ls()
        for f in written:
            if f not in have:
                raise Bad("%s: the file %s was not written" % (list(seq), f))
    except Bad as e:
        return str(e), trs, states
    return None, trs, states

def job(seqs):
    viol, n, tr, states = [], 0, 0, set()
    for s in seqs:
        v, t, st = follow(s)
        n += 1; tr += t
        states |= {hash(x) for x in st}
        if v and len(viol) < 2:
            viol.append(dict(seq=list(s), what=v))
    return dict(n=n, tr=tr, states=states, viol=viol, sample=" ".join(seqs[0]))

def main(c):
    plan = [("every operation", gen(4 if c.thorough else 3, MAIN, PAS)),
            ("every operation of the Proof Assistant", gen(4, ["P"], PAS)),
            ("core operations", gen(6 if c.thorough else 5, CORE_M, CORE_P))]
    stop = lambda: c.enough()
    seen = set()
    for name, g in plan:
        todo = [s for s in g if s not in seen]
        seen |= set(todo)
        for res in mm.pmap(job, list(mm.chunks(todo, 100)), stop=stop):
            c.add("schedules", res["n"]); c.add("transitions", res["tr"]); c.distinct(res["states"])
            c.add("sequences: " + name, res["n"])
            c.sample(res["sample"])
            for v in res["viol"]:
                c.violation(mm.digest(v["what"]), v["what"], v)
    c.cov["states"] = len(c._d)
    c.cov["exhaustive"] = True
    c.cov["rule"] = "all sequences of 3 (thorough: 4) of the %d main-mode and %d Proof Assistant operations, 4 of the latter after PROVE, 5 (6) of %d core operations" % (len(MAIN), len(PAS), len(set(CORE_M + CORE_P)))

def replay(v):
    b = follow(tuple(v["replay"]["seq"]))[0]
    print(b or "holds")
    return 1 if b else 0
