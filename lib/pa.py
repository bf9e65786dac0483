"""Proof Assistant sessions: worlds, and reading of its listings."""
import re
import mm, systems

def goal(pre, stmt, proof="?", hyps="", label="t"):
    return pre + "\n${ %s\n%s $p %s $= %s $.\n$}\n" % (hyps, label, stmt, proof)

PROP2 = systems.PROP + """
${ a1i.1 $e |- p $. a1i $p |- ( q -> p ) $= wp wq wp wi a1i.1 wp wq ax1 mp $. $}
dup $p |- ( p -> ( q -> p ) ) $= wp wq ax1 $.
"""
# a theorem with a needlessly long proof: for MINIMIZE_WITH, EXPAND, REPLACE
LONGPF = ("wp wq wp wi wi wr wp wq wp wi wi wi wp wq dup wp wq wp wi wi wr ax1 mp")
# a system with conjunction-like concatenation for REPLACE/LET
WORLDS = {
    # name: (database, commands, number of pushes per session small)
    "mp": (goal(PROP2, "|- ( r -> ( p -> ( q -> p ) ) )"),
           ["assign last a1i", "assign last mp", "assign last dup", "assign first wp", "improve all", "delete step 4", "delete all",
            "initialize all", "initialize step 5", "let step last = '|- ( r -> ( p -> $9 ) )'", "let variable $2 = p", "unify all",
            "delete floating_hypotheses", "improve last"]),
    "min": (goal(PROP2, "|- ( r -> ( p -> ( q -> p ) ) )", LONGPF),
            ["minimize_with a1i", "expand dup", "delete step 15", "initialize user", "initialize all", "replace last a1i",
             "improve all", "assign last ax1", "minimize_with *"]),
    "sub": (goal(systems.SUB, "|- [ a , [ a , b ] ]", "?", "g1 $e |- a $. g2 $e |- b $. g3 $e |- [ [ a , b ] , [ a , b ] ] $."),
            ["assign last r2", "assign last g1", "assign first r1", "assign last g3", "improve all/depth 1", "let step last = '|- [ a , $1 ]'",
             "delete step 3", "initialize step 3", "unify all", "delete all"]),
    # every unknown step has one statement that fits: MATCH asks no question
    "match": ("""$c A B wff |- $. $v p q $. wp $f wff p $. wq $f wff q $. a1 $a wff A $. b1 $a wff B $.
${ x1 $e |- p q $. x $a |- A p q $. $}
y $a |- A B $.
t $p |- A A B $= ? $.
""",
            ["match all", "delete all", "match step 1", "delete step 1", "delete floating_hypotheses", "match all/essential_only", "unify all", "improve all"]),
}
CTRL = ["undo", "redo"]
SHOW = "show new_proof/all"
WIDE = "set width 9999"

def shown(part):
    """the listing in the output of SHOW NEW_PROOF /ALL"""
    return part.strip("\n")

def canon(s):
    """working variables numbered in order of appearance"""
    m = {}
    return re.sub(r"\$(\d+)", lambda x: m.setdefault(x.group(1), "$<%d>" % len(m)), s)

def steps(listing):
    """lines of SHOW NEW_PROOF /ALL (wide) -> [(no, hyp, src, type, target, [source], [user])]"""
    r = []
    for l in listing.split("\n"):
        if not l.strip():
            continue
        m = re.match(r"\s*(\d+)\s+(\S+?)(?:=(\S+))?\s+(\$[aepf?])\s+(.*)$", l)
        if m:
            r.append([int(m.group(1)), m.group(2), m.group(3), m.group(4), m.group(5).split(), None, None])
            continue
        m = re.match(r"\s*=(\S+)\s+=\s+(.*)$", l)
        if m and r:
            if m.group(1) == "(User)":
                r[-1][6] = m.group(2).split()
            else:
                r[-1][2] = m.group(1) if r[-1][2] is None else r[-1][2]
                r[-1][5] = m.group(2).split()
            continue
        raise ValueError("cannot read listing line %r" % l)
    return r
