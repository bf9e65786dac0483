"""Reference reader of every proof format -> the plain list of steps."""
import re
import refmm
from refmm import RefError

def nhyp(db, l):
    s = db.labels[l]
    return 0 if s.kind in ("$e", "$f") else len(s.mand)

def flatten(db, label, toks, fmt=None):
    """Proof tokens of theorem `label` in any format -> list of labels with
    '?' for unknown steps.  Raises RefError if it is malformed.  `fmt`, if
    given, must be the format used (normal, packed, compressed, explicit,
    explicit-packed)."""
    st = db.labels[label]
    if not toks:
        raise RefError("empty proof")
    if toks == ["?"]:
        return ["?"]
    stack = []
    def push(src):
        if src == "?":
            stack.append((["?"], "?"))
            return
        if src not in db.labels or db.labels[src].no >= st.no:
            raise RefError("unknown label " + src)
        if db.labels[src].kind in ("$e", "$f") and src not in st.hyps:
            raise RefError("inactive hypothesis " + src)
        k = nhyp(db, src)
        if len(stack) < k:
            raise RefError("stack underflow at " + src)
        args = stack[len(stack) - k:]
        del stack[len(stack) - k:]
        for a, h in zip(args, db.labels[src].mand if k else []):
            if len(a) > 2 and a[2] is not None and a[2] != h:
                raise RefError("target %s of a step is not hypothesis %s" % (a[2], h))
        stack.append((sum((a[0] for a in args), []) + [src], src))
    if toks[0] == "(":
        if fmt and fmt != "compressed":
            raise RefError("compressed proof where %s was asked for" % fmt)
        k = toks.index(")")
        plabels = toks[1:k]
        if set(plabels) & set(st.mand) or len(set(plabels)) != len(plabels):
            raise RefError("label list of the compressed proof: %s" % plabels)
        table = list(st.mand) + plabels
        saved = []
        used = set()
        usedsaved = set()
        for n in refmm.Db.decode_letters("".join(toks[k + 1:])):
            if n == "?":
                push("?")
            elif n == "Z":
                saved.append(stack[-1])
            elif n <= len(table):
                used.add(table[n - 1])
                push(table[n - 1])
            elif n <= len(table) + len(saved):
                stack.append(saved[n - 1 - len(table)])
            else:
                raise RefError("number out of range")
        if fmt and (set(plabels) - used):
            raise RefError("unused labels in the compressed proof")
    else:
        if fmt == "compressed":
            raise RefError("not compressed")
        local = {}
        packed = explicit = plain = False
        for t in toks:
            m = re.fullmatch(r"(?:([^:=]+):)?(?:([^:=]+)=)?([^:=]+)", t)
            if not m:
                raise RefError("bad step " + t)
            name, target, src = m.groups()
            if src in local:
                packed = True
                e = local[src][:2]
                if name:
                    raise RefError("local label on a reference")
                stack.append(e)
            else:
                push(src)
            if target is not None:
                explicit = True
                stack[-1] = stack[-1][:2] + (target,)
            elif not (src == "?" and False):
                plain = True
            if name:
                packed = True
                local[name] = stack[-1][:2]
        if explicit and plain:
            raise RefError("mixture of explicit and plain steps")
        if fmt is not None and explicit != fmt.startswith("explicit"):
            raise RefError("explicit is %s where %s was asked for" % (explicit, fmt))
        if fmt in ("normal", "explicit") and packed:
            raise RefError("packed proof where %s was asked for" % fmt)
        if explicit and len(stack) == 1 and len(stack[0]) > 2 and stack[0][2] != label:
            raise RefError("target of the last step")
    if len(stack) != 1:
        raise RefError("stack has %d entries at the end" % len(stack))
    return stack[0][0]

def tree_repeats(db, steps):
    """number of distinct subproofs with more than one step that occur more
    than once (what a packed or compressed proof shares)"""
    stack = []
    seen = {}
    for l in steps:
        k = 0 if l == "?" else nhyp(db, l)
        a = stack[len(stack) - k:]
        del stack[len(stack) - k:]
        n = (l,) + tuple(a)
        stack.append(n)
    return stack

KW = re.compile(r"\S+")
def spans(text):
    """Statements of a well-formed text -> list of (label or None, kind,
    (a,b) label section, (b,c) math section, (c,d) proof section); the last
    entry is the text after the last statement."""
    out = []
    a = 0
    lab = kind = None
    b = c = None
    cm = False
    for m in KW.finditer(text):
        t = m.group()
        if cm:
            cm = t != "$)"
            continue
        if t == "$(":
            cm = True
        elif t in ("${", "$}"):
            out.append((None, t, (a, m.start()), (m.start(), m.end()), None))
            a = m.end(); lab = None
        elif t in ("$c", "$v", "$d", "$f", "$e", "$a", "$p"):
            kind, b = t, m.end()
            ls = (a, m.start())
        elif t == "$=":
            c = m.start()
        elif t == "$.":
            if kind == "$p":
                out.append((lab, kind, ls, (b, c), (c + 2, m.start())))
            else:
                out.append((lab, kind, ls, (b, m.start()), None))
            a = m.end(); lab = kind = None
        elif kind is None:
            lab = t
    out.append((None, "", (a, len(text)), None, None))
    return out
