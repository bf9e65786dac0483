"""Exhaustive forward enumeration of the proofs of a small system."""
import refmm

def shell_db(pre, shell):
    """Database text around a theorem, split at the insertion point."""
    return pre + "${ " + shell + "\n", "$}\n"

def context(pre, shell):
    """(db, st): a pseudo-theorem inside the shell, for stepping proofs."""
    db = refmm.Db()
    toks = refmm.tokens(shell_db(pre, shell)[0])
    try:
        db.parse(toks)
    except refmm.RefError as e:
        if str(e) != "unclosed block":
            raise
    st = refmm.Stmt("$p", "__t", [])
    st.no = len(db.order)
    st.hyps = db.act("h")
    st.alld = set(db.act("d"))
    return db, st

def enumerate_proofs(db, st, depth, alphabet=None, maxlen=14, dv=True):
    """Every label sequence of length <= depth all of whose steps are legal and
    that leaves exactly one expression. Yields (labels, expr)."""
    labs = alphabet or [l for l in db.order
                        if db.labels[l].kind in ("$a", "$p") or l in st.hyps]
    saved = st.alld
    out = []
    def rec(seq, stack):
        if len(stack) == 1 and seq:
            out.append((tuple(seq), stack[0]))
        if len(seq) >= depth or len(stack) > depth - len(seq) + 1 and len(stack) > 3:
            return
        for l in labs:
            s2 = list(stack)
            try:
                db.step(st, s2, l)
            except refmm.RefError:
                continue
            if s2 and len(s2[-1]) > maxlen:
                continue
            seq.append(l)
            rec(seq, s2)
            seq.pop()
    rec([], [])
    return out

def edits(seq, alphabet):
    """All single-label edits of a proof: substitute, delete, insert, swap."""
    seq = list(seq)
    n = len(seq)
    for i in range(n):
        for a in alphabet:
            if a != seq[i]:
                yield tuple(seq[:i] + [a] + seq[i + 1:])
        yield tuple(seq[:i] + seq[i + 1:])
        for j in range(i + 1, n):
            if seq[i] != seq[j]:
                s = list(seq); s[i], s[j] = s[j], s[i]
                yield tuple(s)
    for i in range(n + 1):
        for a in alphabet:
            yield tuple(seq[:i] + [a] + seq[i:])
