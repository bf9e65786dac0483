"""Reference model of the Metamath language, written from the specification
(Metamath book ch. 4), deliberately plain.  Nothing here looks at /repo."""

import re

class RefError(Exception):
    pass

PRINT = set(map(chr, range(33, 127)))
LABELCH = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.")
KEYWORDS = {"$c", "$v", "$f", "$e", "$d", "$a", "$p", "$=", "$.", "${", "$}", "$(", "$)", "$[", "$]"}

WS = " \t\n\r\f"
def tokens(text):
    """Whitespace separated tokens with comments removed."""
    out = []
    inc = False
    for ch in set(text):
        if ch not in PRINT and ch not in WS:
            raise RefError("illegal character")
    for t in re.split(r"[ \t\n\r\f]+", text.strip(WS)) if text.strip(WS) else []:
        if inc:
            if t == "$)":
                inc = False
            elif "$(" in t or "$)" in t:
                raise RefError("bad token in comment " + t)
        elif t == "$(":
            inc = True
        else:
            out.append(t)
    if inc:
        raise RefError("unterminated comment")
    return out

class Stmt:
    __slots__ = ("kind", "label", "math", "proof", "mand", "dv", "alld", "hyps", "no", "actf", "opthyps")
    def __init__(self, kind, label, math):
        self.kind, self.label, self.math = kind, label, math
        self.proof = None
        self.mand = []      # labels of mandatory hyps, in order
        self.dv = set()     # mandatory $d pairs (sorted tuples)
        self.alld = set()   # all active $d pairs
        self.hyps = []      # all active hyp labels in order

class Db:
    """Parses a database; raises RefError on the first rule it breaks."""
    def __init__(self, text=None, lazy=False):
        # lazy: the rules about $f (one per variable, one for each variable of
        # a $e) are demanded of the frames of assertions only
        self.lazy = lazy
        self.counts = {}
        self.consts = set()
        self.vars_ever = {}
        self.labels = {}
        self.order = []
        self.scopes = [{"v": set(), "f": [], "e": [], "d": set(), "h": []}]
        if text is not None:
            self.parse(tokens(text))

    def act(self, k):
        r = []
        for s in self.scopes:
            r += list(s[k])
        return r
    def isvar(self, s):
        return any(s in sc["v"] for sc in self.scopes)
    def activef(self, v):
        for l in self.act("f"):
            if self.labels[l].math[1] == v:
                return l
        return None

    def parse(self, toks):
        i = 0
        n = len(toks)
        lab = None
        def until(endtok):
            nonlocal i
            r = []
            while True:
                if i >= n:
                    raise RefError("eof in statement")
                t = toks[i]; i += 1
                if t == endtok:
                    return r
                if t in KEYWORDS or "$" in t:
                    raise RefError("unexpected " + t)
                r.append(t)
        while i < n:
            t = toks[i]; i += 1
            if t in ("$a", "$p", "$e", "$f", "${", "$}", "$c", "$v", "$d"):
                self.counts[t] = self.counts.get(t, 0) + 1
            if t in ("$a", "$p", "$e", "$f"):
                if lab is None:
                    raise RefError("missing label")
                if t == "$p":
                    m = until("$="); pf = until("$.")
                else:
                    m = until("$."); pf = None
                self.labeled(t, lab, m, pf)
                lab = None
                continue
            if t.startswith("$") or "$" in t:
                if lab is not None:
                    raise RefError("label before " + t)
                if t == "${":
                    self.scopes.append({"v": set(), "f": [], "e": [], "d": set(), "h": []})
                elif t == "$}":
                    if len(self.scopes) == 1:
                        raise RefError("extra $}")
                    self.scopes.pop()
                elif t == "$c":
                    self.decl_c(until("$."))
                elif t == "$v":
                    self.decl_v(until("$."))
                elif t == "$d":
                    self.decl_d(until("$."))
                else:
                    raise RefError("bad token " + t)
                continue
            if lab is not None:
                raise RefError("two labels")
            if not set(t) <= LABELCH:
                raise RefError("bad label")
            lab = t
        if lab is not None:
            raise RefError("dangling label")
        if len(self.scopes) != 1:
            raise RefError("unclosed block")
        for l in self.labels:
            if l in self.consts or l in self.vars_ever:
                raise RefError("label = symbol " + l)

    def decl_c(self, syms):
        if len(self.scopes) > 1:
            raise RefError("$c in block")
        if not syms:
            raise RefError("empty $c")
        for s in syms:
            if not set(s) <= PRINT:
                raise RefError("symbol chars")
            if s in self.consts or s in self.vars_ever:
                raise RefError("redeclared " + s)
            self.consts.add(s)

    def decl_v(self, syms):
        if not syms:
            raise RefError("empty $v")
        for s in syms:
            if s in self.consts or self.isvar(s):
                raise RefError("redeclared " + s)
            self.scopes[-1]["v"].add(s)
            self.vars_ever[s] = 1

    def decl_d(self, syms):
        if len(syms) < 2:
            raise RefError("short $d")
        for s in syms:
            if not self.isvar(s):
                raise RefError("$d non variable")
        if len(set(syms)) != len(syms):
            raise RefError("$d repeats")
        for a in range(len(syms)):
            for b in range(a):
                self.scopes[-1]["d"].add(tuple(sorted((syms[a], syms[b]))))

    def labeled(self, kind, label, math, proof):
        if not set(label) <= LABELCH:
            raise RefError("bad label")
        if label in self.labels:
            raise RefError("duplicate label")
        for s in math:
            if s not in self.consts and not self.isvar(s):
                raise RefError("undeclared " + s)
        if not math or math[0] not in self.consts:
            raise RefError("must start with constant")
        st = Stmt(kind, label, math)
        if kind == "$f":
            if len(math) != 2 or not self.isvar(math[1]):
                raise RefError("bad $f")
            if self.activef(math[1]) and not self.lazy:
                raise RefError("second $f")
        elif kind != "$e" or not self.lazy:
            for s in math:
                if self.isvar(s) and not self.activef(s):
                    raise RefError("variable without $f")
        st.no = len(self.order)
        if kind in ("$f", "$e"):
            self.scopes[-1]["f" if kind == "$f" else "e"].append(label)
            self.scopes[-1]["h"].append(label)
        else:
            self.frame(st, math)
            st.proof = proof
        self.labels[label] = st
        self.order.append(label)

    def frame(self, st, math):
        es = self.act("e")
        vs = set(s for s in math if self.isvar(s))
        for e in es:
            vs |= set(s for s in self.labels[e].math if self.isvar(s))
        hyps = self.act("h")
        st.hyps = hyps
        st.mand = [h for h in hyps
                   if self.labels[h].kind == "$e" or self.labels[h].math[1] in vs]
        if self.lazy:
            seen = set()
            for h in st.mand:
                m = self.labels[h].math
                if self.labels[h].kind == "$f":
                    if m[1] in seen:
                        raise RefError("second $f")
                    seen.add(m[1])
                elif any(self.isvar(x) and x not in seen for x in m):
                    raise RefError("$e variable without earlier $f")
        st.alld = set(self.act("d"))
        st.dv = set(p for p in st.alld if p[0] in vs and p[1] in vs)
        # variables allowed in the proof
        return st

    # ------------------------------------------------------------ proofs
    def vars_in(self, st, expr):
        fv = set(self.labels[h].math[1] for h in st.hyps if self.labels[h].kind == "$f")
        return set(s for s in expr if s in fv)

    def step(self, st, stack, label):
        """Push/apply one label. Returns None or raises RefError."""
        if label == st.label or label not in self.labels or self.labels[label].no >= st.no:
            raise RefError("unknown label " + label)
        x = self.labels[label]
        if x.kind in ("$e", "$f"):
            if label not in st.hyps:
                raise RefError("inactive hyp " + label)
            stack.append(tuple(x.math))
            return
        k = len(x.mand)
        if len(stack) < k:
            raise RefError("stack underflow")
        args = stack[len(stack) - k:]
        del stack[len(stack) - k:]
        stack.append(self.apply(st, x, args))

    def apply(self, st, x, args):
        sub = {}
        for h, a in zip(x.mand, args):
            hs = self.labels[h]
            if hs.kind == "$f":
                if not a or a[0] != hs.math[0]:
                    raise RefError("typecode")
                sub[hs.math[1]] = a[1:]
        for h, a in zip(x.mand, args):
            hs = self.labels[h]
            if hs.kind == "$e" and self.subst(hs.math, sub) != a:
                raise RefError("hypothesis mismatch")
        for p in x.dv:
            v0 = self.vars_in(st, sub[p[0]])
            v1 = self.vars_in(st, sub[p[1]])
            for a in v0:
                for b in v1:
                    if a == b:
                        raise RefError("dv same")
                    if tuple(sorted((a, b))) not in st.alld:
                        raise RefError("dv missing")
        return self.subst(x.math, sub)

    @staticmethod
    def subst(m, sub):
        r = []
        for s in m:
            if s in sub:
                r.extend(sub[s])
            else:
                r.append(s)
        return tuple(r)

    def verify_labels(self, st, labels):
        """Normal proof: list of labels. Raises or returns."""
        if not labels:
            raise RefError("empty proof")
        stack = []
        for l in labels:
            self.step(st, stack, l)
        if len(stack) != 1:
            raise RefError("stack %d" % len(stack))
        if stack[0] != tuple(st.math):
            raise RefError("proved something else")

    # ------------------------------------------------------- compressed
    @staticmethod
    def decode_letters(s):
        """letters -> list of ints (n>=1), 'Z', '?'."""
        out = []
        acc = 0
        started = False
        for c in s:
            if "A" <= c <= "T":
                out.append(acc * 20 + ord(c) - 64)
                acc = 0; started = False
            elif "U" <= c <= "Y":
                acc = acc * 5 + ord(c) - 84
                started = True
            elif c == "Z":
                if started or not out:
                    raise RefError("misplaced Z")
                out.append("Z")
            elif c == "?":
                if started:
                    raise RefError("misplaced ?")
                out.append("?")
            else:
                raise RefError("bad character " + c)
        if started:
            raise RefError("unfinished number")
        return out

    def verify_compressed(self, st, plabels, letters):
        odd = False
        seen = set()
        for l in plabels:
            if l not in self.labels or self.labels[l].no >= st.no:
                raise RefError("unknown label")
            x = self.labels[l]
            if x.kind in ("$e", "$f"):
                if l not in st.hyps:
                    raise RefError("inactive hyp")
                if l in st.mand:
                    raise RefError("mandatory hyp in parens")
            if l in seen:
                odd = True       # the specification does not say
            seen.add(l)
        seq = self.decode_letters(letters)
        if not seq:
            raise RefError("empty")
        table = list(st.mand) + list(plabels)
        saved = []
        stack = []
        prev = None
        zz = False
        for n in seq:
            if n == "?":
                raise RefError("unknown step")
            if n == "Z":
                if zz:
                    odd = True   # saved twice in a row
                zz = True
                # saving a hypothesis is pointless; programs may refuse it
                if prev is None or (prev <= len(table) and
                                    self.labels[table[prev - 1]].kind in ("$e", "$f")) \
                        or prev > len(table):
                    odd = True
                saved.append(stack[-1])
                continue
            zz = False
            prev = n
            if n <= len(table):
                self.step(st, stack, table[n - 1])
            elif n <= len(table) + len(saved):
                stack.append(saved[n - 1 - len(table)])
            else:
                raise RefError("number out of range")
        if len(stack) != 1:
            raise RefError("stack %d" % len(stack))
        if stack[0] != tuple(st.math):
            raise RefError("proved something else")
        return odd

    def verify(self, label):
        st = self.labels[label]
        p = st.proof
        if p and p[0] == "(":
            if ")" not in p:
                raise RefError("no )")
            k = p.index(")")
            self.verify_compressed(st, p[1:k], "".join(p[k + 1:]))
        else:
            self.verify_labels(st, p)


def encode_number(n):
    """1-based number -> letters."""
    n -= 1
    s = chr(65 + n % 20)
    n //= 20
    while n > 0:
        n -= 1
        s = chr(85 + n % 5) + s
        n //= 5
    return s
