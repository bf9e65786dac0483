"""Small axiom systems used as the finite worlds of the enumerations.
Each gives a preamble (text) and 'shells': (block text placed before the
theorems, list of extra labels a proof might name)."""
import itertools

PROP = """$c ( ) -> -. wff |- $.  $v p q r $.
wp $f wff p $.  wq $f wff q $.  wr $f wff r $.
wn $a wff -. p $.
wi $a wff ( p -> q ) $.
ax1 $a |- ( p -> ( q -> p ) ) $.
${ min $e |- p $.  maj $e |- ( p -> q ) $.  mp $a |- q $. $}
"""
DV = """$c ( ) = A. wff |- set $.  $v x y z p $.
vx $f set x $.  vy $f set y $.  vz $f set z $.  wp $f wff p $.
weq $a wff x = y $.
wal $a wff A. x p $.
${ $d x p $.  ax5 $a |- A. x p $. $}
${ $d x y $.  axd $a |- x = y $. $}
axn $a |- x = x $.
"""
MIU = """$c M I U |- wff $.  $v x y $.
wx $f wff x $.  wy $f wff y $.
we $a wff $.
wM $a wff x M $.
wI $a wff x I $.
we2 $a wff x y $.
ax $a |- M I $.
${ Ia $e |- x I $.  I_ $a |- x I U $. $}
${ IIa $e |- M x $.  II $a |- M x x $. $}
"""
# $e interleaved with / before $f, variables only in hypotheses, optional $d
ORD = """$c wff |- c d $.  $v u v w $.
hu $f wff u $.
${ e1 $e |- u $.  hv $f wff v $.  e2 $e |- v u $.  o1 $a |- v $. $}
hv2 $f wff v $.  hw $f wff w $.
${ $d u w $. $d v w $.  f1 $e |- u v $.  o2 $a |- c u $. $}
${ $d u v $.  o3 $a |- u v $. $}
k1 $a wff c $.
k2 $a wff u d v $.
a1 $a |- c $.
"""
# scoping: variables redeclared with another type, local hypotheses
SCO = """$c A B |- f $.
${ $v x $. xA $f A x $. s1 $a |- f x $. ${ ls $e |- x $. s2 $a |- f f x $. $} $}
${ $v x $. xB $f B x $. s3 $a |- x f $. s5 $a B f x $. $}
$v x y $. xA2 $f A x $. yB $f B y $.
s4 $a A f x $.
s6 $a B f y $.
"""
# many-variable / nested substitution, typecode |- in $f, one var twice
SUB = """$c T |- [ ] , $.  $v a b $.
ta $f T a $.  tb $f T b $.
u0 $a T [ ] $.
u2 $a T [ a , b ] $.
${ h $e |- [ a , a ] $.  r1 $a |- a $. $}
${ h1 $e |- a $.  h2 $e |- b $.  r2 $a |- [ a , b ] $. $}
x0 $a |- [ ] $.
"""
def pairs(vs):
    return list(itertools.combinations(vs, 2))

def dshells(vs, extra=""):
    """every subset of the $d pairs over vs"""
    ps = pairs(vs)
    for k in range(len(ps) + 1):
        for c in itertools.combinations(ps, k):
            yield "".join("$d %s %s $. " % p for p in c) + extra

SYSTEMS = {
    "PROP": (PROP, ["", "h1 $e |- p $.  h2 $e |- ( p -> q ) $.",
                    "h1 $e |- ( p -> p ) $.  h2 $e |- q $."]),
    "DV": (DV, list(dshells("xyzp"))),
    "MIU": (MIU, ["", "h $e |- M x $."]),
    "ORD": (ORD, list(dshells("uvw")) + ["h1 $e |- u v $.", "h1 $e |- v $. h2 $e |- w $."]),
    "SCO": (SCO, ["", "h1 $e |- f y $."]),
    "SUB": (SUB, ["", "g1 $e |- [ a , b ] $.", "g1 $e |- a $. g2 $e |- b $."]),
}
