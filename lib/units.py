"""A small database with files, and command units (a command with the answers to
its questions), for checks that put whole sessions together."""
import re

DB = """$c w |- ( -> ) $. $v x y z $. fx $f w x $. fy $f w y $. fz $f w z $.
wi $a w ( x -> y ) $.
$(
#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#
                           Part with ~ nosuchlabel
#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#*#
  Text.
$)
$( First axiom. [Book] p. 3 $)
a $a |- ( x -> ( y -> x ) ) $.
${ m1 $e |- x $. m2 $e |- ( x -> y ) $.
mp $a |- y $. $}
${ i.1 $e |- x $. i $p |- ( y -> x ) $= fx fy fx wi i.1 fx fy a mp $. $}
$( A theorem. (Contributed by N, 1-Jan-2000.) $)
t $p |- ( z -> ( x -> ( y -> x ) ) ) $= fx fy fx wi wi fz fx fy a i $.
$( $t htmldef "w" as "W "; althtmldef "w" as "w "; latexdef "w" as "w";
htmldef "|-" as "S "; althtmldef "|-" as "S "; latexdef "|-" as "S";
htmldef "(" as "("; althtmldef "(" as "("; latexdef "(" as "(";
htmldef ")" as ")"; althtmldef ")" as ")"; latexdef ")" as ")";
htmldef "->" as "I"; althtmldef "->" as "I"; latexdef "->" as "I";
htmldef "x" as "x"; althtmldef "x" as "x"; latexdef "x" as "x";
htmldef "y" as "y"; althtmldef "y" as "y"; latexdef "y" as "y";
htmldef "z" as "z"; althtmldef "z" as "z"; latexdef "z" as "z"; $)
"""
FILES = {"f.mm": DB, "g.txt": "the first line x\nsecond line x y\n\nx\n", "h.txt": "a\nb\nx\n", "c.cmd": "show labels *\nset width 70\n", "t.cmd": "add g.txt '<' '>'\n",
         "mmbiblio.html": "<HTML>\n<!-- #START# -->\n<!-- #END# -->\n</HTML>\n", "r.html": "<HTML>\n<!-- last updated -->x<!-- #START# -->\n<!-- #END# -->\n</HTML>\n"}

# (lines, questions asked for the answers); "@" in a line is replaced by the position
def U(*ls, q=()): return (ls, q)
EXITQ = "Do you want to EXIT anyway (Y, N) <N>?"
ERASEQ = "Do you want to ERASE anyway (Y, N) <N>?"
MAIN = dict(
 labels=U("show labels */all"), st=U("show statement t/full"), pr=U("show proof t/essential"), save=U("save proof t/normal"), nosave=U("save proof nolabel"),
 width=U("set width 50"), echo=U("set echo on"), verify=U("verify proof *"), bad=U("foo bar"), comment=U("! a comment"), search=U("search * '( x' /all"),
 asks=U("show trace_back", "i", "", q=("?", "?")),
 write=U("write source o@.x"), help=U("help search"), disc=U("show discouraged"), undo=U("set undo 3"), erase=U("erase", "n", q=(ERASEQ,)), read=U("read f.mm"),
 nofile=U("submit nofile"), nofile2=U("file search nofile x"), fs=U("file search g.txt x"), long=U("show statement * /comment"), html=U("show statement t/alt_html"), mem=U("set memory_status off"), more=U("more g.txt"))
PA = dict(assign=U("assign last i"), delete=U("delete step 10"), snp=U("show new_proof/all"), undo=U("undo"), savep=U("save new_proof/compressed"), improve=U("improve all"))
TOOLS = dict(add=U("add g.txt '<' '>'"), type=U("type g.txt all"), ask=U("delete g.txt", "x", "", q=("?", "?")), count=U("count g.txt x"), sub=U("s g.txt x y 1 ''"), copy=U("copy g.txt,h.txt k@.x"))
