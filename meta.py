#!/usr/bin/env python3
"""Single source of the property list. Writes properties.jsonl and MANIFEST.json.
A property is claimed when checks/c_<ID>.py exists."""
import json, os, importlib, re
V = os.path.dirname(os.path.abspath(__file__))
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech="", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                  files=files.split(), mech=[tuple(m.split("@")) for m in mech], state=state, observe=list(observe),
                  tech=tech, note=note, na=na))

p("A01", "VERIFY PROOF accepts exactly the correct proofs",
  "VERIFY PROOF reports an error or an incomplete proof for a theorem if and only if its (uncompressed) proof, read as a sequence of previous labels and active hypotheses, does not derive the theorem's own statement by substitution under the Metamath rules. A correct proof is never rejected, and one theorem's verdict does not depend on which other theorems are verified with it.",
  "programs", "all databases and all label sequences used as proofs",
  "The golden tests verify some twenty fixed proofs; soundness is a statement about every label sequence, every substitution and every table size.",
  "src/mmveri.c src/mmpars.c src/mmcmds.c", ["verifyProof@src/mmveri.c", "assignVar@src/mmveri.c", "parseProof@src/mmpars.c", "verifyProofs@src/mmcmds.c"],
  observe=["output of READ and VERIFY PROOF"],
  tech="bounded-exhaustive enumeration of proofs (deviation-bounded) on the real program against a reference verifier",
  note="Exhaustive for the stated systems, depths and edit distance; trusts the 250-line reference verifier lib/refmm.py and the error/no-error reading of the program's output.")

p("A02", "Compressed proofs are decoded exactly as specified",
  "A compressed proof (label list, letters A-T/U-Y, Z for saved steps, any white space) is accepted if and only if the step sequence it denotes under the Metamath specification is a correct proof of the statement. This holds for every label number, every number of saved steps and every way of breaking the letters over lines.",
  "programs", "all label lists, all letter strings, all label numbers across the one-, two- and three-letter ranges",
  "Tests contain a handful of compressed proofs with fewer than 20 labels; encodings with several letters, saved steps at the boundaries and malformed letters are not sampled.",
  "src/mmpars.c src/mmveri.c", ["parseCompressedProof@src/mmpars.c"],
  observe=["output of VERIFY PROOF"],
  tech="bounded-exhaustive enumeration of encodings and all single-letter edits on the real program against a reference decoder",
  note="Exhaustive within depth/edit bounds and for all label numbers up to the stated top; forms the specification leaves open (Z after a hypothesis, duplicate list labels) are accepted either way.")

p("A03", "Disjoint-variable restrictions are enforced exactly",
  "A proof step that uses an assertion with $d restrictions is rejected if and only if, for some restricted pair of its variables, the substituted expressions share a variable or contain a pair of variables for which the theorem being proved has no $d restriction in force. Restrictions on variables that are not mandatory for the used assertion have no effect, and the order, grouping and duplication of $d statements do not matter.",
  "programs configurations", "all sets of $d pairs in the used assertion and in the theorem, all substitutions",
  "Three golden tests contain one $d violation each; the check ranges over pairs of substitution expressions times the restriction sets in force.",
  "src/mmveri.c src/mmpars.c", ["assignVar ($d part)@src/mmveri.c", "parseStatements ($d lists)@src/mmpars.c"],
  observe=["output of VERIFY PROOF"],
  tech="bounded-exhaustive enumeration of restriction sets x substitutions on the real program against a reference verifier",
  note="Exhaustive over all $d subsets of the variables used and all small substitutions; trusts lib/refmm.py.")

p("A04", "READ reports an error exactly for ill-formed databases",
  "READ reports an error for a file if and only if the file breaks a Metamath syntax, declaration or scoping rule (token, comment and keyword structure; $c/$v declarations; $f/$e/$d/$a/$p form; active symbols, block nesting; unique legal labels; a unique active type for every variable of an assertion). A well-formed file is read without any error, and the reported statement counts are right.",
  "programs", "all token sequences",
  "The tests read about twenty files, most of them well formed; the rules interact (scope, redeclaration, order), which only enumeration of token sequences covers.",
  "src/mmpars.c", ["parseKeywords@src/mmpars.c", "parseLabels@src/mmpars.c", "parseMathDecl@src/mmpars.c", "parseStatements@src/mmpars.c"],
  observe=["output of READ"],
  tech="bounded-exhaustive enumeration of token sequences on the real program against a reference parser",
  note="Exhaustive over statement sequences and token edits within the bounds; trusts lib/refmm.py.")

p("A05", "Every assertion's frame is computed as specified",
  "For every assertion, the mandatory hypotheses (in order), the mandatory disjoint-variable pairs and the additional hypotheses and pairs available in its proof that SHOW STATEMENT reports are exactly those the Metamath rules assign. They depend only on what is in scope, not on the order or position of unrelated statements.",
  "programs", "all block structures and placements of $f, $e and $d",
  "No golden test looks at the reported frame of a nested or reordered scope.",
  "src/mmpars.c src/mmcmds.c", ["parseStatements@src/mmpars.c", "typeStatement@src/mmcmds.c"],
  observe=["output of SHOW STATEMENT"],
  tech="bounded-exhaustive enumeration of scope structures on the real program against a reference model",
  note="Exhaustive over the enumerated block structures; trusts lib/refmm.py.")

p("A06", "Packed and explicit proofs mean exactly what they spell out",
  "A proof in the packed format (local labels for shared subproofs) or the explicit format (each step assigned to a hypothesis) is accepted if and only if the plain proof it spells out is a correct proof. An explicit proof stays correct, and denotes the same steps, whatever legal order the $e and $f hypotheses of the assertions it uses are put into, and saving it in another format writes exactly these steps. A malformed proof (a local label that is used twice, used before it is declared, or is already a label; a target that is not the hypothesis; a stack that does not come out) is rejected and left as it is. VERIFY PROOF /SYNTAX_ONLY rejects exactly the malformed proofs and reports exactly those with unknown steps.",
  "programs", "all proofs in these formats, all ways to share subproofs, all orders of hypotheses",
  "The golden tests contain a few packed and explicit proofs and never reorder hypotheses.",
  "src/mmpars.c src/mmcmds.c src/mmpfas.c", ["parseProof@src/mmpars.c", "proofTokenLen@src/mmpars.c", "verifyProofs@src/mmcmds.c", "nmbrSquishProof@src/mmdata.c"],
  observe=["VERIFY PROOF, VERIFY PROOF /SYNTAX_ONLY, SAVE PROOF, WRITE SOURCE"],
  tech="bounded-exhaustive enumeration of proofs, sharings, hypothesis orders and token edits on the real program against a reference reader",
  note="Exhaustive within the stated depths; two local labels for one step, a local label on an unknown step or equal to an inactive hypothesis, and the target of the last step are not judged.")

p("B01", "File inclusion reads each file exactly once, in place",
  "READ of a file with $[ $] inclusions gives the same database as the text in which the first inclusion of each file is replaced by its content (recursively) and later inclusions of the same file, including self-inclusion, by nothing. Inclusions inside comments are ignored; a missing file is an error and leaves no database. The file and line the program gives for a statement are those where it stands.",
  "inputs", "all inclusion graphs and positions",
  "One golden test has a single inclusion; repeated, nested, cyclic and commented inclusions are not sampled.",
  "src/mmpars.c", ["readSourceAndIncludes@src/mmpars.c", "readInclude@src/mmpars.c", "getNextInclusion@src/mmpars.c"],
  observe=["READ, SHOW LABELS, error line numbers, WRITE SOURCE"],
  tech="bounded-exhaustive enumeration of inclusion graphs on the real program against a reference expansion",
  note="Exhaustive over the graphs of up to three included files and the listed positions.")

p("B02", "WRITE SOURCE reproduces the database byte for byte",
  "Without reformatting options WRITE SOURCE writes a file that is identical to the text that was read, except that each proof saved in the session replaces that theorem's previous proof and a missing '(Contributed by ...)' may be added at the end of that theorem's comment; no other byte of any comment, statement or proof changes (line ends are normalised on reading, as announced). Reading the written file gives the same database, and writing it again gives the same bytes.",
  "inputs histories", "all well-formed files and all sequences of proof saves",
  "No golden test writes a source file.",
  "src/mmcmds.c src/mmpars.c", ["writeSource@src/mmcmds.c", "writeSourceToBuffer@src/mmpars.c"],
  observe=["the written file"],
  tech="bounded-exhaustive enumeration of database texts and save sequences on the real program, byte comparison",
  note="Exhaustive over layouts of the enumerated texts.")

p("B03", "Saving a proof in any format preserves the proof",
  "SAVE PROOF with /NORMAL, /PACKED, /COMPRESSED, /EXPLICIT, /FAST or /OLD_COMPRESSION combinations rewrites the proof into that format without changing what it proves: the saved proof verifies if and only if the old one did, has the same steps, and converting back reproduces the same proof. An incomplete proof stays incomplete at the same places, and a proof with an error is never replaced.",
  "programs histories", "all proofs and all sequences of format conversions",
  "No golden test converts proofs.",
  "src/metamath.c src/mmdata.c src/mmcmds.c src/mmpars.c", ["SAVE PROOF command@src/metamath.c", "compressProof@src/mmdata.c", "nmbrSquishProof@src/mmdata.c", "typeProof@src/mmcmds.c"],
  observe=["SAVE PROOF, WRITE SOURCE, VERIFY PROOF, SHOW PROOF /NORMAL"],
  tech="explicit-state exploration of conversion sequences on the real program with a reference verifier/decoder as oracle",
  note="All conversion pairs for every enumerated proof; saved text decoded by the independent reference.")

p("B04", "A write that is interrupted or fails never loses the previous contents",
  "Whatever output file an overwriting command (WRITE SOURCE, OPEN LOG, TOOLS commands and others) replaces, at every moment its previous complete contents exist under the file's name or under one of its numbered backup names, even if the program is killed or an operation on the file system fails at any point; when the command succeeds, the previous version is name~1 and older versions are shifted by one. A failed write is reported and is not treated as saved.",
  "crash_points fault_sequences", "all points of the file-system operation sequence and all pre-existing backup sets",
  "Tests never write files and cannot stop the program between two renames.",
  "src/mminou.c src/mmcmds.c src/metamath.c", ["fSafeOpen@src/mminou.c", "fSafeRename@src/mminou.c", "writeSource@src/mmcmds.c"],
  observe=["directory contents after each fault"],
  tech="exhaustive fault and crash-point enumeration over the intercepted file operations of the real program",
  note="Process-crash model (no power loss: the program never calls fsync); every operation index and every fault kind of each scenario.")

p("B05", "WRITE SOURCE /EXTRACT gives a self-contained, equivalent database",
  "The file written by WRITE SOURCE /EXTRACT for some theorems reads without error, contains those theorems with the same statements, hypotheses, disjoint-variable conditions and proofs and everything they depend on, and its proofs verify if they did in the full database. Statements on which the theorems do not depend are left out. Descriptions and the $t comment are kept (references to labels that are left out become web links); what a wrong proof depends on is left open.",
  "programs", "all small databases and all label selections",
  "No golden test extracts anything.",
  "src/mmcmds.c", ["writeExtractedSource@src/mmcmds.c"],
  observe=["the written file"],
  tech="bounded-exhaustive enumeration of dependency structures and selections on the real program against a reference closure",
  note="Exhaustive over the enumerated dependency graphs.")

p("B06", "Reformatting with /FORMAT or /REWRAP preserves meaning",
  "WRITE SOURCE /FORMAT and /REWRAP only change white space, except that an assertion without a description gets a placeholder description and /REWRAP sets off the markup characters ` and ~ with spaces and ends a description that ends in a lowercase letter with a period. The written file has the same sequence of tokens outside comments, the same words inside comments, and the same section headers, $t definitions and file inclusions, so it reads to the same database. If all words fit on a line, reformatting its own output changes nothing more.",
  "inputs", "all well-formed databases and comment layouts",
  "No golden test reformats a file.",
  "src/mmpars.c", ["outputStatement@src/mmpars.c", "rewrapComment@src/mmpars.c"],
  observe=["the written file"],
  tech="bounded-exhaustive enumeration of layouts on the real program, token comparison",
  note="Exhaustive over the layout alphabet.")

p("B07", "Splitting and merging source files is lossless",
  "WRITE SOURCE /SPLIT writes a set of files whose inclusion expands to exactly the database text, and reading them and writing without /SPLIT restores the original text; files whose content did not change are left alone, and no included file is lost.",
  "inputs histories", "all inclusion structures and read/write sequences",
  "No golden test splits a file.",
  "src/mmpars.c src/mmcmds.c", ["writeSplitSource@src/mmpars.c", "deleteSplits@src/mmpars.c", "writeSource@src/mmcmds.c"],
  observe=["the written files"],
  tech="explicit-state exploration of read/write(split) sequences on the real program",
  note="Exhaustive over sequences up to the depth for each structure.")

p("C01", "UNDO and REDO restore exactly the previous proofs",
  "In the Proof Assistant, UNDO restores the proof exactly as it was before the last command that changed it and REDO restores exactly what the UNDO removed; n UNDOs followed by n REDOs are the identity, a new change discards the redo history, and a command that does not change the proof does not disturb either history. This holds for every sequence of commands within the undo limit; only SET UNDO with a new limit discards the history.",
  "histories", "all command sequences",
  "No golden test uses UNDO.",
  "src/mmpfas.c src/metamath.c", ["processUndoStack@src/mmpfas.c", "copyProofStruct@src/mmpfas.c"],
  state=[dict(name="undo stack", meaning="past and future versions of the proof in progress", where="src/mmpfas.c")],
  observe=["SHOW NEW_PROOF /ALL /UNKNOWN etc. after every command"],
  tech="explicit-state model of the undo history, every command sequence up to a depth replayed on the real Proof Assistant",
  note="All sequences over the command alphabet up to the depth; model states and transitions counted, each transition validated against the program.")

p("C02", "A proof completed in the Proof Assistant is a correct proof",
  "Whatever sequence of ASSIGN, IMPROVE, REPLACE, LET, UNIFY, DELETE, INITIALIZE, EXPAND and MINIMIZE_WITH commands is given, the proof in progress stays consistent: every step that is shown as known is correctly derived from its hypotheses, the proof still ends in the theorem's statement, a step that contradicts its hypotheses is shown as not unified, and when the program says the proof is complete, the saved proof is correct apart from $d restrictions, whose violation VERIFY PROOF then reports. EXPAND and MINIMIZE_WITH introduce no $d violation into a proof that has none.",
  "histories", "all command sequences of the Proof Assistant",
  "The golden tests contain no interactive proof.",
  "src/mmpfas.c src/mmunif.c src/metamath.c", ["assignStatement@src/mmpfas.c", "autoUnify@src/mmpfas.c", "replaceStatement@src/mmpfas.c", "proveFloating@src/mmpfas.c"],
  observe=["SHOW NEW_PROOF, SAVE NEW_PROOF, VERIFY PROOF"],
  tech="explicit-state exploration of Proof Assistant command sequences on the real program with a reference checker on every state",
  note="All sequences over a small alphabet on small systems up to the depth.")

p("C03", "MINIMIZE_WITH never damages a proof",
  "MINIMIZE_WITH leaves a proof that still correctly proves the theorem, is never longer (as the program measures it) than before, and uses no statement excluded by /EXCEPT, /FORBID, /NO_NEW_AXIOMS_FROM, mathbox or discouragement restrictions that it did not use before. If nothing helps, the proof is unchanged.",
  "programs configurations", "all theorems of small databases and all option combinations",
  "Two golden tests run it on one theorem.",
  "src/metamath.c src/mmpfas.c src/mmcmds.c", ["MINIMIZE_WITH command@src/metamath.c", "minimizeProof@src/mmpfas.c"],
  observe=["SHOW NEW_PROOF before and after"],
  tech="bounded-exhaustive enumeration of proofs and option combinations on the real program with a reference verifier",
  note="Exhaustive over the enumerated databases, proofs and options.")

p("C04", "Proof Assistant commands change only what they are asked to",
  "A command of the Proof Assistant has exactly the effect it names. ASSIGN puts the given statement into the given step, wherever it is counted from (n, -n, FIRST, LAST, ALL), with unknown hypotheses and nothing else; it is accepted exactly when the statement comes before the theorem, may be used and can be unified with the step. DELETE and EXPAND remove or inline exactly the named steps; IMPROVE, REPLACE and LET STEP change only the steps in their scope, never a step the user has assigned; INITIALIZE forgets exactly the texts it names. All other steps keep their labels, and their texts change only by one substitution of working variables for the whole proof. When several unifications are possible, none is chosen without being asked for, and MATCH lists exactly the statements that fit. A refused command changes nothing.",
  "histories", "all command sequences of the Proof Assistant",
  "The golden tests contain no interactive proof.",
  "src/mmpfas.c src/mmunif.c src/metamath.c", ["assignStatement@src/mmpfas.c", "deleteSubProof@src/mmpfas.c", "expandProof@src/mmpfas.c", "interactiveMatch@src/mmpfas.c", "autoUnify@src/mmpfas.c", "getStepNum@src/mmpfas.c"],
  observe=["SHOW NEW_PROOF before and after every command", "the reply of the command"],
  tech="explicit-state exploration of Proof Assistant command sequences on the real program, each transition compared with a specification of the command's effect",
  note="All commands of an alphabet from every state up to the depth, in small databases; whether a statement fits is decided by a bounded string unification of its own. Not judged: unifications that give a variable a part of another variable, and the choice among the statements IMPROVE finds.")

p("C06", "Discouraged statements are used or changed only with /OVERRIDE",
  "A statement marked '(New usage is discouraged.)' is never put into a proof by a command that chooses or is given the statement (EXPAND only inlines what the proof already rests on), and a proof marked '(Proof modification is discouraged.)' is never replaced, by any command unless /OVERRIDE is given or discouragement is switched off; statements without the mark need no override. The mark is recognised however the comment is wrapped.",
  "configurations histories", "all markings and commands",
  "No golden test marks a statement as discouraged.",
  "src/metamath.c src/mmdata.c", ["getMarkupFlag@src/mmdata.c", "ASSIGN/REPLACE/IMPROVE/MINIMIZE_WITH/SAVE commands@src/metamath.c"],
  observe=["SHOW NEW_PROOF, SAVE NEW_PROOF, SHOW DISCOURAGED"],
  tech="exhaustive enumeration of marking x command x option combinations on the real program",
  note="All combinations of the alphabet.")

p("D01", "Label patterns select exactly the matching statements",
  "A label pattern in SHOW LABELS, VERIFY PROOF, SEARCH and other commands selects exactly the statements it describes: * stands for any string, ? for any one character, a~b for the statements from a to b in database order, commas for union, and the special forms for the program's documented cases. Every other statement is left out.",
  "inputs", "all patterns and labels up to a length",
  "The golden tests use the pattern * only.",
  "src/mmdata.c", ["matchesList@src/mmdata.c", "matches@src/mmdata.c"],
  observe=["SHOW LABELS, VERIFY PROOF"],
  tech="bounded-exhaustive enumeration of patterns x labels on the real program against a reference matcher",
  note="All patterns over the alphabet up to the length.")

p("D02", "SEARCH finds exactly the matching statements",
  "SEARCH lists exactly the statements in its label range whose formula matches the given string, where $* matches any sequence of symbols (also none) and $? any one character of a symbol, and with /ALL, /COMMENTS and /JOIN the corresponding text. No matching statement is missed and no other is listed.",
  "inputs", "all search strings over a small alphabet",
  "No golden test searches.",
  "src/metamath.c src/mmdata.c", ["SEARCH command@src/metamath.c", "matches@src/mmdata.c"],
  observe=["SEARCH output"],
  tech="bounded-exhaustive enumeration of search strings on the real program against a reference matcher",
  note="All strings over the alphabet up to the length.")

p("D03", "TRACE_BACK and USAGE report exactly the proof dependencies",
  "SHOW TRACE_BACK lists exactly the statements (with /AXIOMS exactly the axioms and definitions, with /TO only those on a path to the target) that a proof uses directly or indirectly; SHOW USAGE lists exactly the statements that use a statement directly, or with /RECURSIVE directly or indirectly. The two relations are inverse to each other.",
  "programs", "all dependency graphs of small databases",
  "No golden test traces a proof.",
  "src/mmcmds.c", ["traceProof@src/mmcmds.c", "traceProofWork@src/mmcmds.c", "traceUsage@src/mmcmds.c", "countSteps@src/mmcmds.c"],
  observe=["SHOW TRACE_BACK, SHOW USAGE output"],
  tech="exhaustive enumeration of dependency graphs on the real program against a reference closure",
  note="All graphs up to the number of theorems.")

p("D04", "SHOW PROOF lists each step with its correct formula",
  "The steps that SHOW PROOF prints carry consecutive step numbers, the label used at the step, hypothesis references to the right earlier steps and exactly the formula the step derives; /ESSENTIAL, /FROM_STEP, /TO_STEP, /DEPTH, /RENUMBER, /LEMMON, /NO_REPEATED_STEPS and /REVERSE select or arrange the same steps without altering them. /DETAILED_STEP gives the source, hypotheses, parent and substitutions of the step. SHOW NEW_PROOF does the same for the proof being worked on.",
  "programs configurations", "all proofs and option combinations",
  "No golden test prints a proof.",
  "src/mmcmds.c", ["typeProof@src/mmcmds.c"],
  observe=["SHOW PROOF output"],
  tech="bounded-exhaustive enumeration of proofs x options on the real program against a reference listing",
  note="Exhaustive over the enumerated proofs and options.")

p("D05", "SHOW STATEMENT, SHOW SOURCE and FILE SEARCH show what is there",
  "SHOW STATEMENT prints the statement's description (the comment immediately before it and no other), its distinct variable conditions merged into groups that stand for exactly the pairs in force, its essential hypotheses and the statement itself; /FULL adds its right number, line, file and HTML page number. SHOW SOURCE prints the statement's source text. MORE prints a file, and FILE SEARCH prints exactly the lines, within the requested range, that contain the text.",
  "inputs", "all graphs of distinct variable conditions, layouts of comments and statements, and small files with ranges",
  "The golden tests show a few statements of one database.",
  "src/mmcmds.c src/metamath.c src/mmdata.c src/mmpars.c", ["typeStatement@src/mmcmds.c", "getDescription@src/mmdata.c", "outputStatement@src/mmpars.c", "FILE SEARCH@src/metamath.c"],
  observe=["SHOW STATEMENT", "SHOW SOURCE", "MORE", "FILE SEARCH"],
  tech="bounded-exhaustive enumeration of databases, layouts and files on the real program against a reference",
  note="Exhaustive over graphs on up to five variables, comment layouts and small files. Lines longer than the screen are not judged exactly (E03 does).")

p("E01", "TOOLS commands transform files as documented",
  "Each TOOLS command (ADD, TAG, DELETE, CLEAN, SUBSTITUTE, SWAP, INSERT, BREAK, BUILD, MATCH, SORT, UNDUPLICATE, DUPLICATE, UNIQUE, REVERSE, RIGHT, PARALLEL, NUMBER, COUNT, COPY, TYPE) turns every input file into exactly the output its help text describes, line by line, and leaves its other input files unchanged.",
  "inputs", "all short files over a small alphabet and all argument values",
  "No golden test uses TOOLS.",
  "src/metamath.c src/mmvstr.c", ["TOOLS commands@src/metamath.c", "edit@src/mmvstr.c"],
  observe=["the output files"],
  tech="bounded-exhaustive enumeration of files and arguments on the real program against reference transformations",
  note="Exhaustive over the file and argument alphabet.")

p("E02", "String library functions compute their documented results",
  "The string functions (seg, mid, left, right, cat, instr, rinstr, edit, xlate, string, space, chr, str, num, val, entry, lookup, numEntries, entryPosition) return what their BASIC-style documentation says for all arguments, including positions and lengths outside the string, never change their arguments, and temporary results stay valid as documented.",
  "inputs", "all short strings and all positions",
  "There are no unit tests for the string library.",
  "src/mmvstr.c src/mmvstr.h", ["public functions@src/mmvstr.h"],
  observe=["return values"],
  tech="bounded-exhaustive enumeration of arguments on the real functions against reference definitions",
  note="All strings over the alphabet up to the length; run under AddressSanitizer.")

p("E03", "Wrapped and paged output loses and invents nothing",
  "However long a line and whatever the screen width, wrapped output contains every character of the text in order apart from the blanks at break points, and no line is wider than the width unless the text has a word that does not fit, and then no wider than that needs. The width set by SET WIDTH applies to all messages and listings. With SET SCROLL PROMPTED the pages of a listing are its lines, in order, each page at most as long as the screen is high; RETURN shows the next page, B the one before, S the rest, Q ends the listing, and the log holds what was printed once.",
  "inputs configurations", "all lines, widths, screen heights and sequences of answers to the paging prompt",
  "The golden tests use width 79 and few long lines.",
  "src/mminou.c", ["printLongLine@src/mminou.c", "print2@src/mminou.c"],
  observe=["SHOW STATEMENT and other listings"],
  tech="bounded-exhaustive enumeration of texts x widths on the real program against a reference",
  note="Exhaustive over word-length patterns around the width.")

p("E04", "Fatal error messages are formatted faithfully and bounded",
  "The fatal-error module composes its message from a format with %s, %u and %% exactly, for every argument including null strings and the largest numbers, and marks a message that does not fit as truncated instead of overrunning its buffer. The process ends with a failure status after printing it.",
  "inputs", "all short formats and argument lengths around the buffer size",
  "The unit tests check a fixed list of formats.",
  "src/mmfatl.c src/mmfatl.h", ["fatalErrorPush@src/mmfatl.c", "fatalErrorExitAt@src/mmfatl.c"],
  observe=["stderr and exit status"],
  tech="bounded-exhaustive enumeration of formats and lengths on the real functions against a reference formatter",
  note="All formats over the token alphabet up to the length and all text lengths across the buffer boundary; under AddressSanitizer.")

p("F01", "Abbreviated commands mean exactly the full command",
  "A command typed with every keyword cut to any unambiguous prefix, in any letter case, does exactly what the full command does; an ambiguous or unknown keyword is rejected with an error and has no effect.",
  "inputs", "all prefixes of all keywords",
  "The golden tests use a few abbreviations.",
  "src/mmcmdl.c", ["processCommandLine@src/mmcmdl.c", "getFullArg@src/mmcmdl.c", "parseCommandLine@src/mmcmdl.c"],
  observe=["output of each command"],
  tech="exhaustive enumeration of keyword prefixes on the real program, differential against the full form",
  note="All prefixes of every keyword of the command table.")

p("F02", "SUBMIT behaves as if the commands had been typed",
  "Running a command file with SUBMIT has exactly the effect of typing its lines, for every nesting of command files; /SILENT suppresses output only. After a command file ends, input continues where the SUBMIT command was.",
  "histories", "all nestings and command splits",
  "No golden test submits a file.",
  "src/metamath.c src/mminou.c", ["SUBMIT command@src/metamath.c", "cmdInput1@src/mminou.c"],
  observe=["output, files, following commands"],
  tech="exhaustive enumeration of the ways to split a command list over nested files, differential on the real program",
  note="All splits up to the nesting depth.")

p("F03", "A log file contains exactly the session between OPEN and CLOSE",
  "The file opened by OPEN LOG contains exactly the commands and output between OPEN LOG and CLOSE LOG (or the end of the session), in order, whatever the commands were; what happens before and after is not in it, and the output itself is not changed by logging.",
  "histories", "all command sequences",
  "No golden test opens a log.",
  "src/mminou.c src/metamath.c", ["print2@src/mminou.c", "cmdInput1@src/mminou.c", "OPEN LOG@src/metamath.c"],
  observe=["the log file"],
  tech="explicit-state exploration of open/close/command sequences, log compared with the session",
  note="All sequences up to the depth.")

p("F04", "Answers depend only on the database, not on the session's history",
  "After ERASE and a new READ every command answers as in a fresh session with the same settings, and commands that only inspect the database (SHOW, SEARCH, VERIFY, HELP and so on) change neither the database nor the answer of any later command, apart from the default statement the SHOW commands offer.",
  "histories", "all sequences of commands and re-reads",
  "Each golden test runs a few commands once; caches and leftover state show only in sequences.",
  "src/mmcmds.c src/metamath.c src/mmdata.c src/mmwtex.c", ["eraseSource@src/mmcmds.c", "getContrib@src/mmdata.c", "getMarkupFlag@src/mmdata.c", "eraseTexDefs@src/mmwtex.c"],
  observe=["output of every command"],
  tech="exhaustive enumeration of command sequences on the real program, differential against a fresh session",
  note="All ordered pairs (and triples in the thorough tier) of the command alphabet, over two databases.")

p("F05", "Unsaved work is never discarded silently",
  "If the session holds changes that are not in a file (a saved proof not yet written, or a proof in progress not yet saved), EXIT, QUIT, ERASE and leaving the Proof Assistant warn and ask before discarding them, and any answer but yes keeps everything; without unsaved changes they do not ask.",
  "histories", "all sequences of changes, saves, writes and exits",
  "No golden test makes a change.",
  "src/metamath.c", ["EXIT/QUIT/ERASE commands@src/metamath.c"],
  state=[dict(name="changed flags", meaning="unsaved source or proof changes", where="src/mmcmdl.c")],
  observe=["prompts, program end, later state"],
  tech="explicit-state model of the unsaved-change state, all command sequences up to a depth replayed on the real program",
  note="All sequences up to the depth; every transition compared with the program.")

p("F06", "No input makes the program crash or corrupt memory",
  "Neither reading, verifying and showing a file of any content nor any command line given on a well-formed database makes the program read or write outside its objects, use freed memory, hit an internal bug check or end abnormally (exhausted memory excepted, and bug checks after a reported error, which the program announces); it reports an error and stays usable, and it ends when its input ends.",
  "inputs histories", "all files and command sequences",
  "The tests run without memory checking on well-behaved input.",
  "src/mmpars.c src/mmveri.c src/mmcmdl.c src/metamath.c src/mmpfas.c src/mmcmds.c", ["the whole program@src/"],
  observe=["exit status, sanitizer reports, bug messages"],
  tech="bounded-exhaustive enumeration of inputs and command sequences on an AddressSanitizer build of the real program",
  note="Exhaustive over the enumerated inputs; only errors the sanitizers can see.")

p("F07", "SHOW SETTINGS tells the state the commands have put the program in",
  "Each SET command changes exactly the setting it is for, to the documented value (numbers below the minimum are raised to it, the root directory gets its slash), and an invalid value changes nothing; the value offered at the prompt of an incomplete SET command is the current one, or the opposite of a switch, and is what ENTER takes. No other command changes a setting except those documented to (READ and ERASE the database and the empty substitutions that belong to it, PROVE, OPEN and CLOSE LOG, SHOW STATEMENT and the output modes). SHOW SETTINGS reports all this truly at any time; the root directory is the one files are read from, included from and written to, and the contributor the one new proofs get.",
  "histories", "all sequences of commands and values",
  "The tests set a few values once.",
  "src/metamath.c src/mmcmdl.c src/mmpfas.c src/mmcmds.c", ["SET@src/metamath.c", "SHOW SETTINGS@src/metamath.c", "getFullArg@src/mmcmdl.c", "processUndoStack@src/mmpfas.c", "eraseSource@src/mmcmds.c"],
  observe=["SHOW SETTINGS output", "the answers of the SET commands", "files read and written"],
  tech="bounded-exhaustive enumeration of command sequences on the real program against a reference model of the settings",
  note="Exhaustive over the command alphabet to depth 2 (3 for a core and in the thorough tier).")

p("G01", "Markup verification reports exactly the defects of comments",
  "VERIFY MARKUP warns about a database if and only if one of the documented conventions of comments, labels, contributor and date markup, section headers or discouraged tags is broken, at the statement concerned; it claims that no errors were found exactly when it warned about nothing; and each skipping option suppresses only its own class of checks.",
  "inputs", "all small variations of comments",
  "Four golden tests run it on small files.",
  "src/mmcmds.c src/mmdata.c src/mmwtex.c", ["verifyMarkup@src/mmcmds.c", "getContrib@src/mmdata.c", "parseDate@src/mmdata.c"],
  observe=["VERIFY MARKUP output"],
  tech="bounded-exhaustive enumeration of comment variations on the real program against a reference of the rules",
  note="Exhaustive over the variation alphabet.")

p("G02", "HTML and LaTeX output renders formulas and text faithfully",
  "In the HTML and LaTeX output for a statement each math symbol is rendered by its definition in the typesetting comment, in order; all other text appears with the characters special to the target format escaped and white space and blank lines kept (the space between a parenthesis or punctuation and a formula or link may be dropped); labels, external links, bibliographic references, emphasis, subscripts and escaped delimiters are rendered as HELP MARKUP documents; the MARKUP command processes exactly the kinds of markup it is asked for; and the page of a theorem shows the steps, references and formulas of its proof and the axioms, definitions and users it has.",
  "inputs", "all short comments over the markup alphabet, formulas, definitions, proofs",
  "One golden test renders one fixed comment.",
  "src/mmwtex.c src/mmcmds.c", ["printTexComment@src/mmwtex.c", "printTexLongMath@src/mmwtex.c", "readTexDefs@src/mmwtex.c", "typeProof@src/mmcmds.c"],
  observe=["the written pages"],
  tech="bounded-exhaustive enumeration of comments, formulas, definitions and proofs on the real program against a reference renderer",
  note="Exhaustive over the alphabet.")

p("G03", "Generated listings contain exactly the statements they describe",
  "The listings made from the database agree with it. SHOW DISCOURAGED names every theorem whose description carries the proof-modification tag with the length of its proof, every statement carrying the new-usage tag with the number of statements that use it, and each of these users. WRITE THEOREM_LIST writes exactly the pages needed for the requested page size; together they show every $a and $p statement once, in database order, with its kind, number, link, distinct-variable mark, description and formula (but not the formula of a lemma unless asked), the section headers where they belong, and a table of contents and page list whose links all lead where they say. WRITE BIBLIOGRAPHY lists every bibliographic reference of the form documented in its help once, with all its statements, by author and page. WRITE RECENT_ADDITIONS lists the statements with the most recent dates, up to the limit, latest first. The last two change nothing outside the START and END lines of the file, keep the old file as a backup, and leave a file without these lines as it was.",
  "inputs", "all small databases of tagged, dated, referenced statements and section headers",
  "No test runs these commands on more than one small file.",
  "src/mmcmds.c src/mmwtex.c src/metamath.c", ["showDiscouraged@src/mmcmds.c", "writeTheoremList@src/mmwtex.c", "getSectionHeadings@src/mmwtex.c", "writeBibliography@src/mmwtex.c", "WRITE RECENT_ADDITIONS@src/metamath.c"],
  observe=["SHOW DISCOURAGED output", "mmtheorems*.html", "the updated bibliography and recent-additions files"],
  tech="bounded-exhaustive enumeration of databases and options on the real program against a reference of each listing",
  note="Exhaustive over small databases of every listing.")

p("G04", "A statement's web page tells the truth about the statement",
  "The page written by SHOW STATEMENT /HTML or /ALT_HTML gives the statement's kind and number, links to the statements before and after it and to its place in the theorem list, and for a theorem exactly the axioms and definitions behind its proof, a warning naming exactly the unproved theorems it depends on, and its syntax hints; for every assertion its hypotheses (with the variables' types for syntax), its formula, distinct variable groups that stand for exactly its $d pairs, and exactly the theorems that use it. Axioms and definitions get a correct syntax breakdown, syntax statements a link to the first axiom or definition that uses them. Dummy variables and allowed substitutions are those that follow from the $d conditions.",
  "inputs", "all dependency graphs, formulas, distinct variable conditions and lengths of databases within the bounds",
  "The golden tests write no statement page with a proof.",
  "src/mmcmds.c src/mmwtex.c", ["typeStatement@src/mmcmds.c", "typeProof@src/mmcmds.c", "htmlDummyVars@src/mmcmds.c", "htmlAllowedSubst@src/mmcmds.c", "printTexHeader@src/mmwtex.c"],
  observe=["SHOW STATEMENT /HTML pages", "SHOW STATEMENT /ALT_HTML pages"],
  tech="bounded-exhaustive enumeration of databases on the real program, pages read back and compared with a reference",
  note="Exhaustive over graphs on up to four theorems, formulas to depth two, distinct variable graphs on four variables. The conventions ax-, df-, |-, wff, setvar and class are those the program documents.")

def main():
    have = lambda i: os.path.exists(os.path.join(V, "checks", "c_%s.py" % i))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            a = {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]]}
            if x["state"]: a["state"] = list(x["state"])
            if x["observe"]: a["observe_at"] = x["observe"]
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
                                "quantifier": {"over": x["over"], "text": x["text"]},
                                "why_tests_cant": x["why"], "anchors": a}) + "\n")
    checks, na = [], []
    for x in P:
        if have(x["id"]) and not x["na"]:
            lv = re.search(r'^LEVEL = "(\w+)"', open(os.path.join(V, "checks", "c_%s.py" % x["id"])).read(), re.M).group(1)
            checks.append({"property": x["id"], "quick_cmd": "python3 run.py %s" % x["id"],
                           "thorough_cmd": "python3 run.py %s --thorough" % x["id"],
                           "technique": x["tech"], "level": lv, "level_note": x["note"]})
        else:
            na.append({"property": x["id"], "reason": x["na"] or "no check has been built for it yet"})
    m = {"version": 1, "setup_cmd": "python3 setup_check.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the checks compile /repo/src unchanged (main renamed on the compiler command line) into a fork server. Technique throughout: bounded-exhaustive / explicit-state exploration of the real program against reference models; see DESIGN.md."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "not claimed")
main()
