"""The command table of the program, for generating command lines.
An entry: (keywords, argument kinds, {switch: argument kinds}).
Kinds: L label or pattern, N number, S any string, F existing file, O output file,
P proof step, M math string, K closed keyword list (given as tuple)."""
NUMS = ["0", "1", "2", "7", "-1", "99999", "2147483648", "99999999999999999999", "x", "1.5"]
LABELS = ["t", "u", "a", "f", "h", "nolabel", "*", "?", "?*", "\"\"", "t~u", "u~t", "~", "t~", "~t", "t,u", ",", "@1", "#3", "#0", "#999", "%", "=", "=t", "\"t u\"",
          "q" * 300, "t\x80", "$", "\"*~*~*\"", "\"a*,?,u~\""]
STEPS = ["first", "last", "all", "0", "1", "2", "3", "4", "9", "-1", "-99", "99999999999", "+0", "+1", "+99", "x", "t", "\"\"", "1.5", "%"]
MATH = ["\"x\"", "\"( x\"", "\"|- ( x\"", "\"w x\"", "\"\"", "\"$1\"", "\"$0\"", "\"$99\"", "\"$-1\"", "\"$x\"", "\"$\"", "\"nosym\"", "\"$* x\"", "\"$? $*\"", "x", "\"" + "( " * 400 + "x\"", "\"x$1\"", "\"$1 $2 $3 $4\""]
STRS = ["\"\"", "\"x\"", "\" \"", "\"" + "z" * 1500 + "\"", "\"a\x80b\"", "\"%s%n\"", "\"\\n\"", "'\"'", "\"$(\""]
OUTF = ["o.x", "\"\"", "nodir/o.x", "\"o o\"", "f.mm"]
INF = ["f.mm", "g.txt", "nofile", "\"\"", "e.txt"]
VAL = dict(N=NUMS, L=LABELS, P=STEPS, M=MATH, S=STRS, O=OUTF, F=INF)
K = lambda *a: tuple(a)

PROOFSW = dict(essential="", all="", unknown="", from_step="N", to_step="N", depth="N", reverse="", verbose="", normal="", packed="", compressed="",
               explicit="", old_compression="", tex="", html="", lemmon="", start_column="N", no_repeated_steps="", renumber="")
def sw(**k): return k
MAIN = [
 ("read", "F", sw(verify="")),
 ("write source", "O", sw(format="", rewrap="", split="", no_versioning="", keep_includes="", extract="L")),
 ("write theorem_list", "", sw(theorems_per_page="N", show_lemmas="", html="", alt_html="", no_versioning="")),
 ("write bibliography", "O", {}),
 ("write recent_additions", "O", sw(limit="N", html="", alt_html="")),
 ("open log", "O", {}), ("open tex", "O", sw(no_header="", old_tex="")), ("close log", "", {}), ("close tex", "", {}),
 ("file search", "FS", sw(from_line="N", to_line="N")),
 ("show settings", "", {}), ("show memory", "", {}), ("show elapsed_time", "", {}), ("show discouraged", "", {}),
 ("show labels", "L", sw(all="", linear="")),
 ("show statement", "L", sw(full="", comment="", tex="", old_tex="", html="", alt_html="", time="", brief_html="", brief_alt_html="", mnemonics="", no_versioning="")),
 ("show source", "L", {}),
 ("show proof", "L", dict(PROOFSW, fast="", statement_summary="", detailed_step="N", old_tex="", size="")),
 ("show trace_back", "L", sw(all="", essential="", axioms="", tree="", depth="N", count_steps="", match="L", to="L")),
 ("show usage", "L", sw(direct="", recursive="", all="")),
 ("search", "LM", sw(all="", comments="", join="")),
 ("save proof", "L", sw(normal="", packed="", compressed="", explicit="", fast="", old_compression="", time="")),
 ("set width", "N", {}), ("set height", "N", {}), ("set undo", "N", {}), ("set search_limit", "N", {}), ("set unification_timeout", "N", {}),
 ("set echo", (K("on", "off", ""),), {}), ("set discouragement", (K("on", "off", ""),), {}), ("set memory_status", (K("on", "off", ""),), {}),
 ("set jeremy_henty_filter", (K("on", "off", ""),), {}), ("set empty_substitution", (K("on", "off", ""),), {}),
 ("set scroll", (K("continuous", "prompted"),), {}), ("set contributor", "S", {}), ("set root_directory", "S", {}),
 ("verify proof", "L", sw(syntax_only="")),
 ("verify markup", "L", sw(date_skip="", file_skip="", top_date_skip="", verbose="", file_check="", top_date_check="", underscore_skip="", mathbox_skip="")),
 ("markup", "FO", sw(html="", alt_html="", symbols="", labels="", number_after_label="", bib_refs="", underscores="", css="")),
 ("midi", "L", sw(parameter="S")),
 ("more", "F", {}), ("submit", "F", sw(silent="")), ("beep", "", {}), ("erase", "", {}), ("tools", "", {}), ("help", "", {}),
 ("prove", "L", sw(override="")), ("exit", "", sw(force="")), ("quit", "", sw(force="")),
]
PA = [
 ("show new_proof", "", dict(PROOFSW, not_unified="")),
 ("save new_proof", "", sw(normal="", packed="", compressed="", explicit="", old_compression="", override="")),
 ("match step", "P", sw(max_essential_hyp="N")), ("match all", "", sw(essential="", max_essential_hyp="N")),
 ("initialize step", "P", {}), ("initialize all", "", {}), ("initialize user", "", {}),
 ("improve", "P", {"depth": "N", "no_distinct": "", "1": "", "2": "", "3": "", "subproofs": "", "override": "", "include_mathboxes": ""}),
 ("minimize_with", "L", sw(verbose="", may_grow="", override="", include_mathboxes="", time="", allow_new_axioms="L", no_new_axioms_from="L", forbid="L")),
 ("minimize_with", "L", {"except": "L"}),
 ("expand", "L", {}), ("unify step", "P", {}), ("unify all", "", sw(interactive="")),
 ("delete step", "P", {}), ("delete all", "", {}), ("delete floating_hypotheses", "", {}),
 ("replace", "PL", sw(override="")), ("assign", "PL", sw(no_unify="", override="")),
 ("let step", ("P", K("="), "M"), {}), ("let variable", ("M", K("="), "M"), {}),
 ("undo", "", {}), ("redo", "", {}), ("_exit_pa", "", sw(force="")),
]
TOOLS = [
 ("add", "FSS", {}), ("tag", "FSSSNSN", {}), ("delete", "FSS", {}), ("clean", "FS", {}), ("swap", "FS", {}), ("substitute", "FSSSS", {}), ("s", "FSSSS", {}),
 ("insert", "FSN", {}), ("break", "FS", {}), ("match", "FSS", {}), ("sort", "FS", {}), ("unduplicate", "F", {}), ("duplicate", "F", {}), ("unique", "F", {}),
 ("reverse", "F", {}), ("build", "F", {}), ("right", "F", {}), ("count", "FS", {}), ("copy", "SO", {}), ("number", "ONNN", {}), ("type", "FN", {}),
 ("update", "FFOSN", {}), ("parallel", "FFOS", {}), ("beep", "", {}), ("help", "", {}), ("submit", "F", {}), ("exit", "", {}),
]
HELPS = ["language", "proof_assistant", "mm-pa", "beep", "exit", "quit", "read", "erase", "open log", "open tex", "close log", "close tex", "show memory", "show settings",
         "show labels", "show source", "show statement", "show proof", "show new_proof", "show usage", "show trace_back", "show elapsed_time", "show discouraged", "search",
         "set echo", "set scroll", "set width", "set height", "set undo", "set unification_timeout", "set discouragement", "set contributor", "set root_directory",
         "set empty_substitution", "set search_limit", "set jeremy_henty_filter", "verify proof", "verify markup", "submit", "system", "prove", "file search",
         "write source", "write theorem_list", "write bibliography", "write recent_additions", "markup", "assign", "replace", "match", "unify", "let", "initialize",
         "delete", "improve", "minimize_with", "expand", "undo", "redo", "save proof", "save new_proof", "demo", "invoke", "cli", "explore", "tex", "latex", "html",
         "comments", "bibliography", "more", "tools", "midi"]

def good(kind):
    """a value that works in the usual test database"""
    if isinstance(kind, tuple): return kind[0]
    return dict(N="2", L="t", P="1", M="\"x\"", S="\"x\"", O="o.x", F="g.txt")[kind]

def lines(table, deep=False):
    """every command with each argument set to each value of its kind (the others
    set to a good value), with every switch alone (and its argument to every value),
    and with every pair of switches when deep; and cut after every word"""
    for kw, args, sws in table:
        base = [good(a) for a in args]
        for a in range(len(args) + 1):
            yield " ".join([kw] + base[:a])                      # the program asks for the rest
        for i, a in enumerate(args):
            for v in (a if isinstance(a, tuple) else VAL[a]):
                yield " ".join([kw] + base[:i] + [v] + base[i + 1:])
        if deep and len(args) >= 2 and not any(isinstance(a, tuple) for a in args[:2]):
            for v in VAL[args[0]]:
                for w in VAL[args[1]]:
                    yield " ".join([kw, v, w] + base[2:])
        full = " ".join([kw] + base)
        one = []
        for s, sa in sws.items():
            one.append("/" + s + "".join(" " + good(a) for a in sa))
            yield full + "/" + s                                 # cut: asks for the switch argument
            for a in sa:
                for v in VAL[a]:
                    yield full + "/" + s + " " + v
            if args:
                for v in VAL[args[0]] if not isinstance(args[0], tuple) else ():
                    yield " ".join([kw, v] + base[1:]) + one[-1]
        for i in range(len(one)):
            for j in range(len(one)):
                if i != j and (deep or i < j):
                    yield full + one[i] + one[j]
        yield full + "/"
        yield full + " extra"
        yield full + "/nosuch"
