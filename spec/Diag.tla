------------------------------- MODULE Diag --------------------------------
(* Diagnostics: executables and input files as the file system offers them,  *)
(* reports on the terminal, the transpose test, the cost plot.               *)
EXTENDS Vec
\* what a directory entry can be
Kinds == {"absent", "plain", "exec", "dir", "link", "dangling"}
Runs(k) == k \in {"exec", "link"}               \* link: to an executable file
\* a bare name is looked up in the directories of PATH, a name with a directory is taken as it is
ExeOk(q) == IF q.form = "bare" THEN \E i \in DOMAIN q.path : Runs(q.path[i]) ELSE Runs(q.direct)
ExeErr(q) == IF q.form = "other" THEN "TypeError" ELSE IF ExeOk(q) THEN "" ELSE "OSError"
\* an input file must be named, not look like an option, and be there
IsFile(k) == k \in {"plain", "exec", "link"}
FileErr(q) == IF q.form = "normal" /\ IsFile(q.direct) THEN "" ELSE "OSError"
\* one line on the terminal; the log (if any) gets the message too
Report(what, msg) == <<what \o ": " \o msg>>
\* | <M x, y> - <x, T y> |
Gap(M, T, x, y) == FAbs(FSub(FDotU(MatVec(M, x), y), FDotU(x, MatVec(T, y))))
PlotFile(output) == IF output = "none" THEN "cost_function.png" ELSE output \o "_cost_function.png"
=============================================================================
