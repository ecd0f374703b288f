------------------------------- MODULE MCDiag ------------------------------
(* Every search path of up to N directories, every direct name, every file.  *)
EXTENDS Diag, Json
CONSTANT N
VARIABLES q
Paths == UNION {[1..n -> Kinds] : n \in 1..N}
Exes == {[t |-> "exe", form |-> "bare", path |-> p, direct |-> "absent"] : p \in Paths}
        \cup {[t |-> "exe", form |-> "direct", path |-> <<p>>, direct |-> k] : k \in Kinds, p \in {"absent", "exec"}}
        \cup {[t |-> "exe", form |-> "other", path |-> <<"exec">>, direct |-> "absent"]}
Files == {[t |-> "file", form |-> f, path |-> <<"absent">>, direct |-> k] : f \in {"normal", "empty", "option"}, k \in Kinds}
Init == q \in Exes \cup Files
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
Emit == PrintT("BEH " \o ToJson(q))
\* adding a directory to the search path never hides an executable; order does not matter
Monotone == q.t = "exe" /\ q.form = "bare" /\ ExeErr(q) = "" =>
              \A k \in Kinds : ExeErr([q EXCEPT !.path = Append(@, k)]) = "" /\ ExeErr([q EXCEPT !.path = <<k>> \o @]) = ""
=============================================================================
