-------------------------------- MODULE MCMr --------------------------------
(* Two calls sharing a directory: every interleaving, outcome and keep flag. *)
EXTENDS Mr, Json
CONSTANTS Calls, Modes
VARIABLES pc, fs, mode, keep, hist
vars == <<pc, fs, mode, keep, hist>>
Init == /\ pc = [c \in Calls |-> "idle"] /\ fs = {} /\ hist = <<>>
        /\ mode \in [Calls -> Modes] /\ keep \in [Calls -> BOOLEAN]
Start(c) == /\ pc[c] = "idle" /\ (c = 1 \/ pc[1] # "idle")    \* the calls are interchangeable
            /\ pc' = [pc EXCEPT ![c] = "run"] /\ fs' = fs \cup StartFiles(c)
            /\ hist' = Append(hist, <<"start", c>>)
End(c) == /\ pc[c] = "run" /\ pc' = [pc EXCEPT ![c] = "done"]
          /\ \E left \in Left(c, mode[c], keep[c]) : fs' = (fs \ {<<c, "fits">>, <<c, "mr">>}) \cup left
          /\ hist' = Append(hist, <<"end", c>>)
Next == \E c \in Calls : (Start(c) \/ End(c)) /\ UNCHANGED <<mode, keep>>
Spec == Init /\ [][Next]_vars
AllDone == \A c \in Calls : pc[c] = "done"
Emit == AllDone => PrintT("BEH " \o ToJson([mode |-> mode, keep |-> keep, hist |-> hist]))
CleanUp == AllDone => \A f \in fs : keep[f[1]]
InputThere == \A c \in Calls : pc[c] = "run" => <<c, "fits">> \in fs
=============================================================================
