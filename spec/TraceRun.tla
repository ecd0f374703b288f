------------------------------ MODULE TraceRun ------------------------------
(* Generic trace validator.  A case is one recorded behaviour of the real    *)
(* code: a record with fields id and events.  For every case TLC explores    *)
(* the specification's steps, constrained by the recorded events; a case is  *)
(* accepted when some behaviour of the specification matches every event.    *)
(* The verdict is total: every case ends in a DONE line or in FAIL lines     *)
(* naming the violated clause.                                               *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Cases,          \* sequence of cases
          InitSt(_),      \* case -> initial specification state
          Steps(_, _, _)  \* case, state, event -> set of [bad, st]; bad = "" when the event conforms
VARIABLES cs, l, st

NEv(c) == Len(Cases[c].events)
Init == /\ cs \in 1..Len(Cases)
        /\ l = 0
        /\ st = InitSt(Cases[cs])
        /\ NEv(cs) = 0 => PrintT("DONE|" \o ToString(Cases[cs].id))
Next == /\ l < NEv(cs)
        /\ \E r \in Steps(Cases[cs], st, Cases[cs].events[l + 1]) :
             IF r.bad = ""
             THEN /\ st' = r.st
                  /\ l' = l + 1
                  /\ cs' = cs
                  /\ l' = NEv(cs) => PrintT("DONE|" \o ToString(Cases[cs].id))
             ELSE /\ PrintT("FAIL|" \o ToString(Cases[cs].id) \o "|" \o ToString(l + 1) \o "|" \o r.bad)
                  /\ FALSE
                  /\ UNCHANGED <<cs, l, st>>
=============================================================================
