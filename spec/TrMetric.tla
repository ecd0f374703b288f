------------------------------ MODULE TrMetric ------------------------------
(* A metric observer with any window and tolerance: state = values so far and *)
(* the convergence flag.  Near the tolerance both verdicts are accepted.      *)
EXTENDS FnBase
VARIABLES cs, l, st

Mean(s) == FDiv(FSum(s), FOf(Len(s)))
\* newer half: the last wind \div 2 values (at least one half is non-empty)
Residual(vals, wind) ==
    LET w == SubSeq(vals, Len(vals) - wind + 1, Len(vals))
        nc == wind \div 2
        o == Mean(SubSeq(w, 1, wind - nc))
        c == Mean(SubSeq(w, wind - nc + 1, wind))
    IN FDiv(FAbs(FSub(o, c)), FAbs(o))
Flags(c, s, vals) ==
    IF ~c.early \/ Len(vals) < c.wind THEN {s.flag}
    ELSE LET r == Residual(vals, c.wind) IN
         IF FClose(r, c.eps, "1e-9", "1e-13") THEN {TRUE, FALSE} ELSE {FLt(r, c.eps)}
InitSt(c) == [vals |-> <<>>, flag |-> FALSE]
Steps(c, s, ev) ==
    LET vals == Append(s.vals, ev.v) IN
    {[bad |-> IF ev.raised THEN "metric observer raised"
              ELSE IF ev.n # Len(vals) THEN "metric observer lost or duplicated a record"
              ELSE IF ev.flag # f THEN "early stopping flag wrong"
              ELSE "",
      st |-> [vals |-> vals, flag |-> f]] : f \in Flags(c, s, vals)}
INSTANCE TraceRun
=============================================================================
