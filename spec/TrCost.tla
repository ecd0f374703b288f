------------------------------- MODULE TrCost -------------------------------
EXTENDS FnBase, Cost
VARIABLES cs, l, st
\* event: parts (cost of each operator), ans, cur (published current cost), raised, argsok, hist (log10 of the costs kept, when hasy)
InitSt(c) == CostInit
Total(ev) == FSum(ev.parts)
Steps(c, s, ev) ==
    LET v == Total(ev)
        n == CostStep(c, s, v)
        cur == IF n.costs = <<>> THEN c.initial ELSE n.costs[Len(n.costs)]
    IN {[bad |-> IF ev.raised # "" THEN "get_cost raised " \o ev.raised
                 ELSE IF ev.evaluated # Evaluates(c, s) THEN "cost evaluated at the wrong call"
                 ELSE IF ~ev.argsok THEN "operator costs not called with the arguments given"
                 ELSE IF ev.ans # a THEN "convergence verdict wrong"
                 ELSE IF ~FClose(ev.cur, cur, "1e-12", "1e-300") THEN "published cost is not the sum of the operator costs"
                 ELSE IF ev.hasy /\ ~VCloseEl(ev.hist, VMap(FLog10, n.costs), "1e-9", "1e-12") THEN "kept costs wrong"
                 ELSE "",
         st |-> n] : a \in Answers(c, s, v)}
INSTANCE TraceRun
=============================================================================
