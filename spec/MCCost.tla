------------------------------- MODULE MCCost -------------------------------
(* All cost histories within the bounds, printed for replay.                  *)
EXTENDS Cost, Json
CONSTANTS Intervals, Ranges, Tols, Vals, NCalls
VARIABLES c, s, vals, ans
vars == <<c, s, vals, ans>>
Init == /\ c \in [interval : Intervals, range : Ranges, tol : Tols]
        /\ s = CostInit /\ vals = <<>> /\ ans = <<>>
Call == /\ Len(vals) < NCalls
        /\ \E v \in (IF Evaluates(c, s) THEN Vals ELSE {"0.0"}) :
             \E a \in Answers(c, s, v) :
               /\ s' = CostStep(c, s, v) /\ vals' = Append(vals, v) /\ ans' = Append(ans, a) /\ c' = c
Next == Call
Spec == Init /\ [][Next]_vars
Emit == Len(vals) = NCalls => PrintT("BEH " \o ToJson([c |-> c, vals |-> vals, ans |-> ans, costs |-> s.costs]))
\* the design
NeverWithoutInterval == c.interval = 0 => s.costs = <<>> /\ \A k \in DOMAIN ans : ~ans[k]
CountRight == c.interval # 0 => Len(s.costs) = s.calls \div c.interval
OnlyAtWindowEnds == \A k \in DOMAIN ans : ans[k] => k % (c.interval * c.range) = 0
WindowShort == Len(s.win) < c.range
ConstantConverges == \A k \in DOMAIN ans :
    (c.interval # 0 /\ (ExactHalves(c) \/ c.tol # "0.0") /\ k % (c.interval * c.range) = 0
       /\ \A j \in 1..Len(s.costs) : s.costs[j] = s.costs[1]) => ans[k]
=============================================================================
