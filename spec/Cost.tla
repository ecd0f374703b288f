-------------------------------- MODULE Cost --------------------------------
(* Cost tracking: call counter, evaluation interval, list of evaluated costs, *)
(* non-overlapping test windows.                                              *)
EXTENDS Vec
CostInit == [calls |-> 0, costs |-> <<>>, win |-> <<>>]
\* the (calls+1)-th call evaluates the cost; interval 0 stands for "none"
Evaluates(c, s) == c.interval # 0 /\ (s.calls + 1) % c.interval = 0
CostStep(c, s, v) ==
    IF ~Evaluates(c, s) THEN [s EXCEPT !.calls = @ + 1]
    ELSE LET w == Append(s.win, v) IN
         [calls |-> s.calls + 1, costs |-> Append(s.costs, v),
          win |-> IF Len(w) = c.range THEN <<>> ELSE w]
WindowFull(c, s, v) == Evaluates(c, s) /\ Len(s.win) + 1 = c.range
\* relative change between the halves of a full window, as a scalar
Mean(s) == FDiv(FSum(s), FOf(Len(s)))
Change(w) ==
    LET h == Len(w) \div 2
        t1 == Mean(SubSeq(w, h + 1, Len(w)))
        t2 == Mean(SubSeq(w, 1, h))
    IN IF FLe(FAbs(t1), "5e-17") THEN "0.0"
       ELSE FDiv(FAbs(FSub(t1, t2)), FAbs(t1))
\* possible answers of the call: two when the change sits on the tolerance and
\* the halves are such that rounding may push it to either side
ExactHalves(c) == c.range \in {2, 3, 4, 8}
Answers(c, s, v) ==
    IF ~WindowFull(c, s, v) THEN {FALSE}
    ELSE LET d == Change(Append(s.win, v)) IN
         IF (ExactHalves(c) /\ FEq(d, c.tol)) \/ ~FClose(d, c.tol, "1e-9", "1e-15") THEN {FLe(d, c.tol)} ELSE {TRUE, FALSE}
=============================================================================
