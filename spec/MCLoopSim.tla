----------------------------- MODULE MCLoopSim -----------------------------
(* Random long behaviours of MCLoop with many metrics: same driver, the      *)
(* environment's choices drawn instead of branched over.                     *)
EXTENDS MCLoop
DrawMet(n) == {[m \in 1..n |-> RandomElement(MVals)]}
=============================================================================
