----------------------------- MODULE MCReweight -----------------------------
(* Histories of one reweighting object: good data (real or complex), data of  *)
(* the wrong shape, and reads through an operator sharing the weights.        *)
EXTENDS Reweight, Json
CONSTANTS Depth, Data, W0, N
VARIABLES w, hist
vars == <<w, hist>>
Init == w = W0 /\ hist = <<>>
Good(k) == /\ w' = NewWeights(w, W0, N, Data[k])
           /\ hist' = Append(hist, [op |-> "reweight", k |-> k, w |-> w'])
Bad == /\ w' = w
       /\ hist' = Append(hist, [op |-> "bad", k |-> 0, w |-> w])
Use == /\ w' = w
       /\ hist' = Append(hist, [op |-> "use", k |-> 0, w |-> w])
Next == Len(hist) < Depth /\ (Bad \/ Use \/ \E k \in DOMAIN Data : Good(k))
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT("BEH " \o ToJson(hist))
\* the design: weights stay positive, never grow, and a zero coefficient keeps its weight
NeverGrow == [][\A i \in DOMAIN w : FLe(w'[i], w[i]) /\ FLt("0.0", w'[i])]_vars
\* the order of the data does not matter
Total == \A i \in DOMAIN w :
    FClose(w[i], FMul(W0[i], FDiv("1.0", LET RECURSIVE P(_)
                                            P(n) == IF n = 0 THEN "1.0"
                                                    ELSE LET h == hist[n] IN
                                                         IF h.op # "reweight" THEN P(n - 1)
                                                         ELSE FMul(P(n - 1), FAdd("1.0", FDiv(FAbs(Data[h.k][i]), FMul(N, W0[i]))))
                                        IN P(Len(hist)))), "1e-12", "0.0")
=============================================================================
