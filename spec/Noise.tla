------------------------------- MODULE Noise -------------------------------
(* Adding noise: the data plus the draws scaled by sigma.  A sequence of     *)
(* sigma values scales the layers along the first axis one by one.  The      *)
(* source of randomness is a stream: an integer seed starts a new one, a     *)
(* generator object is continued, and a refused call draws nothing.          *)
EXTENDS Vec
SigmaAt(sigma, shape, p) ==
    IF Len(sigma) = 1 /\ sigma[1].k = "scalar" THEN sigma[1].v
    ELSE sigma[Idx(shape, p)[1] + 1].v
Noisy(x, sigma, draws) ==
    Arr(x.shape, TLCEval([p \in 1..Size(x.shape) |-> FAdd(x.data[p], FMul(SigmaAt(sigma, x.shape, p), draws[p]))]))
Refused(type, x, sigma) ==
    \/ type \notin {"gauss", "poisson"}
    \/ ~(Len(sigma) = 1 /\ sigma[1].k = "scalar") /\ Len(sigma) # x.shape[1]
=============================================================================
