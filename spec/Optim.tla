------------------------------- MODULE Optim -------------------------------
(* Optimality for  1/2 |A x - y|^2 + <c, x> + g(x) + h(L x),  with g a sum of *)
(* separable terms  W|x| + D/2 |x|^2 - <C, x>  and possibly positivity, and   *)
(* h = v|.|  (weight vector v).                                               *)
EXTENDS Algo

PenProx(q, v, b) ==
    TLCEval([i \in DOMAIN v |->
        LET t == FDiv(Shrink(FAdd(v[i], FMul(b, q.C[i])), FMul(b, q.W[i])), FAdd("1.0", FMul(b, q.D[i])))
        IN IF q.pos THEN FMax(t, "0.0") ELSE t])
PenValue(q, x) ==
    IF q.pos /\ \E i \in DOMAIN x : FLt(x[i], "0.0") THEN "Infinity" ELSE
    FSub(FSum([i \in DOMAIN x |-> FAdd(FMul(q.W[i], FAbs(x[i])), FMul("0.5", FMul(q.D[i], FMul(FAbs(x[i]), FAbs(x[i])))))]),
         FRe(FVdot(q.C, x)))
Objective(p, q, x) == FAdd(Smooth(p, x), PenValue(q, x))
\* zero exactly at a minimiser (for any step b > 0)
Resid(p, q, x) == VNorm(VSub(x, PenProx(q, VAxpy(x, "-0.5", Grad(p, x)), "0.5")))
\* primal-dual pair: zero exactly at a saddle point
PDPrimal(p, q, lin, x, y) ==
    VNorm(VSub(x, PenProx(q, VAxpy(x, "-0.5", VAdd(Grad(p, x), LinAdj(lin, y))), "0.5")))
PDDual(hw, lin, x, y) ==
    LET v == VAdd(y, LinOp(lin, x))
        pr == TLCEval([i \in DOMAIN v |-> Shrink(v[i], hw[i])])
    IN VNorm(VSub(y, VSub(v, pr)))
\* the penalty of one proximity operator of Problem.tla, and sums
PenOf(q, n) == [W |-> IF q.t = "soft" THEN q.w ELSE VZero(n), D |-> IF q.t = "aff" THEN q.d ELSE VZero(n),
                C |-> IF q.t = "aff" THEN q.w ELSE VZero(n), pos |-> q.t = "pos"]
PenAdd(a, b) == [W |-> VAdd(a.W, b.W), D |-> VAdd(a.D, b.D), C |-> VAdd(a.C, b.C), pos |-> a.pos \/ b.pos]
RECURSIVE PenSum(_, _)
PenSum(qs, n) == IF Len(qs) = 1 THEN PenOf(qs[1], n) ELSE PenAdd(PenOf(qs[1], n), PenSum(Tail(qs), n))
=============================================================================
