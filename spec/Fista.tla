------------------------------- MODULE Fista -------------------------------
(* Acceleration parameters of forward-backward: relaxation sequence, restart  *)
(* rules, step safeguard.  c: parameters, s: [t, n, r, d0, safe].  A restart  *)
(* test that sits on its boundary may go either way, unless the case is exact *)
(* (c.exact: all quantities representable without rounding).                  *)
EXTENDS Problem
FNone == "none"
FistaInit(c) == [t |-> "1.0", n |-> 0, r |-> c.r, d0 |-> FNone, safe |-> FALSE]
Exact(c) == "exact" \in DOMAIN c /\ c.exact
Adaptive == {"adaptive", "adaptive-i", "adaptive-1", "adaptive-ii", "adaptive-2"}
\* possible outcomes [crit, s] of the restart test for the points z, xn, xo
FistaRestart(c, s, z, xn, xo) ==
    LET a == VSub(z, xn)
        b == VSub(xn, xo)
        v == FRe(FVdot(a, b))
        delta == VNorm(b)
        Crit == IF c.restart = FNone THEN {FALSE}
                ELSE IF ~Exact(c) /\ NearZero(v, FMul(VNorm(a), VNorm(b))) THEN {TRUE, FALSE} ELSE {FGe(v, "0.0")}
        greedy == c.restart = "greedy"
        Safe == IF ~greedy \/ s.d0 = FNone THEN {s.safe}
                ELSE IF ~Exact(c) /\ FClose(delta, s.d0, "1e-8", "1e-22") THEN {TRUE, FALSE} ELSE {FGe(delta, s.d0)}
        Next(crit, safe) ==
            [t |-> IF crit /\ c.restart \in {"adaptive-ii", "adaptive-2"} THEN "1.0" ELSE s.t,
             n |-> s.n,
             r |-> IF crit /\ c.restart \in Adaptive THEN FMul(s.r, c.xi) ELSE s.r,
             d0 |-> IF greedy /\ s.d0 = FNone THEN FMul(c.sg, delta) ELSE s.d0,
             safe |-> safe]
    IN {[crit |-> crit, s |-> Next(crit, safe)] : crit \in Crit, safe \in Safe}
\* the safeguarded step
FistaBeta(c, s, beta) == IF s.safe THEN FMax(FMul(beta, c.xi), c.minb) ELSE beta
\* the next relaxation parameter, and the state after producing it
FistaLambda(c, s) ==
    IF c.restart = "greedy" THEN [lam |-> "2.0", s |-> s]
    ELSE LET tn == IF c.mode = "CD" THEN FDiv(FSub(FAdd(FOf(s.n), c.a), "1.0"), c.a)
                   ELSE FMul("0.5", FAdd(c.pl, FSqrt(FAdd(FMul(s.r, FMul(s.t, s.t)), c.q))))
         IN [lam |-> FAdd("1.0", FDiv(FSub(s.t, "1.0"), tn)), s |-> [s EXCEPT !.t = tn, !.n = @ + 1]]
=============================================================================
