------------------------------ MODULE MCOptim ------------------------------
(* The recursions of Algo.tla, run on every problem of a grid: they converge  *)
(* to the minimiser, stay there, and plain forward-backward descends.         *)
EXTENDS Optim
CONSTANTS As, Ys, Ws, Ds, Starts, Steps
VARIABLES c, s, k, last
vars == <<c, s, k, last>>
V(a) == <<a>>
Prob(a, y) == [A |-> <<<<a>>>>, y |-> <<y>>, c |-> <<"0.0">>]
Q(t, w, d) == [t |-> t, w |-> <<w>>, d |-> <<d>>]
Proxs == {Q("id", "0.0", "0.0"), Q("pos", "0.0", "0.0")} \cup {Q("soft", w, "0.0") : w \in Ws} \cup {Q("aff", w, d) : w \in Ws, d \in Ds}
Simple == {Q("id", "0.0", "0.0"), Q("pos", "0.0", "0.0")}
Id == [t |-> "id"]
Fista == {[fista |-> FALSE, restart |-> "none", mode |-> "regular", a |-> "3.0"],
          [fista |-> TRUE, restart |-> "none", mode |-> "regular", a |-> "3.0"],
          [fista |-> TRUE, restart |-> "none", mode |-> "CD", a |-> "4.0"],
          [fista |-> TRUE, restart |-> "adaptive-i", mode |-> "regular", a |-> "3.0"],
          [fista |-> TRUE, restart |-> "adaptive-ii", mode |-> "regular", a |-> "3.0"],
          [fista |-> TRUE, restart |-> "greedy", mode |-> "regular", a |-> "3.0"]}
FB(p, q, x0, f) == [alg |-> "fb", p |-> p, prox |-> q, pen |-> PenOf(q, 1), x0 |-> x0, lin |-> Id, beta |-> "0.75", lam |-> "1.0",
    betaupd |-> "none", lamupd |-> "none", fista |-> f.fista, restart |-> f.restart, mode |-> f.mode, a |-> f.a,
    r |-> "4.0", q |-> "1.0", pl |-> "1.0", xi |-> "0.9", minb |-> "0.5", sg |-> "1.1"]
GFB(p, q1, q2, x0, w) == [alg |-> "gfb", p |-> p, proxs |-> <<q1, q2>>, pen |-> PenSum(<<q1, q2>>, 1), x0 |-> x0, lin |-> Id,
    gam |-> "0.75", lam |-> "1.0", gamupd |-> "none", lamupd |-> "none", w |-> <<w, FSub("1.0", w)>>]
POGM(p, q, x0) == [alg |-> "pogm", p |-> p, prox |-> q, pen |-> PenOf(q, 1), x0 |-> x0, u0 |-> x0, y0 |-> x0, z0 |-> x0, lin |-> Id,
    beta |-> "0.75", sigbar |-> "0.5"]
Condat(p, q, x0, y0, w, m) == [alg |-> "condat", p |-> p, prox |-> q, pen |-> PenOf(q, 1), x0 |-> x0, y0 |-> y0,
    dual |-> Q("soft", w, "0.0"), lin |-> [t |-> "mat", M |-> <<<<m>>>>, ncol |-> 1], rho |-> "0.9", sig |-> "0.5", tau |-> "0.5",
    rhoupd |-> "none", sigupd |-> "none", tauupd |-> "none", rwf |-> <<"1.0">>]
VGD(p, q, x0) == [alg |-> "gd", kind |-> "vanilla", p |-> p, prox |-> q, pen |-> PenOf(q, 1), x0 |-> x0, eta |-> "0.75", eps |-> "0.0",
    epoch |-> 1, beta |-> "0.0", gamma |-> "0.0", etaupd |-> "none", etaidx |-> "0.0"]
\* closed-form minimiser of 1/2 (a x - y)^2 + W|x| + D/2 x^2 - C x (+ positivity)
Best(p, q) ==
    LET a == p.A[1][1]
        t == FDiv(Shrink(FAdd(FMul(a, p.y[1]), q.C[1]), q.W[1]), FAdd(FMul(a, a), q.D[1]))
    IN <<IF q.pos THEN FMax(t, "0.0") ELSE t>>
\* with the extra term w|m x|
Best2(p, q, w, m) == Best(p, [q EXCEPT !.W = <<FAdd(@[1], FAbs(FMul(w, m)))>>])
Problems == {Prob(a, y) : a \in As, y \in Ys}
Xs(p, q) == {<<x>> : x \in Starts} \cup {Best(p, q)}
Cases ==
    UNION {{FB(p, q, x0, f) : x0 \in Xs(p, PenOf(q, 1))} : p \in Problems, q \in Proxs, f \in Fista}
    \cup UNION {{POGM(p, q, x0) : x0 \in Xs(p, PenOf(q, 1))} : p \in Problems, q \in Proxs}
    \cup UNION {{VGD(p, q, x0) : x0 \in Xs(p, PenOf(q, 1))} : p \in Problems, q \in Proxs}
    \cup {GFB(p, q1, q2, <<x>>, w) : p \in Problems, q1 \in Proxs, q2 \in Proxs, x \in Starts, w \in {"0.5", "0.25"}}
    \cup {Condat(p, q, <<x>>, <<y>>, w, m) : p \in Problems, q \in Simple, x \in Starts, y \in {"0.0", "1.0"}, w \in Ws, m \in {"1.0", "-0.5"}}
InitOf(cc) == CASE cc.alg = "fb" -> FBInit(cc) [] cc.alg = "gfb" -> GFBInit(cc) [] cc.alg = "pogm" -> POGMInit(cc)
                [] cc.alg = "condat" -> CondatInit(cc) [] cc.alg = "gd" -> GDInit(cc)
StepOf(cc, ss, idx) == CASE cc.alg = "fb" -> FBStep(cc, ss) [] cc.alg = "gfb" -> GFBStep(cc, ss) [] cc.alg = "pogm" -> POGMStep(cc, ss)
                [] cc.alg = "condat" -> CondatStep(cc, ss) [] cc.alg = "gd" -> GDStep(cc, ss, idx)
Init == c \in Cases /\ s = InitOf(c) /\ k = 0 /\ last = "Infinity"
\* where a sign test is decided by rounding one branch is followed
Next == /\ k < Steps
        /\ s' = TLCEval(CHOOSE n \in StepOf(c, s, k) : TRUE) /\ k' = k + 1 /\ c' = c
        /\ last' = IF c.alg = "fb" /\ ~c.fista THEN Objective(c.p, c.pen, s.x) ELSE "Infinity"
Spec == Init /\ [][Next]_vars
Star == IF c.alg = "condat" THEN Best2(c.p, c.pen, c.dual.w[1], c.lin.M[1][1]) ELSE Best(c.p, c.pen)
FixedStart == c.alg \in {"fb", "pogm", "gd"} /\ VClose(c.x0, Star, "1e-12", "1e-12")
Stays == FixedStart => VClose(s.x, Star, "1e-8", "1e-8")
Converges == k = Steps => VClose(s.x, Star, "1e-3", "1e-3")
Descends == (c.alg = "fb" /\ ~c.fista /\ k > 0) => FLe(Objective(c.p, c.pen, s.x), FAdd(last, FMul("1e-12", FAdd("1.0", FAbs(last)))))
\* the closed form is what the residual vanishes at
ClosedForm == k = 0 => LET b == Best(c.p, c.pen) IN FLe(Resid(c.p, c.pen, b), "1e-12")
=============================================================================
