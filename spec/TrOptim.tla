------------------------------ MODULE TrOptim ------------------------------
(* Real solvers on convex problems.  c.kind: "fixed" started at a minimiser,   *)
(* "mono" plain forward-backward, "conv" a long run.                          *)
EXTENDS FnBase, Optim
VARIABLES cs, l, st
InitSt(c) == [last |-> "Infinity"]
R(bad, s) == [bad |-> bad, st |-> s]
Scale(c) == FAdd("1.0", FAdd(VNorm(c.p.y), VNorm(c.x0)))
Optimal(c, x, y, tol) ==
    LET lim == FMul(tol, Scale(c)) IN
    IF c.alg = "condat" THEN FLe(PDPrimal(c.p, c.pen, c.lin, x, y), lim) /\ FLe(PDDual(c.hw, c.lin, x, y), lim)
    ELSE FLe(Resid(c.p, c.pen, x), lim)
Close(c, u, v) == FLe(VNorm(VSub(u, v)), FMul("1e-6", Scale(c)))
Steps(c, s, ev) ==
    CASE ev.t = "start" ->       \* guards the harness: the reference point is a minimiser
            {R(IF c.kind = "fixed" /\ ~Optimal(c, ev.x, ev.y, "1e-9") THEN "the reference point is not a minimiser" ELSE "", s)}
      [] ev.t = "upd" ->
            LET f == Objective(c.p, c.pen, ev.x) IN
            {R(IF c.kind = "mono" /\ ~FLe(f, FAdd(s.last, FMul("1e-9", FAdd("1.0", FAbs(s.last))))) THEN c.cls \o ": the objective increased"
               ELSE IF c.kind = "fixed" /\ ~Close(c, ev.x, c.x0) THEN c.cls \o ": left the minimiser it was started at"
               ELSE "", [s EXCEPT !.last = f])}
      [] ev.t = "final" ->
            {R(IF Len(ev.x) # Len(c.x0) THEN c.cls \o ": shape of the solution"
               ELSE IF ~Optimal(c, ev.x, ev.y, IF c.kind = "conv" THEN c.tol ELSE "Infinity") THEN c.cls \o ": the final point is not a minimiser"
               ELSE IF c.kind = "fixed" /\ ~Close(c, ev.x, c.x0) THEN c.cls \o ": left the minimiser it was started at" ELSE "", s)}
      [] ev.t = "raise" -> {R(c.cls \o ": raised " \o ev.e, s)}
INSTANCE TraceRun
=============================================================================
