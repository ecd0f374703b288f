------------------------------- MODULE TrAlgo -------------------------------
(* Traces of real solver objects.  Events:                                    *)
(*   start : a run of ev.max iterations begins (ev.nrw reweightings follow)   *)
(*   upd   : one update; ev.v maps observed names to values, ev.idx           *)
(*   rw    : the reweighting object was called with ev.v.arg                  *)
(*   end   : the run is over; ev.v holds the published final outputs          *)
EXTENDS FnBase, Algo
VARIABLES cs, l, st

InitOf(c) == CASE c.alg = "fb" -> FBInit(c)
               [] c.alg = "gfb" -> GFBInit(c)
               [] c.alg = "pogm" -> POGMInit(c)
               [] c.alg = "condat" -> CondatInit(c)
               [] c.alg = "gd" -> GDInit(c)
               [] c.alg = "admm" -> ADMMInit(c)
\* ch: a choice fixed for the whole behaviour (ADMM's carry), undecided at first
InitSt(c) == [s |-> InitOf(c), left |-> 0, max |-> 0, nrw |-> 0, idx |-> -1, ch |-> "?"]
CarryChoices(c, st0) == IF c.alg # "admm" THEN {"-"} ELSE IF st0.ch = "?" THEN {c.carry[k] : k \in DOMAIN c.carry} ELSE {st0.ch}
StepOf(c, s, idx, ch) ==
    CASE c.alg = "fb" -> FBStep(c, s)
      [] c.alg = "gfb" -> GFBStep(c, s)
      [] c.alg = "pogm" -> POGMStep(c, s)
      [] c.alg = "condat" -> CondatStep(c, s)
      [] c.alg = "gd" -> GDStep(c, s, idx)
      [] c.alg = "admm" -> ADMMStep(c, s, ch)

\* value of an observed name in a state
View(c, s, name) ==
    CASE name = "lx" -> LinAdj(c.lin, s.x)       \* iterate seen through the linear operator
      [] name = "xi" -> <<s.xi>>
      [] name = "sigma" -> <<s.sig>>
      [] name = "t" -> <<s.t>>
      [] name = "zs" -> FlattenSeq(s.z)
      [] OTHER -> s[name]
BadName(c, s, ev) ==
    LET names == {n \in DOMAIN ev.v : ~VClose(ev.v[n], View(c, s, n), c.rtol, c.atol)}
    IN IF names = {} THEN "" ELSE c.cls \o ": " \o (CHOOSE n \in names : TRUE) \o " does not follow the recursion"

\* The adaptive gradient steps have directions in which a rounding grows without bound; their whole state is
\* observed, so once accepted the observed values replace the specification's own.
Sync(c, s, ev) == IF c.alg # "gd" THEN s ELSE [k \in DOMAIN s |-> IF k \in DOMAIN ev.v THEN ev.v[k] ELSE s[k]]

\* the cost function declared convergence during this update: the run stops after it
Conv(ev) == "conv" \in DOMAIN ev /\ ev.conv
R(bad, s) == [bad |-> bad, st |-> s]
Steps(c, s, ev) ==
    CASE ev.t = "start" -> {R("", [s EXCEPT !.left = ev.max, !.max = ev.max, !.nrw = ev.nrw, !.idx = -1])}
      [] ev.t = "upd" ->
            IF s.left = 0 THEN {R(c.cls \o ": update beyond the requested iterations", s)}
            ELSE UNION {{R(IF ev.idx # s.idx + 1 THEN c.cls \o ": wrong iteration index" ELSE BadName(c, n, ev),
                           [s EXCEPT !.s = Sync(c, n, ev), !.left = IF Conv(ev) THEN 0 ELSE @ - 1, !.idx = @ + 1, !.ch = ch])
                         : n \in StepOf(c, s.s, s.idx + 1, ch)} : ch \in CarryChoices(c, s)}
      [] ev.t = "cost" ->
            LET wu == IF ev.inrun THEN s.s.u ELSE ev.wu
                wv == IF ev.inrun THEN s.s.v ELSE ev.wv
                res == VSub(VAdd(LinOp(c.Aop, wu), LinOp(c.B, wv)), c.b)
                want == FAdd(FAdd(ev.h, ev.g), FMul(c.tau, VNorm2(res)))
            IN {R(IF ~VClose(ev.u, wu, c.rtol, c.atol) \/ ~VClose(ev.v, wv, c.rtol, c.atol)
                     THEN c.cls \o ": cost not evaluated at the current iterates"
                  ELSE IF ev.cur # "none" /\ ~FClose(ev.cur, want, "1e-7", "1e-10") THEN c.cls \o ": cost value wrong"
                  ELSE "", s)}
      [] ev.t = "rw" ->
            IF s.left > 0 \/ s.nrw = 0 THEN {R(c.cls \o ": reweighting at the wrong time", s)}
            ELSE {R(IF VClose(ev.v.arg, LinOp(c.lin, s.s.x), c.rtol, c.atol) THEN ""
                    ELSE c.cls \o ": reweighting not given the transformed solution",
                    [s EXCEPT !.s = CondatReweight(c, s.s), !.nrw = @ - 1, !.left = s.max, !.idx = -1])}
      [] ev.t = "end" ->
            {R(IF s.left > 0 \/ s.nrw > 0 THEN c.cls \o ": run ended early" ELSE BadName(c, s.s, ev), s)}
      [] ev.t = "raise" -> {R(c.cls \o ": raised " \o ev.e, s)}
INSTANCE TraceRun
=============================================================================
