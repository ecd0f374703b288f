------------------------------ MODULE TrFista ------------------------------
(* The acceleration helper on its own.  Events:                               *)
(*   restart : restart test with ev.z, ev.xn, ev.xo answered ev.ans           *)
(*   beta    : step ev.b updated to ev.out                                    *)
(*   lambda  : next relaxation parameter ev.out                               *)
EXTENDS FnBase, Fista
VARIABLES cs, l, st
InitSt(c) == FistaInit(c)
R(bad, s) == [bad |-> bad, st |-> s]
Steps(c, s, ev) ==
    CASE ev.t = "restart" ->
            {R(IF ev.ans # o.crit THEN "restart decided wrongly" ELSE "", o.s) : o \in FistaRestart(c, s, ev.z, ev.xn, ev.xo)}
      [] ev.t = "beta" ->
            {R(IF FClose(ev.out, FistaBeta(c, s, ev.b), "1e-9", "1e-300") THEN "" ELSE "step not updated as documented", s)}
      [] ev.t = "lambda" ->
            LET o == FistaLambda(c, s)
            IN {R(IF FClose(ev.out, o.lam, "1e-9", "1e-12") THEN "" ELSE "relaxation sequence wrong", o.s)}
      [] ev.t = "raise" -> {R("raised " \o ev.e, s)}
INSTANCE TraceRun
=============================================================================
