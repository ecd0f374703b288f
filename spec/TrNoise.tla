------------------------------ MODULE TrNoise ------------------------------
(* Histories of calls sharing one generator; st counts the draws taken.      *)
EXTENDS FnBase, Noise
VARIABLES cs, l, st

IsCount(x) == FEq(FFloor(x), x) /\ FLe("0.0", x)
Verdict(c, s, ev) ==
    LET a == ev.a IN
    CASE ev.fn = "add_noise" ->
            IF Refused(a.type, a.x, a.sigma) THEN CmpExact(ev, Err("ValueError"))
            ELSE CmpEl(ev, Ok(Noisy(a.x, a.sigma, a.draws)))
      \* no seed at all: only the distribution is known
      [] ev.fn = "add_noise/unseeded" ->
            CmpPred(ev, LAMBDA v :
                LET d == VSub(v.data, a.x.data)
                    n == Len(d)
                    m == FDiv(FSum(d), FOf(n))
                    var == FDiv(VNorm2(VMap(LAMBDA t : FSub(t, m), d)), FOf(n))
                IN /\ v.shape = a.x.shape
                   /\ a.type = "poisson" => \A i \in DOMAIN d : IsCount(FDiv(d[i], a.s))
                   /\ FClose(m, a.mean, "0.0", a.meantol)
                   /\ FClose(var, a.var, "0.0", a.vartol)
                   /\ \E i \in DOMAIN d : ~FEq(v.data[i], a.other[i]),
                "is not fresh noise of the requested distribution")
      [] OTHER -> "unknown event " \o ev.fn
InitSt(c) == 0
Steps(c, s, ev) == RV(Verdict(c, s, ev), s + 1)
INSTANCE TraceRun
=============================================================================
