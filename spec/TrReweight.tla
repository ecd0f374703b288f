----------------------------- MODULE TrReweight -----------------------------
(* State: current and original weights of one object.                        *)
EXTENDS FnBase, Reweight, ProxFn
VARIABLES cs, l, st

InitSt(c) == [w |-> c.w0, n |-> c.n]
After(c, s, ev) ==
    IF ev.fn = "reweight" /\ ev.a.x.shape = c.shape
    THEN [s EXCEPT !.w = NewWeights(s.w, c.w0, s.n, ev.a.x.data)] ELSE s
\* every event also carries the weights seen afterwards, on the object, by the sharer, and the originals
Obs(c, s, ev) ==
    IF ev.weights.shape # c.shape THEN "weights changed shape"
    ELSE IF ~VClose(ev.weights.data, s.w, ev.rtol, "0.0") THEN "weights do not follow the reweighting formula"
    ELSE IF ~VEq(ev.orig.data, c.w0) THEN "original weights are not kept"
    ELSE IF c.shared /\ ~VEq(ev.seen.data, ev.weights.data) THEN "sharer does not see the new weights"
    ELSE ""
Steps(c, s, ev) ==
    LET s2 == After(c, s, ev)
        res == CASE ev.fn = "reweight" ->
                      IF ev.mut THEN "reweight: modified its input"
                      ELSE IF ev.a.x.shape # c.shape
                           THEN CmpExact(ev, Err("ValueError"))
                           ELSE IF ev.out.k = "none" THEN "" ELSE "reweight: gave " \o ev.out.k
                 [] ev.fn = "create" -> IF ev.out.k = "raise" THEN "constructor refused valid weights" ELSE ""
                 [] ev.fn = "threshold" ->
                      CmpEl(ev, Ok(Arr(c.shape, ThreshV("soft", ev.a.x.data, VScale(ev.a.f, s.w)))))
                 [] OTHER -> "unknown event"
    IN RV(IF res # "" THEN res ELSE Obs(c, s2, ev), s2)
INSTANCE TraceRun
=============================================================================
