------------------------------- MODULE FnBase -------------------------------
(* Verdicts on recorded calls of pure functions.  A call event has the fields *)
(* fn, a (arguments), out ([k |-> "ok", v |-> array] or                       *)
(* [k |-> "raise", e |-> class]), mut (did the call change an argument) and   *)
(* tolerances rtol, atol.                                                     *)
EXTENDS Vec, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)

Ok(v) == [k |-> "ok", v |-> v]
Err(e) == [k |-> "raise", e |-> e]
RV(bad, s) == {[bad |-> bad, st |-> s]}

\* structural conformance of a recorded array
GoodArr(v) == "shape" \in DOMAIN v /\ "data" \in DOMAIN v /\ Len(v.data) = Size(v.shape)

CmpWith(ev, exp, Eq(_, _)) ==
    IF ev.mut THEN ev.fn \o ": modified its arguments"
    ELSE IF exp.k = "raise"
         THEN IF ev.out.k = "raise"
              THEN IF ev.out.e = exp.e THEN "" ELSE ev.fn \o ": raised " \o ev.out.e \o " instead of " \o exp.e
              ELSE ev.fn \o ": accepted invalid arguments (expected " \o exp.e \o ")"
    ELSE IF ev.out.k = "raise" THEN ev.fn \o ": raised " \o ev.out.e
    ELSE IF ev.out.k # "ok" THEN ev.fn \o ": returned a " \o ev.out.k
    ELSE IF ~GoodArr(ev.out.v) THEN ev.fn \o ": malformed result"
    ELSE IF ev.out.v.shape # exp.v.shape
         THEN ev.fn \o ": shape " \o ToString(ev.out.v.shape) \o " instead of " \o ToString(exp.v.shape)
    ELSE IF ~Eq(ev.out.v, exp.v) THEN ev.fn \o ": wrong value"
    ELSE ""
CmpExact(ev, exp) == CmpWith(ev, exp, LAMBDA x, y : VEq(x.data, y.data))
\* element-wise tolerance
CmpEl(ev, exp) == CmpWith(ev, exp, LAMBDA x, y : VCloseEl(x.data, y.data, ev.rtol, ev.atol))
\* tolerance relative to the largest element
CmpArr(ev, exp) == CmpWith(ev, exp, LAMBDA x, y : VClose(x.data, y.data, ev.rtol, ev.atol))
\* the recorded result satisfies a predicate (no single expected value)
CmpPred(ev, P(_), what) ==
    IF ev.mut THEN ev.fn \o ": modified its arguments"
    ELSE IF ev.out.k = "raise" THEN ev.fn \o ": raised " \o ev.out.e
    ELSE IF ev.out.k # "ok" THEN ev.fn \o ": returned a " \o ev.out.k
    ELSE IF ~GoodArr(ev.out.v) THEN ev.fn \o ": malformed result"
    ELSE IF ~P(ev.out.v) THEN ev.fn \o ": " \o what
    ELSE ""
Scalar(s) == Arr(<<>>, <<s>>)
=============================================================================
