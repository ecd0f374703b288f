------------------------------ MODULE TrTypes ------------------------------
(* Type coercion, array checks and backend requests.                         *)
EXTENDS FnBase, Backend
VARIABLES cs, l, st

FloatKinds == {"float16", "float32", "float64", "longdouble"}
IntKinds == {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"}
Trunc(x) == IF FLt(x, "0.0") THEN FNeg(FFloor(FNeg(x))) ELSE FFloor(x)
\* a.kind: int, bool, float, list, tuple, array (with a.dt) or other
CoerceBad(ev, conform, scalarok, want(_), dt) ==
    LET a == ev.a IN
    IF a.kind = "other" THEN
        IF ev.out.k = "raise" /\ ev.out.e = "TypeError" THEN "" ELSE "did not refuse an unsupported type"
    ELSE IF ev.out.k = "raise" THEN "raised " \o ev.out.e
    ELSE IF ev.mut THEN "modified its argument"
    ELSE IF ev.out.k # "ok" THEN "returned a " \o ev.out.k
    ELSE IF ev.out.v.shape # a.x.shape THEN "shape"
    ELSE IF ~VEq(ev.out.v.data, VMap(want, a.x.data)) THEN "value"
    ELSE IF a.kind = "array" /\ conform /\ ~ev.same THEN "did not return a conforming array as it is"
    ELSE IF a.kind \in {"list", "tuple"} /\ ev.out.dt # dt THEN "element type " \o ev.out.dt
    ELSE IF a.kind = "array" /\ ~conform /\ ev.out.dt # dt THEN "element type " \o ev.out.dt
    ELSE IF a.kind \in {"int", "float", "bool"} /\ ev.out.dt \notin scalarok THEN "scalar type " \o ev.out.dt
    ELSE ""

Array(ev) ==
    LET a == ev.a IN
    IF a.kind # "array" \/ ~a.dtok
    THEN IF ev.out.k # "raise" THEN "accepted an invalid array"
         ELSE IF ev.out.e # "TypeError" THEN "raised " \o ev.out.e
         ELSE IF ev.flag # a.before THEN "changed the flag of a refused array"
         ELSE ""
    ELSE IF ev.out.k = "raise" THEN "raised " \o ev.out.e
    ELSE IF ev.mut THEN "changed the data"
    ELSE IF ev.flag # a.writeable THEN "writeability not as requested"
    ELSE IF ev.warned # (~a.writeable /\ a.verbose /\ a.before) THEN "warning"
    ELSE ""

BackendBad(ev) ==
    LET x == Expect(ev.cfg, ev.req) IN
    IF ev.raised # x.exc THEN "raised '" \o ev.raised \o "' instead of '" \o x.exc \o "'"
    ELSE IF x.exc # "" THEN ""
    ELSE IF ev.lib # x.lib THEN "gave " \o ev.lib \o " instead of " \o x.lib
    ELSE IF ev.warned # x.warn THEN IF x.warn THEN "no warning" ELSE "unexpected warning"
    ELSE IF ev.req.what \in {"get", "solver"} /\ ev.name # x.lib THEN "reported name"
    ELSE IF ev.req.what \in {"change", "cpu"} /\ Same(ev.cfg, ev.req) /\ ~ev.same THEN "copied data that was already there"
    ELSE IF ev.req.what \notin {"get", "module"} /\ ~ev.equal THEN "values not preserved"
    ELSE ""

Pre(p, s) == IF s = "" THEN "" ELSE p \o ": " \o s
Verdict(ev) ==
    CASE ev.fn = "check_float" ->
            Pre("check_float", CoerceBad(ev, ev.a.dt \in FloatKinds, {"float"}, LAMBDA x : x, "float64"))
      [] ev.fn = "check_int" ->
            Pre("check_int", CoerceBad(ev, ev.a.dt \in IntKinds, {"int", "bool"}, Trunc, "int64"))
      \* whole numbers keep every digit
      [] ev.fn = "check_int/whole" ->
            IF ev.out.k = "raise" THEN "check_int: refused whole numbers"
            ELSE IF ev.out.v # ev.a.x THEN "check_int: changed a whole number" ELSE ""
      [] ev.fn = "check_npndarray" -> Pre("check_npndarray", Array(ev))
      [] ev.fn = "check_callable" ->
            IF ev.a.ok THEN (IF ev.out.k = "same" THEN "" ELSE "check_callable: did not return the callable")
            ELSE IF ev.out.k = "raise" /\ ev.out.e = "TypeError" THEN "" ELSE "check_callable: accepted a non-callable"
      [] ev.fn = "backend" -> Pre("backend " \o ev.req.what, BackendBad(ev))
      [] OTHER -> "unknown event " \o ev.fn
InitSt(c) == <<>>
Steps(c, s, ev) == RV(Verdict(ev), s)
INSTANCE TraceRun
=============================================================================
