-------------------------------- MODULE TrMr --------------------------------
(* Recorded calls of the wrapper around the external executable.  The state  *)
(* is the set of temporary files present.                                    *)
EXTENDS FnBase, Mr
VARIABLES cs, l, st
SetOf(s) == {s[i] : i \in 1..Len(s)}
Fs(ev) == {<<f[1], f[2]>> : f \in SetOf(ev.files)}
R1(bad, s) == [bad |-> bad, st |-> s]

\* what the executable was given and what came back
Result(ev, a, seen) ==
    IF ~ev.others THEN "changed files that are not its own"
    ELSE IF seen.n # 1 THEN "executable was not run exactly once"
    ELSE IF seen.options # a.options THEN "executable did not get the given options"
    ELSE IF seen.shape # a.x.shape \/ ~VEq(seen.data, a.x.data) THEN "executable did not get the given data"
    ELSE IF ev.out.k = "raise" THEN
         IF "ok" \in Outcome(a.mode) THEN "raised " \o ev.out.e \o " although the executable succeeded"
         ELSE IF "raise" \in Outcome(a.mode) \/ ev.out.e \in Outcome(a.mode) THEN ""
         ELSE "raised " \o ev.out.e
    ELSE IF "ok" \notin Outcome(a.mode) THEN "did not raise although the executable failed"
    ELSE IF ev.out.k # "ok" THEN "returned a " \o ev.out.k
    ELSE IF ev.out.v.shape # <<seen.scales>> \o a.x.shape \/ ~VEq(ev.out.v.data, seen.planes)
         THEN "result is not what the executable produced"
    ELSE IF ev.out.dt # a.dt THEN "data type not kept"
    ELSE ""

Filters(ev, a, seen) ==
    LET imp == Impulse(a.shape)
        pl == Planes(imp.shape, seen.planes, seen.scales)
        n == IF a.coarse THEN seen.scales ELSE seen.scales - 1
        F(k) == IF a.trim THEN Trim(pl[k]) ELSE pl[k]
    IN IF ~ev.others \/ Fs(ev) # {} THEN "left or changed files"
       ELSE IF ev.out.k = "raise" THEN "raised " \o ev.out.e
       ELSE IF seen.shape # imp.shape \/ ~VEq(seen.data, imp.data) THEN "input is not the centred impulse"
       ELSE IF seen.options # a.options THEN "executable did not get the given options"
       ELSE IF ev.out.k # "filters" \/ Len(ev.out.v) # n THEN "number of filters"
       ELSE IF \E k \in 1..n : ~(ev.out.v[k].shape = F(k).shape /\ VEq(ev.out.v[k].data, F(k).data)) THEN "filter values"
       ELSE IF ~ev.out.array /\ n > 0 /\ (\A k \in 1..seen.scales : F(k).shape = F(1).shape) THEN "equal-sized filters not returned as one array"
       ELSE ""

InitSt(c) == {}
Steps(c, s, ev) ==
    CASE ev.fn = "start" ->
            {R1(IF Fs(ev) = s \cup StartFiles(ev.c) THEN "" ELSE "files while the executable runs", s \cup StartFiles(ev.c))}
      [] ev.fn = "end" ->
            LET a == ev.a
                base == s \ {<<ev.c, "fits">>, <<ev.c, "mr">>}
                opts == {base \cup left : left \in Left(ev.c, a.mode, a.keep)}
                why == Result(ev, a, ev.seen)
            IN {R1(IF why # "" THEN "call_mr_transform: " \o why
                   ELSE IF Fs(ev) \notin opts THEN "call_mr_transform: temporary files after the call"
                   ELSE "", Fs(ev))}
      [] ev.fn = "refuse" ->
            {R1(IF ~ev.others \/ Fs(ev) # s THEN ev.what \o ": left files behind"
                ELSE IF ev.out.k # "raise" THEN ev.what \o ": accepted"
                ELSE IF ev.out.e \in SetOf(ev.exp) THEN "" ELSE ev.what \o ": raised " \o ev.out.e, s)}
      [] ev.fn = "filters" -> LET why == Filters(ev, ev.a, ev.seen) IN {R1(IF why = "" THEN "" ELSE "get_mr_filters: " \o why, s)}
      [] ev.fn = "trim_filter" -> RV(CmpExact(ev, Ok(Trim(ev.a.x))), s)
      [] ev.fn = "execute" ->
            RV(IF ev.bad THEN (IF ev.out.k = "raise" /\ ev.out.e = "TypeError" THEN "" ELSE "execute: accepted a command that is no string")
               ELSE IF ev.out.k = "pair" /\ ev.out.o = ev.wanto /\ ev.out.e = ev.wante THEN "" ELSE "execute: output of the command", s)
INSTANCE TraceRun
=============================================================================
