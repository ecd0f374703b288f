----------------------------- MODULE TrObserver -----------------------------
EXTENDS FnBase, Observer
VARIABLES cs, l, st
Sigs(c) == {c.signals[i] : i \in 1..Len(c.signals)}
InitSt(c) == [s \in Sigs(c) |-> <<>>]
Steps(c, s, ev) ==
    LET r == Do(s, ev.op, c.kinds) IN
    {[bad |-> IF ~ev.payload THEN "observer did not receive the emitter, signal and values"
              ELSE IF ~ev.nested THEN "nested notification was not refused"
              ELSE IF ev.calls \notin {r.calls, r.alt} THEN "wrong observers called"
              ELSE IF ev.out = r.out THEN ""
              ELSE IF r.out = "error" /\ ev.out \notin {"true", "none"} THEN ""
              ELSE "operation " \o ev.op[1] \o " answered " \o ev.out \o " instead of " \o r.out,
      st |-> r.reg]}
INSTANCE TraceRun
=============================================================================
