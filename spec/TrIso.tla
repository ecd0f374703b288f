------------------------------- MODULE TrIso -------------------------------
(* Real objects against Iso.tla: concrete contents instead of tokens.         *)
(*   make, run : as in Iso; call : one call of a stateless operator           *)
(* after every event: inputs, pubs (the caller's arrays and the results        *)
(* published earlier that no longer have the content last seen)               *)
EXTENDS FnBase
VARIABLES cs, l, st
InitSt(c) == [inp |-> c.inputs, ver |-> 0, objs |-> <<>>, pubs |-> <<>>, seen |-> {}]
Find(objs, o) == CHOOSE k \in DOMAIN objs : objs[k].o = o
SeqClose(u, v, rt, at) == Len(u) = Len(v) /\ \A k \in DOMAIN u : ArrClose(u[k], v[k], rt, at)
Unchanged(diff, old) == \A d \in DOMAIN diff : ArrEq(diff[d].v, old[diff[d].k])
R(bad, s) == [bad |-> bad, st |-> s]
\* common to all events: s is the state after the event
After(c, s, ev) ==
    IF ev.raised # "" THEN ev.what \o ": raised " \o ev.raised
    ELSE IF ~Unchanged(ev.inputs, s.inp) THEN ev.what \o ": modified an array of the caller"
    ELSE IF ~Unchanged(ev.pubs, s.pubs) THEN ev.what \o ": changed a result published earlier"
    ELSE ""
Result(c, s, ev, tok) ==
    LET known == {p \in s.seen : p.tok = tok}
        n == [s EXCEPT !.pubs = @ \o ev.val, !.seen = IF known = {} THEN @ \cup {[tok |-> tok, val |-> ev.val]} ELSE @]
    IN IF ev.raised = "" /\ known # {} /\ ~SeqClose((CHOOSE p \in known : TRUE).val, ev.val, c.rtol, c.atol)
       THEN R(ev.what \o ": same configuration and data, different result", n)
       ELSE R(After(c, n, ev), n)
Steps(c, s, ev) ==
    CASE ev.t = "make" -> LET n == [s EXCEPT !.objs = Append(@, [o |-> ev.o, cfg |-> ev.cfg, ver |-> s.ver, calls |-> <<>>])]
                          IN {R(After(c, n, ev), n)}
      [] ev.t = "scribble" -> LET n == [s EXCEPT !.inp[1] = ev.now, !.ver = @ + 1] IN {R(After(c, n, ev), n)}
      [] ev.t = "run" -> LET k == Find(s.objs, ev.o)
                             m == [s EXCEPT !.objs[k].calls = Append(@, ev.k)]
                         IN {Result(c, m, ev, <<m.objs[k].cfg, m.objs[k].ver, m.objs[k].calls>>)}
      [] ev.t = "call" -> {Result(c, s, ev, <<ev.o, ev.k>>)}
INSTANCE TraceRun
=============================================================================
