------------------------------ MODULE Observer ------------------------------
(* An observable object: per signal an ordered list of distinct observers.    *)
(* Observers are numbered; Kind says what an observer does when called:       *)
(*   "plain"  nothing,  "raise" raises,  "nest" starts another notification,  *)
(*   "once"  removes itself from that signal,  "grow" adds observer 1 to it.  *)
(* Whether an observer added during a notification is called by that very     *)
(* notification is left open (alt); every other registered one is called.     *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
Has(list, o) == \E k \in 1..Len(list) : list[k] = o
Drop(list, o) == SelectSeq(list, LAMBDA e : e # o)
Unknown(reg, sig) == sig \notin DOMAIN reg

\* Operation results: [reg, calls, out] where calls is the sequence of observers called
\* and out is "none", "true", "false", "ValueError", "raise" (the observer's error) or "error".
DoAdd(reg, sig, o) ==
    IF Unknown(reg, sig) THEN [reg |-> reg, calls |-> <<>>, alt |-> <<>>, out |-> "ValueError"]
    ELSE [reg |-> [reg EXCEPT ![sig] = IF Has(@, o) THEN @ ELSE Append(@, o)], calls |-> <<>>, alt |-> <<>>, out |-> "none"]
DoRemove(reg, sig, o) ==
    IF Unknown(reg, sig) THEN [reg |-> reg, calls |-> <<>>, alt |-> <<>>, out |-> "ValueError"]
    ELSE [reg |-> [reg EXCEPT ![sig] = Drop(@, o)], calls |-> <<>>, alt |-> <<>>, out |-> "none"]
Prefix(list, kind) ==    \* observers reached: up to and including the first that raises
    LET bad == {k \in 1..Len(list) : kind[list[k]] = "raise"}
    IN IF bad = {} THEN list
       ELSE SubSeq(list, 1, CHOOSE k \in bad : \A j \in bad : k <= j)
DoNotify(reg, sig, kind) ==
    IF Unknown(reg, sig) THEN [reg |-> reg, calls |-> <<>>, alt |-> <<>>, out |-> "error"]
    ELSE LET p == Prefix(reg[sig], kind)
             fails == p # <<>> /\ kind[p[Len(p)]] = "raise"
             grows == (\E k \in 1..Len(p) : kind[p[k]] = "grow") /\ ~Has(reg[sig], 1)
             kept == SelectSeq(reg[sig], LAMBDA o : ~(kind[o] = "once" /\ Has(p, o)))
         IN [reg |-> [reg EXCEPT ![sig] = IF grows THEN Append(kept, 1) ELSE kept],
             calls |-> p, alt |-> IF grows /\ ~fails THEN Append(p, 1) ELSE p,
             out |-> IF fails THEN "raise" ELSE "true"]
Do(reg, op, kind) ==
    CASE op[1] = "add" -> DoAdd(reg, op[2], op[3])
      [] op[1] = "remove" -> DoRemove(reg, op[2], op[3])
      [] op[1] = "notify" -> DoNotify(reg, op[2], kind)
=============================================================================
