----------------------------- MODULE MCObserver -----------------------------
EXTENDS Observer, TLC, Json
CONSTANTS Signals, Kinds, Depth, Ops
VARIABLES reg, hist
vars == <<reg, hist>>
Init == reg = [s \in Signals |-> <<>>] /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops :
             LET r == Do(reg, op, Kinds) IN
             /\ reg' = r.reg
             /\ hist' = Append(hist, [op |-> op, calls |-> r.calls, alt |-> r.alt, out |-> r.out])
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT("BEH " \o ToJson(hist))
\* the design
NoDuplicates == \A s \in Signals : IsInjective(reg[s])
OrderKept ==    \* an operation keeps the relative order of the observers that stay registered
    [][\A s \in Signals : \A i, j \in DOMAIN reg[s] :
         (i < j /\ Has(reg'[s], reg[s][i]) /\ Has(reg'[s], reg[s][j])) =>
           \E a, b \in DOMAIN reg'[s] : a < b /\ reg'[s][a] = reg[s][i] /\ reg'[s][b] = reg[s][j]]_vars
Balanced ==     \* an observer is called only while registered for that signal
    \A k \in DOMAIN hist : \A n \in DOMAIN hist[k].calls :
        \/ hist[k].calls[n] = 1 /\ \E o \in DOMAIN Kinds : Kinds[o] = "grow"
        \/ \E j \in 1..(k-1) : hist[j].op[1] = "add" /\ hist[j].op[2] = hist[k].op[2] /\ hist[j].op[3] = hist[k].calls[n]
=============================================================================
