------------------------------- MODULE MCLog -------------------------------
EXTENDS Log, TLC, Json
CONSTANTS Names, Depth
VARIABLES st, hist
vars == <<st, hist>>
Msg(k) == "m" \o ToString(k)
Ops(k) == {<<"setup", n>> : n \in Names} \cup {<<"close", n>> : n \in Names} \cup {<<"info", n, Msg(k)>> : n \in Names}
Init == st = Fresh(Names) /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops(Len(hist) + 1) :
             /\ Possible(st, op)
             /\ st' = DoLog(st, op)
             /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT("BEH " \o ToJson(hist))
\* the design
Count(m) == Cardinality({p \in UNION {{<<n, i>> : i \in DOMAIN st[n].lines} : n \in Names} : st[p[1]].lines[p[2]] = m})
Once == \A k \in 1..Depth : Count(Msg(k)) <= 1
Framed == \A n \in Names : st[n].made =>
    /\ Len(st[n].lines) >= 1 /\ st[n].lines[1] = Opening
    /\ (~st[n].open) <=> (st[n].lines[Len(st[n].lines)] = Closing)
    /\ \A i \in DOMAIN st[n].lines : st[n].lines[i] = Closing => i = Len(st[n].lines)
\* a closed file never changes except by being set up again; others' operations never change a file
Frozen == [][\A n \in Names : (st[n] # st'[n]) => (hist'[Len(hist')][2] = n /\ (st[n].open \/ hist'[Len(hist')][1] = "setup"))]_vars
=============================================================================
