------------------------------- MODULE MCLoop -------------------------------
(* All behaviours of the driver within the bounds, printed for replay.        *)
EXTENDS Loop, TLC, Json
CONSTANTS LimitSeqs, Periods, NMets, EarlySets, CostOpts, MVals, CostChoice, Always
VARIABLES cfg, s, script, ends

vars == <<cfg, s, script, ends>>
\* values the metrics may return (simulation draws one instead of branching)
MetVals(n) == [1..n -> MVals]
Cfgs == {[limits |-> L, period |-> p, nmet |-> n, early |-> e, cost |-> c, always |-> a] :
           L \in LimitSeqs, p \in Periods, n \in NMets, e \in EarlySets, c \in CostOpts, a \in Always}
Init == /\ cfg \in {c \in Cfgs : c.early \subseteq 1..c.nmet}
        /\ s = S0(cfg)
        /\ script = [cost |-> <<>>, met |-> <<>>]
        /\ ends = <<>>

Begin == /\ ~s.running /\ s.run < Len(cfg.limits)
         /\ IF cfg.limits[s.run + 1] > 0
            THEN s' = StartRun(cfg, s) /\ UNCHANGED ends
            ELSE \* a run of no iterations changes and records nothing
                 /\ s' = [s EXCEPT !.run = @ + 1]
                 /\ ends' = Append(ends, [idx |-> s.idx, updates |-> s.updates, conv |-> s.conv, nrec |-> Len(script.met)])
         /\ UNCHANGED <<cfg, script>>

\* one loop body of the driver: update, metrics if due, stop test
Body ==
    /\ s.running
    /\ \E say \in (IF cfg.cost THEN CostChoice ELSE {FALSE}) :
         LET u == Update(cfg, s, say)
             asked == u.polls > s.polls
             sc == Append(script.cost, say)      \* one entry per update; FALSE when not consulted
         IN /\ ~asked => say = FALSE
            /\ IF Due(cfg, u)
               THEN \E mv \in MetVals(cfg.nmet) :
                      LET r == Record(cfg, u, mv) IN
                      /\ s' = IF Stops(cfg, r) THEN EndRun(r) ELSE r
                      /\ script' = [cost |-> sc, met |-> Append(script.met, mv)]
               ELSE /\ s' = IF Stops(cfg, u) THEN EndRun(u) ELSE u
                    /\ script' = [script EXCEPT !.cost = sc]
            /\ ends' = IF Stops(cfg, u)
                       THEN Append(ends, [idx |-> u.idx, updates |-> u.updates, conv |-> u.conv, nrec |-> Len(script'.met)])
                       ELSE ends
            /\ UNCHANGED cfg
Next == Begin \/ Body
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finished == ~s.running /\ s.run = Len(cfg.limits)
Behaviour == [cfg |-> cfg, script |-> script, ends |-> ends, recs |-> s.recs, polls |-> s.polls, conv |-> s.conv]
Emit == Finished => PrintT("BEH " \o ToJson(Behaviour))

----------------------------------------------------------------------------
(* Properties of the design *)
\* C01: a run stops at convergence or at its limit, never later
WithinLimit == s.running \/ (s.run > 0 /\ cfg.limits[s.run] > 0) => s.idx <= cfg.limits[IF s.run = 0 THEN 1 ELSE s.run] - 1
StopsAtFirst == s.running /\ s.idx >= 0 => ~s.conv
EndsRight == \A k \in 1..Len(ends) : ends[k].conv \/ cfg.limits[k] = 0 \/ ends[k].idx = cfg.limits[k] - 1
UpdatesAdd == ends # <<>> => \A k \in 1..Len(ends) :
    ends[k].updates = (IF k = 1 THEN 0 ELSE ends[k-1].updates) + (IF cfg.limits[k] = 0 THEN 0 ELSE ends[k].idx + 1)
\* C02: records only at scheduled iterations, and all of them
LastRec(m) == s.recs[m][Len(s.recs[m])]
RecsScheduled ==
    \A m \in 1..cfg.nmet : \A k \in 1..Len(s.recs[m]) :
        LET i == s.recs[m][k][1] u == s.recs[m][k][2] IN
        \/ i % cfg.period = 0
        \/ \E e \in 1..Len(ends) : ends[e].updates = u
RecsComplete ==
    \A e \in 1..Len(ends) : cfg.nmet > 0 /\ cfg.period # 0 /\ cfg.limits[e] > 0 =>
        /\ \E k \in 1..Len(s.recs[1]) : s.recs[1][k][2] = ends[e].updates
        /\ \A i \in 0..ends[e].idx : i % cfg.period = 0 =>
             \E k \in 1..Len(s.recs[1]) : s.recs[1][k] = <<i, ends[e].updates - ends[e].idx + i>>
NoMetrics == (cfg.nmet = 0 \/ cfg.period = 0) => script.met = <<>>
\* C03: unmarked metrics never matter; fewer than WIND records never stop a run
EarlyNeedsWindow == \A m \in 1..cfg.nmet : s.flag[m] => m \in cfg.early /\ Len(s.vals[m]) >= WIND
FlagStops == [][s.running /\ AnyFlag(s) /\ s'.updates > s.updates => s'.conv /\ ~s'.running]_vars
Terminates == <>Finished
=============================================================================
