-------------------------------- MODULE Loop --------------------------------
(* The iteration driver shared by all solvers: a sequence of runs, each       *)
(* performing updates until convergence or its iteration limit; the metric    *)
(* schedule; the early-stopping window of a metric.                           *)
(*                                                                            *)
(* cfg is a record                                                            *)
(*   limits : sequence of iteration limits, one per run                       *)
(*   period : metric call period, 0 for None                                  *)
(*   nmet   : number of metrics;  early : set of the metrics (1..nmet) that   *)
(*            are marked for early stopping                                   *)
(*   cost   : TRUE when the solver has a cost function                        *)
(* The environment chooses, at each update, whether the cost function         *)
(* declares convergence, and the value of each metric when it is evaluated.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS WIND              \* early-stopping window (6 in the code)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

\* Metric values are small integers.  Means over the two halves of the last
\* WIND values: relative difference below 1/1000, with no division.
\*   |o/no - c/nc| / |o/no| < 1/1000
WindowConverged(vals) ==
    /\ Len(vals) >= WIND
    /\ LET w == SubSeq(vals, Len(vals) - WIND + 1, Len(vals))
           nc == WIND \div 2
           no == WIND - nc
           o == SumSeq(SubSeq(w, 1, no))
           c == SumSeq(SubSeq(w, no + 1, WIND))
           d == o * nc - c * no
       IN /\ o # 0
          /\ 1000 * (IF d < 0 THEN -d ELSE d) < (IF o < 0 THEN -o ELSE o) * nc

\* state of one solver object
S0(cfg) == [run |-> 0, idx |-> -1, updates |-> 0, running |-> FALSE, conv |-> FALSE,
            recs |-> [m \in 1..cfg.nmet |-> <<>>],      \* <<idx, update number>> of each record
            vals |-> [m \in 1..cfg.nmet |-> <<>>],
            flag |-> [m \in 1..cfg.nmet |-> FALSE],
            polls |-> 0]                                \* times the cost function was consulted

StartRun(cfg, s) == [s EXCEPT !.run = @ + 1, !.idx = -1, !.running = TRUE]

AnyFlag(s) == \E m \in DOMAIN s.flag : s.flag[m]

\* One update.  costSays is the environment's answer if the cost function is consulted.
Update(cfg, s, costSays) ==
    LET consulted == cfg.cost /\ (~AnyFlag(s) \/ cfg.always)
        conv == AnyFlag(s) \/ (consulted /\ costSays)
    IN [s EXCEPT !.idx = @ + 1, !.updates = @ + 1, !.conv = conv,
                 !.polls = @ + (IF consulted THEN 1 ELSE 0)]

\* metrics are due after this update
Due(cfg, s) ==
    /\ cfg.nmet > 0 /\ cfg.period # 0
    /\ \/ s.idx % cfg.period = 0
       \/ s.idx = cfg.limits[s.run] - 1
       \/ s.conv

\* mv[m] : value returned by metric m
Record(cfg, s, mv) ==
    LET vals == [m \in DOMAIN s.vals |-> Append(s.vals[m], mv[m])]
    IN [s EXCEPT !.recs = [m \in DOMAIN s.recs |-> Append(s.recs[m], <<s.idx, s.updates>>)],
                 !.vals = vals,
                 !.flag = [m \in DOMAIN s.flag |->
                             IF m \in cfg.early /\ Len(vals[m]) >= WIND
                             THEN WindowConverged(vals[m]) ELSE s.flag[m]]]

Stops(cfg, s) == s.conv \/ s.idx = cfg.limits[s.run] - 1
EndRun(s) == [s EXCEPT !.running = FALSE]
=============================================================================
