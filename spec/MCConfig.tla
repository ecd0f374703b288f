------------------------------ MODULE MCConfig ------------------------------
(* Every configuration of every constructor with up to Dev parameters away   *)
(* from their default (all of them for constructors with few parameters).    *)
EXTENDS Config, TLC, Json
CONSTANTS Dev
VARIABLES cls, given, done
vars == <<cls, given, done>>
Limit(c) == IF Cardinality(DOMAIN Params(c)) <= 5 THEN 5 ELSE Dev
Init == cls \in Classes /\ given = <<>> /\ done = FALSE
\* parameters are added in a fixed order, so every set is reached once
Names == <<"a_cd", "adj_op", "backend", "beta", "beta_param", "beta_update", "cost", "data", "decimated", "epsilon", "eta", "eta_update",
           "gamma", "gamma_param", "gamma_update", "get_grad", "grad", "k", "lambda_param", "lambda_update", "linear", "lowr_type",
           "metrics", "minbeta", "n_pc", "name", "op", "op_t", "operators", "prox", "prox1", "prox2", "prox_dual", "restart", "rho", "rho_update",
           "s", "sigma", "sigma_bar", "sigma_update", "step_size", "tau", "tau_update", "thresh_type", "threshold", "trans_op", "u", "wavelet",
           "weights", "x", "xi", "y", "z">>
Rank(p) == CHOOSE i \in DOMAIN Names : Names[i] = p
Add(p, r) == /\ ~done /\ Cardinality(DOMAIN given) < Limit(cls)
             /\ \A q \in DOMAIN given : Rank(q) < Rank(p)
             /\ given' = [q \in DOMAIN given \cup {p} |-> IF q = p THEN r.v ELSE given[q]]
             /\ UNCHANGED <<cls, done>>
Stop == ~done /\ done' = TRUE /\ UNCHANGED <<cls, given>>
Next == (\E p \in DOMAIN Params(cls) : \E r \in Params(cls)[p] : Add(p, r)) \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("BEH " \o ToJson([cls |-> cls, given |-> [k \in 1..Cardinality(DOMAIN given) |->
                LET p == CHOOSE q \in DOMAIN given : Cardinality({t \in DOMAIN given : Rank(t) < Rank(q)}) = k - 1
                IN <<p, given[p]>>], bad |-> Errors(cls, given) # {}]))
\* refusals are monotone: a value that is invalid on its own is refused in every company,
\* except that the acceleration's parameters are not looked at without the acceleration
Monotone == \A p \in DOMAIN given : (Val(cls, given, p).e # {} /\ ~(cls = "ForwardBackward" /\ p \in FistaDom)) => Errors(cls, given) # {}
DefaultsValid == DOMAIN given = {} => Errors(cls, given) = {}
=============================================================================
