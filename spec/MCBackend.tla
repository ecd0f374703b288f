----------------------------- MODULE MCBackend -----------------------------
(* Every combination of available libraries, every request.                  *)
EXTENDS Backend, TLC, Json
VARIABLES cfg, req
vars == <<cfg, req>>
Cfgs == {[cupy |-> c, tensorflow |-> t, torch |-> h] :
           c \in {"absent", "broken", "present"}, t \in {"absent", "broken", "present"}, h \in {"absent", "present"}}
Init == cfg \in Cfgs /\ req \in Requests(cfg)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == PrintT("BEH " \o ToJson([cfg |-> cfg, req |-> req]))
\* NumPy never warns and never moves NumPy data; whatever is asked for, an available library is used
Always == /\ Get(cfg, "numpy") = [lib |-> "numpy", warn |-> FALSE]
          /\ Change(cfg, "numpy", "numpy").same
          /\ \A n \in {"numpy", "cupy", "tensorflow", "jax"} : Get(cfg, n).lib \in Avail(cfg)
          /\ \A h \in Avail(cfg) : Cpu(cfg, h).lib = "numpy"
=============================================================================
