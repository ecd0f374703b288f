------------------------------ MODULE Backend ------------------------------
(* Backend selection.  avail: the libraries that can be imported (NumPy      *)
(* always can); a library that is absent or fails to import is unavailable.  *)
EXTENDS Naturals, Sequences, FiniteSets
Libs == {"cupy", "tensorflow"}
Avail(cfg) == {"numpy"} \cup {b \in Libs : cfg[b] = "present"}
\* what a request gives: the library and whether a warning is issued
Get(cfg, name) == IF name \in Avail(cfg) THEN [lib |-> name, warn |-> FALSE] ELSE [lib |-> "numpy", warn |-> TRUE]
\* the library an array belongs to, as far as the package can know
HomeOf(cfg, home) == IF home \in Avail(cfg) THEN home ELSE "numpy"
\* moving an array: stays the same object when it is already there, keeps its values otherwise
Change(cfg, home, name) ==
    LET g == Get(cfg, name) IN [lib |-> g.lib, same |-> home = g.lib, warn |-> g.warn]
Cpu(cfg, home) == [lib |-> "numpy", same |-> home = "numpy", warn |-> FALSE]

Requests(cfg) ==
    LET names == {"numpy", "cupy", "tensorflow", "jax", "NumPy"}
        homes == Avail(cfg)
    IN {[what |-> "get", name |-> n] : n \in names}
       \cup {[what |-> "module", home |-> h, seed |-> 0] : h \in homes \cup {"list"}}
       \cup {[what |-> "change", home |-> h, name |-> n, seed |-> s] : h \in homes, n \in names \cup {""}, s \in {0, 1}}
       \cup {[what |-> "cpu", home |-> h, seed |-> s] : h \in homes, s \in {0, 1}}
       \cup (IF "tensorflow" \in homes \/ "cupy" \in homes THEN {}
             ELSE {[what |-> "solver", home |-> "numpy", name |-> n, seed |-> 0] : n \in names \cup {""}})
       \cup {[what |-> "tensor", home |-> "numpy", seed |-> 0]}
       \cup {[what |-> IF cfg.torch = "present" THEN "untensor" ELSE "untensor-absent", home |-> "numpy", seed |-> s] : s \in {0, 1}}

R(lib, warn, exc) == [lib |-> lib, warn |-> warn, exc |-> exc]
Expect(cfg, r) ==
    CASE r.what = "get" -> LET g == Get(cfg, r.name) IN R(g.lib, g.warn, "")
      [] r.what = "module" -> R(HomeOf(cfg, r.home), FALSE, "")
      [] r.what = "change" -> LET g == Change(cfg, r.home, IF r.name = "" THEN "cupy" ELSE r.name) IN R(g.lib, g.warn, "")
      [] r.what = "cpu" -> R("numpy", FALSE, "")
      [] r.what = "solver" -> R("numpy", ~(r.name = "" \/ r.name = "numpy"), "")
      [] r.what = "tensor" -> IF cfg.torch = "present" THEN R("Tensor", FALSE, "") ELSE R("", FALSE, "ImportError")
      [] r.what = "untensor" -> R("numpy", FALSE, "")
      [] r.what = "untensor-absent" -> R("", FALSE, "ImportError")
Same(cfg, r) ==
    CASE r.what = "change" -> Change(cfg, r.home, IF r.name = "" THEN "cupy" ELSE r.name).same
      [] r.what = "cpu" -> Cpu(cfg, r.home).same
      [] OTHER -> FALSE
=============================================================================
