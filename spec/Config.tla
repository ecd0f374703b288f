------------------------------- MODULE Config -------------------------------
(* Which configurations are valid.  A configuration of a constructor is a    *)
(* function from its parameters to named values; every parameter not         *)
(* mentioned has its default.  Errors(cls, given) is the set of error        *)
(* classes with which it may be refused; it is accepted iff that is empty.   *)
EXTENDS Naturals, Sequences, FiniteSets
TE == {"TypeError"}
VE == {"ValueError"}
OE == {"OSError"}
Ok(v) == [v |-> v, e |-> {}]
Bad(v, e) == [v |-> v, e |-> e]

\* kinds of parameters, as sets of named values with the errors they cause on their own
FloatP == {Ok("float"), Ok("npfloat"), Bad("int", TE), Bad("zeroint", TE), Bad("str", TE), Bad("none", TE)}
UpdateP == {Ok("func"), Ok("none"), Ok("method"), Bad("int", TE), Bad("str", TE)}
ArrayP == {Ok("array"), Ok("array2d"), Bad("list", TE), Bad("none", TE), Bad("scalar", TE)}
OperP == {Ok("native"), Ok("foreign"), Ok("nocost")}
LinP == {Ok("none"), Ok("native"), Ok("foreign")}
CostP == {Ok("auto"), Ok("obj"), Ok("foreign"), Ok("none")}
MetricsP == {Ok("none"), Ok("empty"), Ok("dict"), Bad("list", TE), Bad("str", TE)}
StepP == {Ok("none"), Ok("float")}
CallP == {Ok("func"), Ok("method"), Bad("int", TE), Bad("none", TE), Bad("str", TE)}
FistaP == [ a_cd |-> {Ok("none"), Ok("3"), Ok("2.001"), Bad("1.999", VE), Bad("2", VE), Bad("1", VE), Bad("-4", VE)},
            restart |-> {Ok("none"), Ok("adaptive"), Ok("adaptive-i"), Ok("adaptive-1"), Ok("adaptive-ii"), Ok("adaptive-2"),
                         Ok("greedy"), Bad("other", VE), Bad("Greedy", VE)},
            xi |-> {Ok("none"), Ok("0.9"), Ok("0.9995"), Ok("1.0005"), Ok("1.0"), Ok("1.5")},
            s |-> {Ok("none"), Ok("1.1"), Ok("1.0005"), Ok("0.9995"), Ok("1.0"), Ok("0.5")},
            minbeta |-> {Ok("none"), Ok("0.5")} ]
GradOptP == [ x |-> ArrayP, grad |-> OperP, prox |-> OperP, cost |-> CostP, eta |-> FloatP, epsilon |-> FloatP,
              eta_update |-> UpdateP, metrics |-> MetricsP ]
Merge(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]

Params(cls) ==
    CASE cls = "FISTA" -> FistaP
      [] cls = "ForwardBackward" ->
            Merge(FistaP, [ x |-> ArrayP, grad |-> OperP, prox |-> OperP, cost |-> CostP, linear |-> LinP, beta_param |-> FloatP,
              lambda_param |-> FloatP, beta_update |-> UpdateP, step_size |-> StepP,
              lambda_update |-> {Ok("fista"), Ok("func"), Ok("none"), Bad("int", TE), Bad("nesterov", TE)}, metrics |-> MetricsP ])
      [] cls = "GenForwardBackward" ->
            [ x |-> ArrayP, grad |-> OperP, prox1 |-> OperP, prox2 |-> OperP, cost |-> CostP, linear |-> LinP, gamma_param |-> FloatP,
              lambda_param |-> FloatP, gamma_update |-> UpdateP, lambda_update |-> UpdateP, metrics |-> MetricsP, step_size |-> StepP,
              weights |-> {Ok("none"), Ok("list"), Ok("tuple"), Ok("array"), Ok("near"), Bad("ints", VE), Bad("short", VE), Bad("long", VE),
                           Bad("sum", VE), Bad("over", VE), Bad("under", VE), Bad("balanced", VE), Bad("zeros", VE), Bad("opposite", VE), Ok("exactnear"), Bad("float", TE), Bad("str", TE \cup VE)} ]
      [] cls = "POGM" ->
            [ u |-> ArrayP, x |-> ArrayP, y |-> ArrayP, z |-> ArrayP, grad |-> OperP, prox |-> OperP, cost |-> CostP, linear |-> LinP,
              beta_param |-> FloatP, metrics |-> MetricsP, step_size |-> StepP,
              sigma_bar |-> {Ok("0.0"), Ok("1.0"), Ok("0.5"), Ok("0.9995"), Ok("0.0005"), Bad("-0.0005", VE), Bad("1.0005", VE), Bad("-0.1", VE), Bad("1.1", VE), Bad("37.5", VE), Bad("int", TE), Bad("zeroint", TE), Bad("none", TE), Bad("bigint", TE \cup VE)} ]
      [] cls = "Condat" ->
            [ x |-> ArrayP, y |-> ArrayP, grad |-> OperP, prox |-> OperP, prox_dual |-> OperP, linear |-> LinP, cost |-> CostP,
              rho |-> FloatP, sigma |-> FloatP, tau |-> FloatP, rho_update |-> UpdateP, sigma_update |-> UpdateP,
              tau_update |-> UpdateP, metrics |-> MetricsP, step_size |-> StepP ]
      [] cls \in {"GenericGradOpt", "VanillaGenericGradOpt", "AdaGenericGradOpt", "SAGAOptGradOpt"} -> GradOptP
      [] cls = "RMSpropGradOpt" ->
            Merge(GradOptP, [ gamma |-> {Ok("0.5"), Ok("0.9"), Ok("0.9995"), Ok("0.0005"), Bad("-0.1", VE), Bad("1.1", VE), Bad("-0.0005", VE), Bad("1.0005", VE), Bad("37.5", VE), Bad("none", TE), Bad("zeroint", TE), Bad("bigint", TE \cup VE), Bad("str", TE)} ])
      [] cls = "MomentumGradOpt" -> Merge(GradOptP, [ beta |-> FloatP ])
      [] cls = "ADAMGradOpt" ->
            LET W == {Ok("0.5"), Ok("0.9"), Ok("0.9995"), Ok("0.0005"), Bad("-0.0005", VE), Bad("1.0005", VE), Bad("37.5", VE), Bad("-0.1", VE), Bad("1.0", VE), Bad("1.1", VE), Bad("none", TE), Bad("zeroint", TE), Bad("bigint", TE \cup VE), Bad("str", TE)}
            IN Merge(GradOptP, [ gamma |-> W, beta |-> W ])
      [] cls = "GradBasic" ->
            [ data |-> {Ok("array"), Ok("intarray"), Ok("listfloat"), Ok("intfloat"), Bad("list", TE), Bad("none", TE), Bad("str", TE), Bad("wrongtype", TE)},
              op |-> CallP, trans_op |-> CallP ]
      [] cls = "GradParent" ->
            [ data |-> {Ok("array"), Bad("list", TE), Bad("wrongtype", TE)}, op |-> CallP, trans_op |-> CallP,
              get_grad |-> {Ok("func"), Ok("none"), Bad("int", TE), Bad("str", TE)}, cost |-> {Ok("func"), Ok("none"), Bad("int", TE)} ]
      [] cls = "LinearParent" -> [ op |-> CallP, adj_op |-> CallP ]
      [] cls = "ProximityParent" -> [ op |-> CallP, cost |-> CallP ]
      [] cls = "LinearCombo" ->
            [ operators |-> {Ok("list"), Ok("tuple"), Ok("array"), Bad("single", TE), Bad("none", TE), Bad("empty", VE),
                             Bad("noop", VE), Bad("noadj", VE), Bad("opint", TE), Bad("adjint", TE)},
              weights |-> {Ok("none"), Ok("list"), Ok("array"), Bad("ints", TE), Bad("short", VE), Bad("long", VE), Bad("empty", VE), Bad("float", TE)} ]
      [] cls = "ProximityCombo" ->
            [ operators |-> {Ok("list"), Ok("tuple"), Ok("array"), Ok("foreign"), Bad("single", TE), Bad("none", TE), Bad("empty", VE),
                             Bad("noop", VE), Bad("nocost", VE), Bad("opint", TE), Bad("costint", TE)} ]
      [] cls = "costObj" ->
            [ operators |-> {Ok("list"), Ok("tuple"), Ok("array"), Ok("foreign"), Bad("single", TE), Bad("str", TE), Bad("nocost", VE), Bad("costint", TE)} ]
      [] cls = "OrderedWeightedL1Norm" ->
            [ weights |-> {Ok("descending"), Ok("constant"), Ok("zeroend"), Ok("one"), Ok("zeros"), Bad("slightly", VE), Bad("lateneg", VE), Bad("latebump", VE), Bad("ascending", VE), Bad("bump", VE), Bad("negative", VE)} ]
      [] cls = "KSupportNorm" -> [ k |-> {Ok("1"), Ok("2"), Ok("3"), Ok("100"), Bad("0", VE), Bad("-1", VE), Bad("-100", VE)} ]
      [] cls = "KSupportNorm.k_value" -> [ k |-> {Ok("1"), Ok("2"), Bad("0", VE), Bad("-3", VE)} ]
      [] cls = "WaveletTransform" ->
            [ wavelet |-> {Ok("haar"), Ok("db2"), Bad("unknown", VE), Bad("", VE)}, backend |-> {Ok("numpy"), Bad("jax", VE), Bad("cupy", VE)},
              decimated |-> {Ok("true"), Bad("false", {"NotImplementedError"})} ]
      [] cls = "LowRankMatrix" ->      \* constructed and applied
            [ lowr_type |-> {Ok("standard"), Ok("ngole"), Bad("other", VE)}, thresh_type |-> {Ok("soft"), Ok("hard"), Bad("other", VE)} ]
      [] cls = "SparseThreshold" -> [ thresh_type |-> {Ok("soft"), Ok("hard"), Bad("other", VE)} ]
      [] cls = "is_executable" ->
            [ name |-> {Ok("sh"), Ok("abs"), Bad("missing", OE), Bad("absmissing", OE), Bad("plainfile", OE), Bad("dir", OE), Bad("int", TE), Bad("none", TE), Bad("list", TE), Bad("path", TE), Bad("bytes", TE)} ]
      [] cls = "file_name_error" -> [ name |-> {Ok("file"), Bad("empty", OE), Bad("missing", OE), Bad("dash", OE), Bad("dir", OE)} ]
      [] cls = "transpose_test" -> [ op |-> CallP, op_t |-> CallP ]
      [] cls = "svd_thresh_coef" -> [ op |-> CallP, thresh_type |-> {Ok("soft"), Ok("hard"), Bad("other", VE)} ]
      [] cls = "svd_thresh" ->
            [ n_pc |-> {Ok("none"), Ok("1"), Ok("2"), Ok("100"), Ok("all"), Bad("0", VE), Bad("-1", VE), Bad("every", VE), Bad("ALL", VE),
                        Bad("empty", VE), Bad("half", VE), Bad("list", VE)},
              threshold |-> {Ok("none"), Ok("float")}, thresh_type |-> {Ok("soft"), Ok("hard"), Bad("other", VE)} ]
      [] cls = "svd_thresh_coef_fast" -> [ thresh_type |-> {Ok("soft"), Ok("hard"), Bad("other", VE)} ]
      [] cls = "thresh" -> [ thresh_type |-> {Ok("soft"), Ok("hard"), Bad("other", VE), Bad("empty", VE), Bad("Soft", VE)} ]
      [] cls = "calculate_svd" ->
            [ data |-> {Ok("array2d"), Ok("tall"), Bad("list", TE), Bad("vector", TE), Bad("cube", TE), Bad("none", TE)} ]
      [] cls = "positive" ->
            [ data |-> {Ok("float"), Ok("int"), Ok("array2d"), Ok("list"), Ok("tuple"), Bad("str", TE), Bad("none", TE), Bad("dict", TE)} ]
Classes == {"FISTA", "ForwardBackward", "GenForwardBackward", "POGM", "Condat", "GenericGradOpt", "VanillaGenericGradOpt",
    "AdaGenericGradOpt", "SAGAOptGradOpt", "RMSpropGradOpt", "MomentumGradOpt", "ADAMGradOpt", "GradBasic", "GradParent",
    "LinearParent", "ProximityParent", "LinearCombo", "ProximityCombo", "costObj", "OrderedWeightedL1Norm", "KSupportNorm",
    "KSupportNorm.k_value", "WaveletTransform", "LowRankMatrix", "SparseThreshold", "is_executable", "file_name_error",
    "transpose_test", "svd_thresh_coef", "svd_thresh", "svd_thresh_coef_fast", "thresh", "calculate_svd", "positive"}

\* given: a function from some parameters of cls to value records; Val looks a value up by name
Val(cls, given, p) == CHOOSE r \in Params(cls)[p] : r.v = given[p]
Is(given, p, v) == p \in DOMAIN given /\ given[p] = v
In(given, p, S) == p \in DOMAIN given /\ given[p] \in S

Own(cls, given) == UNION {Val(cls, given, p).e : p \in DOMAIN given}
Strategies == {"adaptive", "adaptive-i", "adaptive-1", "adaptive-ii", "adaptive-2", "greedy"}
FistaErr(given) ==
    LET strat == In(given, "restart", Strategies) IN
    IF \/ strat /\ In(given, "a_cd", {"3", "2.001"})
       \/ strat /\ ~In(given, "xi", {"0.9", "0.9995"})
       \/ Is(given, "restart", "greedy") /\ (~Is(given, "minbeta", "0.5") \/ ~In(given, "s", {"1.1", "1.0005"}))
    THEN VE ELSE {}
FistaDom == {"a_cd", "restart", "xi", "s", "minbeta"}
WithoutFista(given) == [p \in DOMAIN given \ FistaDom |-> given[p]]
\* the automatic cost needs operators that have a cost
AutoCost(given) == IF ~In(given, "cost", {"obj", "foreign", "none"})
                      /\ (\E p \in {"grad", "prox", "prox1", "prox2", "prox_dual"} : Is(given, p, "nocost")) THEN VE ELSE {}
\* metrics need a linear operator there
MetricLinear(given) == IF Is(given, "metrics", "dict") /\ ~In(given, "linear", {"native", "foreign"}) THEN VE ELSE {}

Errors(cls, given) ==
    CASE cls = "FISTA" -> Own(cls, given) \cup FistaErr(given)
      [] cls = "ForwardBackward" ->
            (IF In(given, "lambda_update", {"func", "none", "int", "nesterov"}) THEN Own(cls, WithoutFista(given))
             ELSE Own(cls, given) \cup FistaErr(given))
            \cup AutoCost(given) \cup MetricLinear(given)
      [] cls = "GenForwardBackward" -> Own(cls, given) \cup AutoCost(given) \cup MetricLinear(given)
      [] cls \in {"POGM", "Condat", "GenericGradOpt", "VanillaGenericGradOpt", "AdaGenericGradOpt", "SAGAOptGradOpt", "RMSpropGradOpt",
                  "MomentumGradOpt", "ADAMGradOpt"} -> Own(cls, given) \cup AutoCost(given)
      [] OTHER -> Own(cls, given)

\* the parameters whose foreign objects are announced with a warning
Announced(cls, given) ==
    {p \in DOMAIN given : /\ given[p] \in {"foreign", "nocost"}
                          /\ p \in {"grad", "prox", "prox1", "prox2", "prox_dual", "cost"} \cup (IF cls = "Condat" THEN {"linear"} ELSE {})
                          /\ cls \notin {"ProximityCombo", "costObj"}}
=============================================================================
