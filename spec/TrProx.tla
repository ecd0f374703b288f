------------------------------- MODULE TrProx -------------------------------
EXTENDS FnBase, ProxFn, Problem
VARIABLES cs, l, st

SameShape(ev, d) == Ok(Arr(ev.a.x.shape, d))
\* a hard threshold may go either way when a complex magnitude rounds onto it
HardCmp(ev, x, t) ==
    LET e == ThreshV("hard", x, t) IN
    CmpWith(ev, SameShape(ev, e), LAMBDA u, v :
        \A i \in DOMAIN v.data : \/ FClose(u.data[i], v.data[i], ev.rtol, ev.atol)
                                 \/ /\ ev.a.inexact /\ FClose(FAbs(x[i]), t[i], ev.tie, "0.0")
                                    /\ \/ FEq(u.data[i], "0.0")
                                       \/ FClose(u.data[i], x[i], ev.rtol, ev.atol))

CostCmp(ev, v) == CmpArr(ev, Ok(Scalar(v)))
\* a cost that is wrong in one recorded, known way is named separately
CostKnown(ev, right, Wrong(_), what) ==
    LET r == CostCmp(ev, right) IN
    IF r = "" \/ ev.out.k # "ok" \/ ev.out.v.shape # <<>> THEN r
    ELSE IF Wrong(ev.out.v.data[1]) THEN ev.fn \o ": " \o what ELSE r

Verdict(ev) ==
    LET a == ev.a
        x == IF "x" \in DOMAIN a THEN a.x.data ELSE <<>>
    IN CASE ev.fn = "IdentityProx.op" -> CmpExact(ev, Ok(a.x))
      [] ev.fn \in {"IdentityProx.cost", "Positivity.cost"} -> CmpExact(ev, Ok(Scalar("0.0")))
      [] ev.fn \in {"Positivity.op", "positive"} ->
            IF ev.struct # ev.a.struct THEN ev.fn \o ": changed the nesting" ELSE CmpEl(ev, SameShape(ev, PosV(x)))
      [] ev.fn \in {"SparseThreshold.op", "thresh"} ->
            LET t == VMul(a.w, a.f) IN
            IF a.type = "soft" THEN CmpEl(ev, SameShape(ev, ThreshV("soft", x, t))) ELSE HardCmp(ev, x, t)
      [] ev.fn = "SparseThreshold.cost" -> CostCmp(ev, L1(a.w, LinOp(a.lin, x)))
      [] ev.fn = "Ridge.op" -> CmpEl(ev, SameShape(ev, RidgeV(x, a.w, a.f)))
      [] ev.fn = "Ridge.cost" -> CostCmp(ev, L2(a.w, LinOp(a.lin, x)))
      [] ev.fn = "ElasticNet.op" -> CmpEl(ev, SameShape(ev, ElasticV(x, a.al, a.be, a.f)))
      [] ev.fn = "ElasticNet.cost" ->
            LET y == LinOp(a.lin, x) IN CostCmp(ev, FAdd(L2(a.al, y), L1(a.be, y)))
      [] ev.fn = "GroupLASSO.op" -> CmpEl(ev, Ok(GroupV(a.x, a.w, a.f)))
      [] ev.fn = "GroupLASSO.cost" ->
            CostCmp(ev, FSum([j \in DOMAIN a.w |-> FMul(a.w[j], GroupNorm(a.x, j))]))
      [] ev.fn = "OWL.op" ->
            CmpPred(ev, LAMBDA v : v.shape = a.x.shape /\ OWLOptimal(x, v.data, a.w, a.f, ev.rtol),
                    "not the minimiser of its problem")
      [] ev.fn = "OWL.cost" ->
            CostKnown(ev, OWL(a.w, x), LAMBDA v : FClose(v, FDotU(a.w, FSort(VAbs(x))), ev.rtol, ev.atol),
                      "pairs the largest weights with the smallest magnitudes")
      [] ev.fn = "KSupport.op" ->
            CmpPred(ev, LAMBDA v : v.shape = a.x.shape /\ KSupOptimal(x, v.data, a.k, FMul(a.beta, a.f), ev.rtol),
                    "not the minimiser of its problem")
      [] ev.fn = "KSupport.cost" ->
            LET d == Desc(VAbs(x))
                b == KSupSq(x, a.k) IN
            CostKnown(ev, FMul(a.beta, FMul("0.5", b)),
                      LAMBDA v : \E q \in 0..(a.k - 1) :
                          /\ FClose(FAdd(KHead(d, q), KTail(d, q, a.k)), b, "1e-9", ev.atol)
                          /\ FClose(v, FMul(a.beta, FAdd(FMul("0.5", KHead(d, q)), KTail(d, q, a.k))), ev.rtol, ev.atol),
                      "tail term not halved")
      [] OTHER -> "unknown event " \o ev.fn

InitSt(c) == <<>>
Steps(c, s, ev) == RV(Verdict(ev), s)
INSTANCE TraceRun
=============================================================================
