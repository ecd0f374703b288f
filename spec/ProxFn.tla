------------------------------- MODULE ProxFn -------------------------------
(* Closed forms of the separable operators, and optimality conditions of the  *)
(* two that have none.  x, w, f are vectors (weights and factors expanded to  *)
(* the shape of the data).                                                    *)
EXTENDS Vec

SoftEl(a, t) == LET m == FAbs(a) IN IF FLe(m, t) THEN "0.0" ELSE FMul(a, FSub("1.0", FDiv(t, m)))
HardEl(a, t) == IF FGe(FAbs(a), t) THEN a ELSE "0.0"
ThreshV(type, x, t) == TLCEval([i \in DOMAIN x |-> IF type = "soft" THEN SoftEl(x[i], t[i]) ELSE HardEl(x[i], t[i])])
PosV(x) == VMap(LAMBDA a : IF FLt(a, "0.0") THEN "0.0" ELSE a, x)
RidgeV(x, w, f) == TLCEval([i \in DOMAIN x |-> FDiv(x[i], FAdd("1.0", FMul("2.0", FMul(w[i], f[i]))))])
ElasticV(x, al, be, f) ==
    TLCEval([i \in DOMAIN x |-> FDiv(SoftEl(x[i], FMul(be[i], f[i])), FAdd("1.0", FMul("2.0", FMul(al[i], f[i]))))])
\* group LASSO on an array: groups run along the first axis; w, f have one entry per group
GroupNorm(x, j) ==
    LET ng == Size(Tail(x.shape)) IN VNorm([k \in 1..x.shape[1] |-> x.data[(k - 1) * ng + j]])
GroupV(x, w, f) ==
    LET ng == Size(Tail(x.shape))
        sc == TLCEval([j \in 1..ng |->
                 LET t == FMul(w[j], f[j]) nn == GroupNorm(x, j) IN
                 IF FLe(nn, t) THEN "0.0" ELSE FSub("1.0", FDiv(t, nn))])
    IN Arr(x.shape, TLCEval([p \in 1..Len(x.data) |-> FMul(x.data[p], sc[((p - 1) % ng) + 1])]))

L1(w, v) == FSum([i \in DOMAIN v |-> FAbs(FMul(w[i], v[i]))])
L2(w, v) == FSum([i \in DOMAIN v |-> FMul(FAbs(w[i]), FMul(FAbs(v[i]), FAbs(v[i])))])

----------------------------------------------------------------------------
Desc(s) == LET a == FSort(s) n == Len(s) IN TLCEval([i \in 1..n |-> a[n - i + 1]])
RECURSIVE PSum(_, _)
PSum(s, k) == IF k = 0 THEN "0.0" ELSE FAdd(PSum(s, k - 1), s[k])
Inner(u, v) == FRe(FVdot(u, v))

\* ordered weighted L1: value of the penalty, and  y - z \in f * subdifferential at z
OWL(w, x) == FDotU(w, Desc(VAbs(x)))
OWLOptimal(y, z, w, f, tol) ==
    LET g == VSub(y, z)
        gs == Desc(VAbs(g))
        sc == FMul(tol, FAdd(FMaxAbs(y), FMul(f, FMaxAbs(w))))
        wf == VScale(f, w)
    IN /\ \A k \in 1..Len(gs) : FLe(PSum(gs, k), FAdd(PSum(wf, k), FMul(FOf(k), sc)))
       /\ FClose(Inner(g, z), FMul(f, OWL(w, z)), tol, FMul(sc, FAdd("1.0", FMaxAbs(y))))

\* squared k-support norm: sum of the k largest squares is the dual norm squared
DualSq(s, k) == PSum(Desc(VMap(LAMBDA a : LET m == FAbs(a) IN FMul(m, m), s)), k)
\* half the squared norm with weight lam: z minimises 1/2|z-y|^2 + lam/2 |z|_k^2
KSupOptimal(y, z, k, lam, tol) ==
    LET s == VScale(FDiv("1.0", lam), VSub(y, z))
        m == FMaxAbs(y)
        tiny == FMul("1e-13", m)
        \* theta_i = z_i / s_i must lie in [0, 1] and sum to at most k
        th == TLCEval([i \in DOMAIN z |->
                 IF FLe(FAbs(z[i]), tiny) THEN "0.0" ELSE FDiv(FRe(FMul(FConj(s[i]), z[i])), FMul(FAbs(s[i]), FAbs(s[i])))])
        par == \A i \in DOMAIN z : FClose(z[i], FMul(th[i], s[i]), tol, FMul(tol, m))
    IN /\ par
       /\ \A i \in DOMAIN th : FLe(FNeg(tol), th[i]) /\ FLe(th[i], FAdd("1.0", tol))
       /\ FLe(FSum(th), FAdd(FOf(k), FMul(tol, FOf(Len(th)))))
       /\ FClose(Inner(s, z), DualSq(s, k), tol, FMul(tol, FMul(m, m)))

\* squared k-support norm of x: best feasible split into q head entries and a shared tail
KHead(d, q) == PSum([i \in 1..Len(d) |-> FMul(d[i], d[i])], q)
KTailSum(d, q) == FSum(SubSeq(d, q + 1, Len(d)))
KTail(d, q, k) == LET t == KTailSum(d, q) IN FDiv(FMul(t, t), FOf(k - q))
KFeasible(d, q, k) == FLe(FMul(d[q + 1], FOf(k - q)), FMul("1.0000000001", KTailSum(d, q)))
KVals(d, k) == {[q |-> q, v |-> FAdd(KHead(d, q), KTail(d, q, k))] : q \in {q \in 0..(k - 1) : KFeasible(d, q, k)}}
KBest(d, k) == LET vs == KVals(d, k) IN CHOOSE r \in vs : \A o \in vs : FLe(r.v, o.v)
KSupSq(x, k) == KBest(Desc(VAbs(x)), k).v
=============================================================================
