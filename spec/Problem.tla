------------------------------ MODULE Problem ------------------------------
(* The environment of a solver: a smooth term, proximity operators and linear *)
(* maps given by data, on vectors (arrays are flattened, row-major).          *)
EXTENDS Vec

\* gradient of 1/2 |A x - y|^2 plus a constant vector
Grad(p, x) ==
    LET n == Len(x) IN VAdd(MatHVec(p.A, n, VSub(MatVec(p.A, x), p.y)), p.c)
Smooth(p, x) ==
    FAdd(FMul("0.5", VNorm2(VSub(MatVec(p.A, x), p.y))), FRe(FVdot(p.c, x)))

\* magnitude shrinkage of a real or complex scalar
Shrink(a, t) == IF FLe(FAbs(a), t) THEN "0.0" ELSE FMul(a, FSub("1.0", FDiv(t, FAbs(a))))

\* proximity operator q at x, scaled by the factor vector f
Prox(q, x, f) ==
    CASE q.t = "id" -> x
      [] q.t = "point" -> q.w                   \* projection on a single point
      [] q.t = "pos" -> VMap(LAMBDA a : FMax(a, "0.0"), x)
      [] q.t = "soft" -> TLCEval([i \in DOMAIN x |-> Shrink(x[i], FMul(f[i], q.w[i]))])
      [] q.t = "aff" -> TLCEval([i \in DOMAIN x |->
                           FDiv(FAdd(x[i], FMul(f[i], q.w[i])), FAdd("1.0", FMul(f[i], q.d[i])))])

\* linear maps: "id" or a matrix
LinOp(q, x) == IF q.t = "id" THEN x ELSE MatVec(q.M, x)
LinAdj(q, y) == IF q.t = "id" THEN y ELSE MatHVec(q.M, q.ncol, y)

Fac(x, s) == VConst(Len(x), s)
\* sign tests that rounding may decide either way
NearZero(v, scale) == FLe(FAbs(v), FAdd(FMul("1e-8", scale), "1e-22"))
=============================================================================
