-------------------------------- MODULE Svd --------------------------------
(* Matrices given by orthonormal factors: M = sum_k s_k u_k v_k^H.            *)
EXTENDS ProxFn
\* U, V: sequences of vectors (columns); s: singular values
Rebuild(m, n, U, V, s) ==
    Arr(<<m, n>>, TLCEval([p \in 1..(m * n) |->
        LET i == ((p - 1) \div n) + 1
            j == ((p - 1) % n) + 1
        IN FSum([k \in DOMAIN s |-> FMul(s[k], FMul(U[k][i], FConj(V[k][j])))])]))
Orthonormal(U) == \A a, b \in DOMAIN U :
    FClose(FVdot(U[a], U[b]), IF a = b THEN "1.0" ELSE "0.0", "1e-10", "1e-10")
ThreshS(type, s, t) == TLCEval([k \in DOMAIN s |-> IF type = "soft" THEN SoftEl(s[k], t) ELSE HardEl(s[k], t)])
Rank(s) == Cardinality({k \in DOMAIN s : ~FEq(s[k], "0.0")})
SvdThresh(m, n, U, V, s, t, type) == Rebuild(m, n, U, V, ThreshS(type, s, t))
\* coefficients thresholded row by row: row k of diag(s) V^H at t * ti_k
SvdThreshCoef(m, n, U, V, s, ts, type) ==
    LET row == TLCEval([k \in DOMAIN s |->
                 LET r == TLCEval([j \in 1..n |-> FMul(s[k], FConj(V[k][j]))])
                 IN ThreshV(type, r, VConst(n, ts[k]))])
    IN Arr(<<m, n>>, TLCEval([p \in 1..(m * n) |->
        LET i == ((p - 1) \div n) + 1
            j == ((p - 1) % n) + 1
        IN FSum([k \in DOMAIN s |-> FMul(U[k][i], row[k][j])])]))
NuclearNorm(s) == FSum(s)
\* cube [k, h, w] <-> matrix [h*w, k]
MatrixToCube(M, k, sh) == Arr(<<k>> \o sh, TLCEval([p \in 1..(k * Size(sh)) |->
    LET q == Size(sh) i == ((p - 1) \div q) + 1 j == ((p - 1) % q) + 1 IN M.data[(j - 1) * k + i]]))
=============================================================================
