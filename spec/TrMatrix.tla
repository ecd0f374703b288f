------------------------------ MODULE TrMatrix ------------------------------
(* Matrix tools and the power method.                                        *)
EXTENDS FnBase, Svd
VARIABLES cs, l, st

Proj(u, v) == VScale(FDiv(FDotU(v, u), FDotU(u, u)), u)
\* Gram-Schmidt with exact arithmetic in mind: each row minus its projections on the previous
RECURSIVE GS(_, _)
GS(rows, us) ==
    IF rows = <<>> THEN us
    ELSE LET v == Head(rows)
             RECURSIVE Red(_, _)
             Red(k, r) == IF k > Len(us) THEN r ELSE Red(k + 1, VSub(r, Proj(us[k], r)))
         IN GS(Tail(rows), Append(us, Red(1, v)))
Flat(rows) == TLCEval(FlattenSeq(rows))
Unit(us) == [k \in DOMAIN us |-> VScale(FDiv("1.0", VNorm(us[k])), us[k])]

\* quarter turns about the centre pixel (n-1)/2 (rounded down), indices modulo n;
\* np.dot(index, R): new = (c i + s j, -s i + c j)
Quarter(m, q) ==
    LET n == m.shape[1]
        z == (n - 1) \div 2
        c == CASE q = 0 -> 1 [] q = 1 -> 0 [] q = 2 -> -1 [] q = 3 -> 0
        s == CASE q = 0 -> 0 [] q = 1 -> 1 [] q = 2 -> 0 [] q = 3 -> -1
        W(a) == ((a % n) + n) % n
    IN MkArr(m.shape, LAMBDA i : LET a == i[1] - z b == i[2] - z IN At(m, <<W(c * a + s * b + z), W(c * b - s * a + z)>>))

\* power iteration: states [x, norm, calls]; result after the stop rule.
\* The comparison with the tolerance may go either way within rounding.
RECURSIVE Power(_, _, _, _, _, _)
Power(M, x, old, tol, left, calls) ==
    LET y == MatVec(M, x)
        nn == VNorm(y)
        d == FAbs(FSub(nn, old))
        near == FClose(d, tol, "1e-6", "1e-14")
        stop == {[norm |-> nn, calls |-> calls + 1]}
        go == IF left = 1 THEN stop ELSE Power(M, VScale(FDiv("1.0", nn), y), nn, tol, left - 1, calls + 1)
    IN IF near THEN stop \cup go ELSE IF FLt(d, tol) THEN stop ELSE go
PowerRuns(a) ==
    LET n0 == VNorm(a.start) IN Power(a.M, VScale(FDiv("1.0", n0), a.start), n0, a.tol, a.maxit, 0)

Verdict(ev) ==
    LET a == ev.a IN
    CASE ev.fn = "project" -> CmpArr(ev, Ok(Arr(a.v.shape, Proj(a.u.data, a.v.data))))
      [] ev.fn = "gram_schmidt" ->
            IF a.opt \notin {"orthonormal", "orthogonal", "both"} THEN CmpExact(ev, Err("ValueError"))
            ELSE LET us == GS(Rows(a.x), <<>>)
                     d == IF a.opt = "orthogonal" THEN Flat(us)
                          ELSE IF a.opt = "orthonormal" THEN Flat(Unit(us)) ELSE Flat(us) \o Flat(Unit(us))
                 IN CmpArr(ev, Ok(Arr(IF a.opt = "both" THEN <<2>> \o a.x.shape ELSE a.x.shape, d)))
      [] ev.fn = "nuclear_norm" -> CmpArr(ev, Ok(Scalar(NuclearNorm(a.s))))
      [] ev.fn = "rot_matrix" ->
            CmpEl(ev, Ok(Arr(<<2, 2>>, <<FCos(a.angle), FNeg(FSin(a.angle)), FSin(a.angle), FCos(a.angle)>>)))
      [] ev.fn = "matrix.rotate" ->
            IF a.x.shape[1] # a.x.shape[2] THEN CmpExact(ev, Err("ValueError"))
            ELSE CmpExact(ev, Ok(Quarter(a.x, a.q)))
      [] ev.fn = "PowerMethod" ->
            IF ev.out.k = "raise" THEN "PowerMethod: raised " \o ev.out.e
            ELSE LET runs == PowerRuns(a) IN
                 IF ~\E r \in runs : ev.calls = r.calls THEN "PowerMethod: number of iterations"
                 ELSE IF ~\E r \in runs : ev.calls = r.calls /\ FClose(ev.spec, FMul(r.norm, a.factor), ev.rtol, "0.0")
                      THEN "PowerMethod: spectral radius"
                 ELSE IF ~FClose(FMul(ev.inv, ev.spec), "1.0", "1e-12", "0.0") THEN "PowerMethod: inverse spectral radius"
                 ELSE ""
      [] OTHER -> "unknown event " \o ev.fn

InitSt(c) == <<>>
Steps(c, s, ev) == RV(Verdict(ev), s)
INSTANCE TraceRun
=============================================================================
