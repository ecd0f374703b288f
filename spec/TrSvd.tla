------------------------------- MODULE TrSvd -------------------------------
(* Singular-value thresholding.  A case is a history of calls on one operator *)
(* (or of independent function calls).                                        *)
EXTENDS FnBase, Svd, Conv
VARIABLES cs, l, st

Fac(a) == IF Orthonormal(a.U) /\ Orthonormal(a.V) THEN TRUE ELSE Assert(FALSE, "factors not orthonormal")
\* Number of components whose autocorrelation is not concentrated: u is the left singular vector as an h x h image
Peaked(u, h, factor) ==
    LET im == Arr(<<h, h>>, u)
        ac == ConvSame(im, Arr(<<h, h>>, Reverse(u)))          \* correlation of the image with itself
        peak == ac.data[Pos(ac.shape, <<h \div 2, h \div 2>>)]
    IN ~FLe(FMul(peak, peak), FMul(factor, VNorm2(ac.data)))
FindNPc(U, h, factor) == Cardinality({k \in DOMAIN U : ~Peaked(U[k], h, factor)})
\* threshold used: given, or the n_pc-th singular value (all of them when there are fewer)
Thr(a) == IF a.thr # "none" THEN a.thr ELSE a.s[IF a.npc >= Len(a.s) THEN Len(a.s) ELSE a.npc]
\* how many components may be left when a threshold equals a singular value or the value is numerically zero
Verdict(ev) ==
    LET a == ev.a IN
    IF ~Fac(a) THEN "" ELSE
    CASE ev.fn = "svd_thresh" -> CmpArr(ev, Ok(SvdThresh(a.m, a.n, a.U, a.V, a.s, Thr(a), a.type)))
      [] ev.fn = "find_n_pc" -> CmpArr(ev, Ok(Scalar(FOf(FindNPc(a.U, a.h, a.factor)))))
      [] ev.fn = "svd_thresh_auto" ->      \* neither a threshold nor a number of components given
            LET k == FindNPc(a.U, a.h, "0.1") IN
            CmpArr(ev, Ok(SvdThresh(a.m, a.n, a.U, a.V, a.s, a.s[IF k > Len(a.s) THEN Len(a.s) ELSE k], a.type)))
      [] ev.fn = "find_n_pc_shape" -> CmpExact(ev, Err("ValueError"))
      [] ev.fn = "svd_thresh_coef_fast" ->
            LET v == CmpArr(ev, Ok(SvdThresh(a.m, a.n, a.U, a.V, a.s, a.thr, a.type))) IN
            IF v # "" THEN v
            ELSE IF ev.rank # Rank(ThreshS(a.type, a.s, a.thr)) THEN ev.fn \o ": wrong rank reported"
            ELSE ""
      [] ev.fn = "svd_thresh_coef" ->
            CmpArr(ev, Ok(SvdThreshCoef(a.m, a.n, a.U, a.V, a.s, a.ts, a.type)))
      [] ev.fn = "LowRankMatrix.op" ->
            CmpArr(ev, Ok(MatrixToCube(IF a.ngole THEN SvdThreshCoef(a.m, a.n, a.U, a.V, a.s, a.ts, a.type)
                                       ELSE SvdThresh(a.m, a.n, a.U, a.V, a.s, a.thr, a.type), a.n, a.sh)))
      [] ev.fn \in {"LowRankMatrix.cost", "nuclear_norm"} -> CmpArr(ev, Ok(Scalar(FMul(a.thr, NuclearNorm(a.s)))))
      [] ev.fn = "calculate_svd" -> CmpArr(ev, Ok(Arr(<<Len(a.s)>>, a.s)))
      [] OTHER -> "unknown event"

InitSt(c) == <<>>
Steps(c, s, ev) == RV(Verdict(ev), s)
INSTANCE TraceRun
=============================================================================
