-------------------------------- MODULE TrLin --------------------------------
(* Linear operators.  A case is a history of calls on one operator; op and    *)
(* adj_op are compared with the specification's map, which has no state.      *)
EXTENDS FnBase, Wavelet
VARIABLES cs, l, st

\* op applied to each member of a batch
RECURSIVE Batched(_, _, _)
Batched(F(_), xs, k) == IF k > Len(xs) THEN <<>> ELSE <<F(xs[k])>> \o Batched(F, xs, k + 1)
OnBatch(F(_), x, nb) == IF nb = 1 THEN F(x) ELSE Stack(Batched(F, Subs(x), 1))

MatOf(a) == Rows(a)
RECURSIVE MatApply(_, _)
MatApply(M, x) ==
    IF Len(x.shape) > 2 THEN LET xs == Subs(x) IN Stack([n \in DOMAIN xs |-> MatApply(M, xs[n])])    \* a stack of matrices
    ELSE IF Len(x.shape) = 1 THEN Arr(<<Len(M)>>, MatVec(M, x.data))
    ELSE LET r == MatMul(M, Rows(x)) IN Arr(<<Len(M), x.shape[2]>>, TLCEval(FlattenSeq(r)))

\* swaps the first two of every three detail bands (its own inverse); three dimensions keep the order
TorchOrder(bs, nd) ==
    IF nd # 2 THEN bs
    ELSE TLCEval([k \in DOMAIN bs |-> IF k = 1 \/ (k - 2) % 3 = 2 THEN bs[k] ELSE IF (k - 2) % 3 = 0 THEN bs[k + 1] ELSE bs[k - 1]])

Verdict(ev) ==
    LET a == ev.a IN
    CASE ev.fn \in {"Identity.op", "Identity.adj_op"} -> CmpExact(ev, Ok(a.x))
      [] ev.fn = "MatrixOperator.op" -> CmpArr(ev, Ok(MatApply(MatOf(a.M), a.x)))
      [] ev.fn = "MatrixOperator.adj_op" -> CmpArr(ev, Ok(MatApply(MatH(MatOf(a.M)), a.x)))
      [] ev.fn = "WaveletTransform.op" ->
            CmpArr(ev, Ok(OnBatch(LAMBDA x : LET c == Ravel(WaveDec(x, a.bank, a.mode, a.level)) IN Arr(<<Len(c)>>, c),
                                  a.x, a.nb)))
      [] ev.fn = "WaveletTransform.adj_op" ->
            LET shapes == WaveShapes(a.sh, Len(a.bank.dlo), a.mode, a.level) IN
            CmpArr(ev, Ok(OnBatch(LAMBDA y : WaveRec(Unravel(y.data, shapes), a.sh, a.bank, a.mode), a.x, a.nb)))
      [] ev.fn = "WaveletTransform.coeffs_shape" ->
            IF ev.out.k # "ok" THEN ev.fn \o ": not available"
            ELSE IF ev.out.v # WaveShapes(a.sh, Len(a.bank.dlo), a.mode, a.level) THEN ev.fn \o ": wrong shapes" ELSE ""
      \* the PyTorch transform: one array per band, always with a batch axis; in two dimensions
      \* the detail bands come in the order high-low, low-high, high-high
      [] ev.fn = "TorchWaveletTransform.op" ->
            LET per == Batched(LAMBDA x : TorchOrder(WaveDec(x, a.bank, a.mode, a.level), Len(a.sh)), Subs(a.x), 1)
                nb == Len(per[1]) IN
            IF ev.out.k # "ok" THEN CmpArr(ev, Ok(a.x))
            ELSE IF Len(ev.out.bands) # nb THEN ev.fn \o ": number of bands"
            ELSE LET bad == {k \in 1..nb : LET w == Stack([b \in DOMAIN per |-> per[b][k]]) g == ev.out.bands[k] IN
                                g.shape # w.shape \/ ~VClose(g.data, w.data, ev.rtol, ev.atol)}
                 IN IF bad = {} THEN "" ELSE ev.fn \o ": wrong band"
      [] ev.fn = "TorchWaveletTransform.adj_op" ->
            LET bsz == a.bands[1].shape[1]
                One(b) == WaveRec(TorchOrder([k \in DOMAIN a.bands |-> Subs(a.bands[k])[b]], Len(a.sh)), a.sh, a.bank, a.mode)
            IN CmpArr(ev, Ok(Stack([b \in 1..bsz |-> One(b)])))
      \* inverse: adj_op(op(x)) = x
      [] ev.fn = "reconstruct" -> CmpArr(ev, Ok(a.x))
      \* <op x, y> = <x, adj_op y>
      [] ev.fn = "adjoint" ->
            LET lhs == FVdot(a.opx.data, a.y.data)
                rhs == FVdot(a.x.data, a.adjy.data)
                sc == FAdd(VNorm(a.opx.data), FAdd(VNorm(a.y.data), FAdd(VNorm(a.x.data), VNorm(a.adjy.data))))
            IN IF a.opx.shape # a.y.shape \/ a.adjy.shape # a.x.shape THEN a.op \o ": shape of the adjoint"
               ELSE IF FClose(lhs, rhs, ev.rtol, FMul(ev.atol, FMul(sc, sc))) THEN ""
               ELSE a.op \o ": adjoint is not exact"
      \* op(a x + b y) = a op x + b op y
      [] ev.fn = "linear" ->
            LET rhs == VAdd(VScale(a.al, a.opx.data), VScale(a.be, a.opy.data)) IN
            IF VClose(a.opz.data, rhs, ev.rtol, FMul(ev.atol, FAdd(FMaxAbs(a.opx.data), FMaxAbs(a.opy.data)))) THEN ""
            ELSE a.op \o ": not linear"
      [] ev.fn = "raised" -> a.op \o ": raised " \o a.e
      [] OTHER -> "unknown event " \o ev.fn

InitSt(c) == <<>>
Steps(c, s, ev) == RV(Verdict(ev), s)
INSTANCE TraceRun
=============================================================================
