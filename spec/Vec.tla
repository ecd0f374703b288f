------------------------------- MODULE Vec -------------------------------
(* Vectors (sequences of scalars), matrices (sequences of rows) and arrays  *)
(* (records [shape, data] with row-major data).  TLCEval forces evaluation  *)
(* once; it has no logical content.                                         *)
EXTENDS Num, Integers, Sequences, FiniteSets, TLC, SequencesExt

VMap(Op(_), v) == TLCEval([i \in 1..Len(v) |-> Op(v[i])])
VZip(Op(_, _), u, v) == TLCEval([i \in 1..Len(u) |-> Op(u[i], v[i])])
VAdd(u, v) == VZip(FAdd, u, v)
VSub(u, v) == VZip(FSub, u, v)
VMul(u, v) == VZip(FMul, u, v)
VDiv(u, v) == VZip(FDiv, u, v)
VScale(s, v) == VMap(LAMBDA a : FMul(s, a), v)
VNeg(v) == VMap(FNeg, v)
VAbs(v) == VMap(FAbs, v)
VConst(n, s) == TLCEval([i \in 1..n |-> s])
VZero(n) == VConst(n, "0.0")
\* u + s*v
VAxpy(u, s, v) == VZip(LAMBDA a, b : FAdd(a, FMul(s, b)), u, v)
VNorm2(v) == FRe(FVdot(v, v))
VNorm(v) == FSqrt(VNorm2(v))
VRange(v) == {v[i] : i \in DOMAIN v}

MatVec(M, v) == TLCEval([i \in 1..Len(M) |-> FDotU(M[i], v)])
Col(M, j) == TLCEval([i \in 1..Len(M) |-> M[i][j]])
\* M^H v, for an m x n matrix with n = ncols
MatHVec(M, ncols, v) ==
    TLCEval([j \in 1..ncols |-> FVdot(Col(M, j), v)])
MatMul(M, N) == TLCEval([i \in 1..Len(M) |->
                   [j \in 1..Len(N[1]) |-> FDotU(M[i], Col(N, j))]])
MatT(M) == TLCEval([j \in 1..Len(M[1]) |-> [i \in 1..Len(M) |-> M[i][j]]])
MatH(M) == TLCEval([j \in 1..Len(M[1]) |-> [i \in 1..Len(M) |-> FConj(M[i][j])]])

VClose(u, v, rtol, atol) ==
    /\ Len(u) = Len(v)
    /\ LET m == FMul(rtol, FMax(FMaxAbs(u), FMaxAbs(v)))
           tol == FAdd(atol, IF FIsFinite(m) THEN m ELSE "0.0")
       IN \A i \in 1..Len(u) : FClose(u[i], v[i], rtol, tol)

\* element-wise comparison, no tolerance borrowed from larger neighbours
VCloseEl(u, v, rtol, atol) ==
    /\ Len(u) = Len(v)
    /\ \A i \in 1..Len(u) : FClose(u[i], v[i], rtol, atol)
VEq(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : FEq(u[i], v[i])

----------------------------------------------------------------------------
\* N-d arrays
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))
Size(shape) == ProdSeq(shape)
Arr(shape, data) == [shape |-> shape, data |-> data]
IsArr(a) == /\ DOMAIN a = {"shape", "data"}
            /\ Len(a.data) = Size(a.shape)
ArrClose(a, b, rtol, atol) == a.shape = b.shape /\ VClose(a.data, b.data, rtol, atol)
ArrEq(a, b) == a.shape = b.shape /\ VEq(a.data, b.data)

\* multi-index (0-based sequence) <-> linear position (1-based)
RECURSIVE Lin(_, _)
Lin(shape, idx) == IF shape = <<>> THEN 0
                   ELSE LET k == Len(shape) IN
                        Lin(SubSeq(shape, 1, k-1), SubSeq(idx, 1, k-1)) * shape[k] + idx[k]
Pos(shape, idx) == Lin(shape, idx) + 1
RECURSIVE UnLin(_, _)
UnLin(shape, p) == IF shape = <<>> THEN <<>>
                   ELSE LET k == Len(shape) IN
                        Append(UnLin(SubSeq(shape, 1, k-1), p \div shape[k]), p % shape[k])
Idx(shape, pos) == UnLin(shape, pos - 1)
At(a, idx) == a.data[Pos(a.shape, idx)]
\* build an array from an index function
MkArr(shape, Op(_)) == Arr(shape, TLCEval([p \in 1..Size(shape) |-> Op(Idx(shape, p))]))
Rows(a) == TLCEval([i \in 1..a.shape[1] |-> [j \in 1..a.shape[2] |-> a.data[(i-1)*a.shape[2] + j]]])
============================================================================
