------------------------------ MODULE Wavelet ------------------------------
(* The separable discrete wavelet transform: analysis and synthesis filters   *)
(* applied axis by axis, level by level, with every boundary mode.  A filter  *)
(* bank is [dlo, dhi, rlo, rhi].  Coefficients are a sequence of arrays, the  *)
(* coarse band first, then per level (coarse to fine) the 2^d - 1 detail      *)
(* bands in the order of the binary numbers 0..01, .., 1..1.                  *)
EXTENDS Conv

Half(n) == n \div 2
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
\* index actually read for position p of an axis of n entries; -1: reads a zero
Ext(mode, p, n) ==
    CASE mode = "zero" -> IF p >= 0 /\ p < n THEN p ELSE -1
      [] mode = "symmetric" -> LET q == Mod(p, 2 * n) IN IF q < n THEN q ELSE 2 * n - 1 - q
      [] mode = "periodic" -> Mod(p, n)
      [] mode = "constant" -> Min2(Max2(p, 0), n - 1)
      [] mode = "reflect" -> IF n = 1 THEN 0
                             ELSE LET q == Mod(p, 2 * (n - 1)) IN IF q < n THEN q ELSE 2 * (n - 1) - q
CoefLen(mode, n, F) == IF mode = "periodization" THEN Half(n + 1) ELSE Half(n + F - 1)
\* position read by coefficient k with filter tap j (all from 0)
Read(mode, n, F, k, j) ==
    IF mode = "periodization" THEN Min2(Mod(2 * k + Half(F) - j, n + (n % 2)), n - 1)
    ELSE Ext(mode, 2 * k + 1 - j, n)

Put(i, ax, v) == [i EXCEPT ![ax] = v]
DwtAxis(x, ax, f, mode) ==
    LET n == x.shape[ax]
        F == Len(f)
        sh == Put(x.shape, ax, CoefLen(mode, n, F))
    IN MkArr(sh, LAMBDA i :
         FSum([t \in 1..F |-> LET p == Read(mode, n, F, i[ax], t - 1) IN
               IF p < 0 THEN "0.0" ELSE FMul(f[t], x.data[Pos(x.shape, Put(i, ax, p))])]))
IdwtAxis(a, d, ax, lo, hi, mode) ==
    LET L == a.shape[ax]
        F == Len(lo)
        n == IF mode = "periodization" THEN 2 * L ELSE 2 * L - F + 2
        sh == Put(a.shape, ax, n)
        Tap(k, j, i) == LET p == Pos(a.shape, Put(i, ax, k)) IN FAdd(FMul(a.data[p], lo[j]), FMul(d.data[p], hi[j]))
    IN MkArr(sh, LAMBDA i :
         IF mode = "periodization"
         THEN FSum([q \in 1..(L * F) |->
                LET k == (q - 1) \div F j == (q - 1) % F IN
                IF Mod(2 * k + j - (Half(F) - 1), n) = i[ax] THEN Tap(k, j + 1, i) ELSE "0.0"])
         ELSE FSum([q \in 1..L |->
                LET j == i[ax] + F - 2 - 2 * (q - 1) IN
                IF j >= 0 /\ j < F THEN Tap(q - 1, j + 1, i) ELSE "0.0"]))

RECURSIVE Split(_, _, _, _), Join(_, _, _, _)
Split(x, ax, b, mode) ==
    IF ax > Len(x.shape) THEN <<x>>
    ELSE Split(DwtAxis(x, ax, b.dlo, mode), ax + 1, b, mode) \o Split(DwtAxis(x, ax, b.dhi, mode), ax + 1, b, mode)
Join(bs, ax, b, mode) ==
    IF Len(bs) = 1 THEN bs[1]
    ELSE LET h == Half(Len(bs)) IN
         IdwtAxis(Join(SubSeq(bs, 1, h), ax + 1, b, mode), Join(SubSeq(bs, h + 1, Len(bs)), ax + 1, b, mode),
                  ax, b.rlo, b.rhi, mode)

RECURSIVE WaveDec(_, _, _, _), WaveRecFrom(_, _, _, _, _)
WaveDec(x, b, mode, level) ==
    IF level = 0 THEN <<x>>
    ELSE LET bs == Split(x, 1, b, mode) IN WaveDec(bs[1], b, mode, level - 1) \o Tail(bs)
Crop(x, sh) == IF x.shape = sh THEN x ELSE MkArr(sh, LAMBDA i : At(x, i))
\* cs: remaining detail bands, nd of them per level
WaveRecFrom(a, cs_, nd, b, mode) ==
    IF cs_ = <<>> THEN a
    ELSE LET det == SubSeq(cs_, 1, nd) IN
         WaveRecFrom(Join(<<Crop(a, det[1].shape)>> \o det, 1, b, mode), SubSeq(cs_, nd + 1, Len(cs_)), nd, b, mode)
WaveRec(bs, sh, b, mode) ==
    LET nd == 2 ^ Len(sh) - 1 IN Crop(WaveRecFrom(bs[1], Tail(bs), nd, b, mode), sh)

\* shapes of the bands of data of shape sh
RECURSIVE WaveShapes(_, _, _, _)
WaveShapes(sh, F, mode, level) ==
    IF level = 0 THEN <<sh>>
    ELSE LET cs_ == [d \in 1..Len(sh) |-> CoefLen(mode, sh[d], F)] IN
         WaveShapes(cs_, F, mode, level - 1) \o [q \in 1..(2 ^ Len(sh) - 1) |-> cs_]
Ravel(bs) == TLCEval(Cat(bs))
RECURSIVE Unravel(_, _)
Unravel(v, shapes) ==
    IF shapes = <<>> THEN <<>>
    ELSE LET n == Size(shapes[1]) IN <<Arr(shapes[1], SubSeq(v, 1, n))>> \o Unravel(SubSeq(v, n + 1, Len(v)), Tail(shapes))
=============================================================================
