----------------------------- MODULE Transform -----------------------------
(* Layout transforms of modopt.base.transform and modopt.base.np_adjust,     *)
(* as index maps: the value of every output position is one input position.  *)
EXTENDS Vec

Cube2MapOk(c, L) == Len(c.shape) = 3 /\ c.shape[1] = L[1] * L[2]
Cube2Map(c, L) ==
    LET h == c.shape[2] w == c.shape[3]
    IN MkArr(<<L[1] * h, L[2] * w>>,
             LAMBDA i : At(c, <<(i[1] \div h) * L[2] + (i[2] \div w), i[1] % h, i[2] % w>>))

Map2CubeOk(m, L) == m.shape[1] % L[1] = 0 /\ m.shape[2] % L[2] = 0
Map2Cube(m, L) ==
    LET h == m.shape[1] \div L[1] w == m.shape[2] \div L[2]
    IN MkArr(<<L[1] * L[2], h, w>>,
             LAMBDA i : At(m, <<(i[1] \div L[2]) * h + i[2], (i[1] % L[2]) * w + i[3]>>))

\* one column per (square) tile, tiles taken row by row
Map2Matrix(m, L) ==
    LET s == m.shape[1] \div L[1]
    IN MkArr(<<s * s, L[1] * L[2]>>,
             LAMBDA i : At(m, <<(i[2] \div L[2]) * s + (i[1] \div s), (i[2] % L[2]) * s + (i[1] % s)>>))

ISqrt(n) == CHOOSE k \in 0..n : k * k <= n /\ (k + 1) * (k + 1) > n
Matrix2Map(x, mshape) ==
    LET s == ISqrt(x.shape[1])
        cols == mshape[2] \div s
        tile(i) == (i[1] \div s) * cols + (i[2] \div s)
    IN MkArr(mshape,     \* the tiles that no image fills are blank
             LAMBDA i : IF tile(i) < x.shape[2] THEN At(x, <<(i[1] % s) * s + (i[2] % s), tile(i)>>) ELSE "0.0")

Cube2Matrix(c) ==
    LET rest == SubSeq(c.shape, 2, Len(c.shape))
        p == Size(rest)
    IN MkArr(<<p, c.shape[1]>>, LAMBDA i : c.data[i[2] * p + i[1] + 1])
Matrix2Cube(x, im) ==
    LET p == Size(im)
    IN MkArr(<<x.shape[2]>> \o im,
             LAMBDA i : At(x, <<Lin(im, Tail(i)), i[1]>>))

----------------------------------------------------------------------------
Rotate(a) ==
    MkArr(a.shape, LAMBDA i : At(a, [k \in 1..Len(i) |->
             IF k <= 2 THEN a.shape[k] - 1 - i[k] ELSE i[k]]))
RotateStack(a) ==
    MkArr(a.shape, LAMBDA i : At(a, [k \in 1..Len(i) |->
             IF k \in {2, 3} THEN a.shape[k] - 1 - i[k] ELSE i[k]]))
Pad2d(a, p) ==
    MkArr(<<a.shape[1] + 2 * p[1], a.shape[2] + 2 * p[2]>>,
          LAMBDA i : IF /\ i[1] >= p[1] /\ i[1] < p[1] + a.shape[1]
                        /\ i[2] >= p[2] /\ i[2] < p[2] + a.shape[2]
                     THEN At(a, <<i[1] - p[1], i[2] - p[2]>>) ELSE "0.0")
Mod(a, n) == ((a % n) + n) % n
FancyTranspose(a, roll) ==
    LET n == Len(a.shape)
        ax == [k \in 1..n |-> Mod(k - 1 - roll, n) + 1]        \* np.roll(arange(n), roll)
        inv == [j \in 1..n |-> CHOOSE k \in 1..n : ax[k] = j]
    IN MkArr([k \in 1..n |-> a.shape[ax[k]]],
             LAMBDA i : At(a, [j \in 1..n |-> i[inv[j]]]))
============================================================================
