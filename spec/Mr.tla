--------------------------------- MODULE Mr ---------------------------------
(* Calls of the external wavelet executable as they share a directory.       *)
(* A call starts (its input file is written and the executable launched) and *)
(* ends (the executable has finished, the result was returned or an error    *)
(* raised, and the temporary files were dealt with).                         *)
EXTENDS Vec
GoodModes == {"ok", "noisy", "stderr"}
ErrModes == {"bad", "Error", "Sorry", "late"}
\* files present while call c runs, before its executable has written anything
StartFiles(c) == {<<c, "fits">>}
\* possible sets of files left by call c after it ended
Left(c, mode, keep) ==
    IF ~keep THEN {{}}
    ELSE CASE mode \in GoodModes -> {{<<c, "fits">>, <<c, "mr">>}}
           [] mode = "late" -> {{<<c, "fits">>, <<c, "mr">>}, {<<c, "mr">>}, {<<c, "fits">>}, {}}
           [] OTHER -> {{<<c, "fits">>}, {}}
\* an error is raised unless the executable did its work
Outcome(mode) == IF mode \in GoodModes THEN {"ok"} ELSE IF mode \in ErrModes THEN {"RuntimeError"} ELSE {"raise"}

\* impulse size for a requested size: the largest odd number not above it
OddSize(n) == n + (n % 2) - 1
Impulse(shape) ==
    LET s == [k \in 1..2 |-> OddSize(shape[k])] IN
    MkArr(s, LAMBDA p : IF p[1] = s[1] \div 2 /\ p[2] = s[2] \div 2 THEN "1.0" ELSE "0.0")
Planes(shape, data, n) == [k \in 1..n |-> Arr(shape, SubSeq(data, (k - 1) * Size(shape) + 1, k * Size(shape)))]
\* the bounding box of the non-zero elements
Trim(a) ==
    LET nz == {p \in 1..Size(a.shape) : ~FEq(a.data[p], "0.0")}
        R == {Idx(a.shape, p)[1] : p \in nz} C == {Idx(a.shape, p)[2] : p \in nz}
        lo(S) == CHOOSE x \in S : \A y \in S : x <= y
        hi(S) == CHOOSE x \in S : \A y \in S : x >= y
    IN MkArr(<<hi(R) - lo(R) + 1, hi(C) - lo(C) + 1>>, LAMBDA q : At(a, <<lo(R) + q[1], lo(C) + q[2]>>))
=============================================================================
