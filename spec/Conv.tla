-------------------------------- MODULE Conv --------------------------------
(* Discrete convolution (any number of dimensions) and the filter banks built *)
(* on it.                                                                     *)
EXTENDS Transform

\* Reads(x, k, i, centre, wrap): sum over the kernel positions
ConvAt(x, k, i, C(_), wrap) ==
    FSum([p \in 1..Len(k.data) |->
        LET q == Idx(k.shape, p)
            r == [d \in 1..Len(i) |-> i[d] + C(k.shape[d]) - q[d]]
            s == IF wrap THEN [d \in 1..Len(i) |-> Mod(r[d], x.shape[d])] ELSE r
        IN IF \A d \in 1..Len(i) : s[d] >= 0 /\ s[d] < x.shape[d]
           THEN FMul(k.data[p], x.data[Pos(x.shape, s)]) ELSE "0.0"])
ConvSame(x, k) == MkArr(x.shape, LAMBDA i : ConvAt(x, k, i, LAMBDA n : (n - 1) \div 2, FALSE))
ConvWrap(x, k) == MkArr(x.shape, LAMBDA i : ConvAt(x, k, i, LAMBDA n : n \div 2, TRUE))
Conv(method, x, k) == IF method = "scipy" THEN ConvSame(x, k) ELSE ConvWrap(x, k)

Sub(a, n) == LET sh == Tail(a.shape) z == Size(sh) IN Arr(sh, SubSeq(a.data, (n - 1) * z + 1, n * z))
Subs(a) == TLCEval([n \in 1..a.shape[1] |-> Sub(a, n)])
RECURSIVE Cat(_)
Cat(ds) == IF ds = <<>> THEN <<>> ELSE Head(ds).data \o Cat(Tail(ds))
Stack(as) == Arr(<<Len(as)>> \o as[1].shape, TLCEval(Cat(as)))
RECURSIVE ArrSum(_)
ArrSum(as) == IF Len(as) = 1 THEN as[1]
              ELSE LET r == ArrSum(Tail(as)) IN Arr(as[1].shape, VAdd(as[1].data, r.data))

ConvStack(method, x, k, rot) ==
    LET xs == Subs(x) ks == Subs(IF rot THEN RotateStack(k) ELSE k)
    IN Stack([n \in DOMAIN xs |-> Conv(method, xs[n], ks[n])])
FilterConv(method, x, filters) ==
    LET ks == Subs(filters) IN Stack([n \in DOMAIN ks |-> Conv(method, x, ks[n])])
FilterConvRot(method, x, filters) ==
    LET xs == Subs(x) ks == Subs(RotateStack(filters))
    IN ArrSum([n \in DOMAIN ks |-> Conv(method, xs[n], ks[n])])
FilterStack(method, x, filters, rot) ==
    LET xs == Subs(x)
    IN Stack([n \in DOMAIN xs |-> IF rot THEN FilterConvRot(method, xs[n], filters)
                                  ELSE FilterConv(method, xs[n], filters)])
=============================================================================
