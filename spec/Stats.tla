------------------------------- MODULE Stats -------------------------------
(* Statistics, filter profiles and image quality metrics.                    *)
EXTENDS Vec
Pi == "3.141592653589793"
SqDist(u, v) == VNorm2(VSub(u, v))
Mean(v) == FDiv(FSum(v), FOf(Len(v)))
Sq(x) == FMul(x, x)
MeanSq(v) == FDiv(VNorm2(v), FOf(Len(v)))
RECURSIVE MinV(_)
MinV(v) == IF Len(v) = 1 THEN v[1] ELSE FMin(v[1], MinV(Tail(v)))
RECURSIVE MaxV(_)
MaxV(v) == IF Len(v) = 1 THEN v[1] ELSE FMax(v[1], MaxV(Tail(v)))

\* the middle element, or the mean of the two middle ones
Median(v) ==
    LET s == FSort(v) n == Len(v) IN
    IF n % 2 = 1 THEN s[(n + 1) \div 2] ELSE FDiv(FAdd(s[n \div 2], s[n \div 2 + 1]), "2.0")
Mad(v) == LET m == Median(v) IN Median(VMap(LAMBDA x : FAbs(FSub(x, m)), v))
SigmaMad(v) == FMul("1.4826", Mad(v))

Mse(u, v) == FDiv(SqDist(u, v), FOf(Len(u)))
Psnr(method, rows, u, v, maxpix) ==
    IF method = "starck"
    THEN FMul("20.0", FLog10(FDiv(FMul(FOf(rows), FAbs(FSub(MaxV(u), MinV(u)))), FSqrt(SqDist(u, v)))))
    ELSE FSub(FMul("20.0", FLog10(maxpix)), FMul("10.0", FLog10(Mse(u, v))))
\* layer k (1-based) of a 3-D array
Layer(a, k) == LET m == a.shape[2] * a.shape[3] IN TLCEval(SubSeq(a.data, (k - 1) * m + 1, k * m))
Psnrs(method, a, b) == TLCEval([k \in 1..a.shape[1] |-> Psnr(method, a.shape[2], Layer(a, k), Layer(b, k), "255.0")])
Reduce(metric, v) ==
    CASE metric = "mean" -> Mean(v) [] metric = "median" -> Median(v)
      [] metric = "max" -> MaxV(v) [] metric = "min" -> MinV(v) [] metric = "sum" -> FSum(v)

\* squared distance of pixel i (0-based) of n from the centre (n-1)/2, per axis
Off(i, n) == FDiv(FOf(2 * i - (n - 1)), "2.0")
GaussAt(x, sigma) == FExp(FMul("-0.5", Sq(FDiv(x, sigma))))
GaussKernel(shape, sigma, norm) ==
    LET raw == MkArr(shape, LAMBDA p : FMul(GaussAt(Off(p[1], shape[1]), sigma), GaussAt(Off(p[2], shape[2]), sigma)))
        d == IF norm = "max" THEN MaxV(raw.data) ELSE FSum(raw.data)
    IN Arr(shape, VScale(FDiv("1.0", d), raw.data))

GaussFilter(x, sigma, norm) ==
    IF norm THEN FDiv(GaussAt(x, sigma), FMul(FSqrt(FMul("2.0", Pi)), sigma)) ELSE GaussAt(x, sigma)
MexHat(x, sigma) ==
    LET r == Sq(FDiv(x, sigma)) IN
    FMul(FMul(FDiv("2.0", FMul(FSqrt(FMul("3.0", sigma)), FPow(Pi, "0.25"))), FSub("1.0", r)), GaussAt(x, sigma))
MexHatDir(g, m, sigma) == FMul(FMul("-0.5", Sq(FDiv(g, sigma))), MexHat(m, sigma))

\* image metrics: magnitudes scaled to [0, 1], then restricted to the mask
Normal(v) ==
    LET w == VAbs(v) lo == MinV(w) hi == MaxV(w) IN VMap(LAMBDA x : FDiv(FSub(x, lo), FSub(hi, lo)), w)
Masked(v, mask) == IF mask = <<>> THEN v ELSE VMul(mask, v)
ImgMse(t, r) == Mse(t, r)
ImgMetric(name, t, r) ==
    CASE name = "mse" -> Mse(t, r)
      [] name = "nrmse" -> FDiv(FSqrt(Mse(t, r)), FSqrt(MeanSq(t)))
      [] name = "snr" -> FMul("10.0", FLog10(FDiv(MeanSq(t), Mse(t, r))))
      [] name = "psnr" -> FMul("10.0", FLog10(FDiv(Sq(MaxV(t)), Mse(t, r))))

\* SSIM: 7-pixel uniform windows, samples reflected about the edge (edge repeated)
Reflect(i, n) == LET m == ((i % (2 * n)) + 2 * n) % (2 * n) IN IF m < n THEN m ELSE 2 * n - 1 - m
RECURSIVE Cart(_)
Cart(k) == IF k = 0 THEN {<<>>} ELSE {Append(s, o) : s \in Cart(k - 1), o \in -3..3}
Win(shape, idx) == [o \in Cart(Len(shape)) |-> Pos(shape, [k \in 1..Len(shape) |-> Reflect(idx[k] + o[k], shape[k])])]
SsimMap(shape, t, r) ==
    LET offs == SetToSeq(Cart(Len(shape)))
        np == Len(offs)
        At1(idx) ==
            LET ps == TLCEval([q \in 1..np |-> Pos(shape, [k \in 1..Len(shape) |-> Reflect(idx[k] + offs[q][k], shape[k])])])
                x == TLCEval([q \in 1..np |-> t[ps[q]]])
                y == TLCEval([q \in 1..np |-> r[ps[q]]])
                ux == Mean(x) uy == Mean(y)
                c == FDiv(FOf(np), FOf(np - 1))
                vx == FMul(c, FSub(FDiv(FDotU(x, x), FOf(np)), Sq(ux)))
                vy == FMul(c, FSub(FDiv(FDotU(y, y), FOf(np)), Sq(uy)))
                vxy == FMul(c, FSub(FDiv(FDotU(x, y), FOf(np)), FMul(ux, uy)))
                C1 == "0.0001" C2 == "0.0009"
            IN FDiv(FMul(FAdd(FMul("2.0", FMul(ux, uy)), C1), FAdd(FMul("2.0", vxy), C2)),
                    FMul(FAdd(FAdd(Sq(ux), Sq(uy)), C1), FAdd(FAdd(vx, vy), C2)))
    IN MkArr(shape, At1)
\* unmasked: mean over the pixels whose window lies inside; masked: mean over the mask
Ssim(shape, t, r, mask) ==
    LET m == SsimMap(shape, t, r) IN
    IF mask = <<>>
    THEN LET in == {p \in 1..Size(shape) : \A k \in 1..Len(shape) : Idx(shape, p)[k] \in 3..shape[k] - 4}
         IN Mean([q \in 1..Cardinality(in) |-> m.data[SetToSeq(in)[q]]])
    ELSE FDiv(FDotU(mask, m.data), FSum(mask))
=============================================================================
