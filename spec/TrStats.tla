------------------------------ MODULE TrStats ------------------------------
(* Recorded calls of the statistics, filters and metrics.                    *)
EXTENDS FnBase, Stats
VARIABLES cs, l, st

Point(a, Op(_)) == Arr(a.shape, VMap(Op, a.data))
Sc(ev, v) == CmpArr(ev, Ok(Scalar(v)))
Verdict(ev) ==
    LET a == ev.a IN
    CASE ev.fn = "mad" -> Sc(ev, Mad(a.x.data))
      [] ev.fn = "sigma_mad" -> Sc(ev, SigmaMad(a.x.data))
      [] ev.fn = "stats.mse" -> Sc(ev, Mse(a.x.data, a.y.data))
      [] ev.fn = "stats.psnr" ->
            IF a.method \notin {"starck", "wiki"} THEN CmpExact(ev, Err("ValueError"))
            ELSE Sc(ev, Psnr(a.method, a.x.shape[1], a.x.data, a.y.data, a.maxpix))
      [] ev.fn = "psnr_stack" ->
            IF Len(a.x.shape) # 3 \/ Len(a.y.shape) # 3 \/ a.method \notin {"starck", "wiki"}
            THEN CmpExact(ev, Err("ValueError"))
            ELSE Sc(ev, Reduce(a.metric, Psnrs(a.method, a.x, a.y)))
      [] ev.fn = "gaussian_kernel" ->
            IF a.norm \notin {"max", "sum"} THEN CmpExact(ev, Err("ValueError"))
            ELSE CmpEl(ev, Ok(GaussKernel(a.shape, a.sigma, a.norm)))
      [] ev.fn = "gaussian_filter" -> CmpEl(ev, Ok(Point(a.x, LAMBDA x : GaussFilter(x, a.sigma, a.norm))))
      [] ev.fn = "mex_hat" -> CmpEl(ev, Ok(Point(a.x, LAMBDA x : MexHat(x, a.sigma))))
      [] ev.fn = "mex_hat_dir" ->
            CmpEl(ev, Ok(Arr(a.x.shape, VZip(LAMBDA g, m : MexHatDir(g, m, a.sigma), a.x.data, a.y.data))))
      [] ev.fn = "min_max_normalize" -> CmpEl(ev, Ok(Arr(a.x.shape, VMap(LAMBDA x : FDiv(FSub(x, MinV(a.x.data)),
                                                  FSub(MaxV(a.x.data), MinV(a.x.data))), a.x.data))))
      [] ev.fn = "metric" ->
            IF a.badmask THEN CmpExact(ev, Err("ValueError"))
            ELSE IF a.name = "ssim"
            THEN Sc(ev, Ssim(a.x.shape, Normal(a.x.data), Normal(a.y.data), a.mask))
            ELSE Sc(ev, ImgMetric(a.name, Masked(Normal(a.x.data), a.mask), Masked(Normal(a.y.data), a.mask)))
      [] OTHER -> "unknown event " \o ev.fn

InitSt(c) == <<>>
Steps(c, s, ev) == RV(Verdict(ev), s)
INSTANCE TraceRun
=============================================================================
