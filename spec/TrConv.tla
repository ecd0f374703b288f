------------------------------- MODULE TrConv -------------------------------
EXTENDS FnBase, Conv
VARIABLES cs, l, st

Verdict(ev) ==
    LET a == ev.a IN
    CASE ev.fn = "convolve" ->
            IF Len(a.x.shape) # Len(a.k.shape) \/ a.method \notin {"scipy", "astropy"}
            THEN CmpExact(ev, Err("ValueError"))
            ELSE CmpArr(ev, Ok(Conv(a.method, a.x, a.k)))
      [] ev.fn = "convolve_stack" ->
            IF Len(a.x.shape) # Len(a.k.shape) \/ a.method \notin {"scipy", "astropy"}
            THEN CmpExact(ev, Err("ValueError"))
            ELSE CmpArr(ev, Ok(ConvStack(a.method, a.x, a.k, a.rot)))
      [] ev.fn = "filter_convolve" ->
            IF a.method \notin {"scipy", "astropy"} THEN CmpExact(ev, Err("ValueError"))
            ELSE CmpArr(ev, Ok(IF a.rot THEN FilterConvRot(a.method, a.x, a.k) ELSE FilterConv(a.method, a.x, a.k)))
      [] ev.fn \in {"filter_convolve_stack", "WaveletConvolve.op", "WaveletConvolve.adj_op"} ->
            IF a.method \notin {"scipy", "astropy"} THEN CmpExact(ev, Err("ValueError"))
            ELSE CmpArr(ev, Ok(FilterStack(a.method, a.x, a.k, a.rot)))
      [] OTHER -> "unknown event " \o ev.fn

InitSt(c) == <<>>
Steps(c, s, ev) == RV(Verdict(ev), s)
INSTANCE TraceRun
=============================================================================
