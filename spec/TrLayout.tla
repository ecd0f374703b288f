------------------------------ MODULE TrLayout ------------------------------
EXTENDS FnBase, Transform
VARIABLES cs, l, st

Dt(ev) == IF ev.out.k = "ok" /\ ev.out.dt # ev.dt THEN ev.fn \o ": dtype changed" ELSE ""
Both(a, b) == IF a # "" THEN a ELSE b

Verdict(ev) ==
    LET a == ev.a IN
    Both(CASE ev.fn = "cube2map" ->
           CmpExact(ev, IF Cube2MapOk(a.x, a.layout) THEN Ok(Cube2Map(a.x, a.layout)) ELSE Err("ValueError"))
      [] ev.fn = "map2cube" ->
           CmpExact(ev, IF Map2CubeOk(a.x, a.layout) THEN Ok(Map2Cube(a.x, a.layout)) ELSE Err("ValueError"))
      [] ev.fn = "map2matrix" -> CmpExact(ev, Ok(Map2Matrix(a.x, a.layout)))
      [] ev.fn = "matrix2map" -> CmpExact(ev, Ok(Matrix2Map(a.x, a.layout)))
      [] ev.fn = "cube2matrix" -> CmpExact(ev, Ok(Cube2Matrix(a.x)))
      [] ev.fn = "matrix2cube" -> CmpExact(ev, Ok(Matrix2Cube(a.x, a.layout)))
      [] ev.fn = "rotate" -> CmpExact(ev, Ok(Rotate(a.x)))
      [] ev.fn = "rotate_stack" -> CmpExact(ev, Ok(RotateStack(a.x)))
      [] ev.fn = "pad2d" ->
           CmpExact(ev, IF a.badpad THEN Err("ValueError") ELSE Ok(Pad2d(a.x, a.layout)))
      [] ev.fn \in {"fancy_transpose", "ftr", "ftl"} -> CmpExact(ev, Ok(FancyTranspose(a.x, a.roll)))
      [] OTHER -> "unknown event", Dt(ev))

InitSt(c) == <<>>
Steps(c, s, ev) == RV(Verdict(ev), s)
INSTANCE TraceRun
=============================================================================
