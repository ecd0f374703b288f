-------------------------------- MODULE TrGrad --------------------------------
(* One gradient operator: state is the observed data.                         *)
EXTENDS FnBase, Problem
VARIABLES cs, l, st

InitSt(c) == [y |-> c.y.data, grads |-> <<>>]
Resid(c, s, x) == VSub(MatVec(c.M, x), s.y)
GradAt(c, s, x) == MatHVec(c.M, Len(x), Resid(c, s, x))
Steps(c, s, ev) ==
    LET a == ev.a IN
    CASE ev.fn = "get_grad" ->
            LET g == GradAt(c, s, a.x.data) IN
            RV(CmpArr(ev, Ok(Arr(c.shape, g))), [s EXCEPT !.grads = Append(@, g)])
      \* arrays obtained from earlier gradients, looked at again
      [] ev.fn = "old_grad" -> RV(CmpArr(ev, Ok(Arr(c.shape, s.grads[a.k]))), s)
      \* the gradient kept by the operator: that of the last point asked for
      [] ev.fn = "held_grad" -> RV(CmpArr(ev, Ok(Arr(c.shape, s.grads[Len(s.grads)]))), s)
      [] ev.fn = "cost" ->
            RV(CmpArr(ev, Ok(Scalar(FMul("0.5", VNorm2(Resid(c, s, a.x.data)))))), s)
      [] ev.fn = "trans_op_op" ->
            RV(CmpArr(ev, Ok(Arr(c.shape, MatHVec(c.M, Len(a.x.data), MatVec(c.M, a.x.data))))), s)
      [] ev.fn = "op" -> RV(CmpArr(ev, Ok(Arr(c.y.shape, MatVec(c.M, a.x.data)))), s)
      [] ev.fn = "trans_op" -> RV(CmpArr(ev, Ok(Arr(c.shape, MatHVec(c.M, Size(c.shape), a.x.data)))), s)
      [] ev.fn = "obs_data" -> RV(CmpArr(ev, Ok(Arr(c.y.shape, s.y))), s)
      \* writing into the observed data: refused unless declared writeable
      [] ev.fn = "write" ->
            IF c.writeable
            THEN RV(IF ev.out.k = "raise" THEN "write: refused although writeable" ELSE "", [s EXCEPT !.y[a.i] = a.v])
            ELSE RV(CmpExact(ev, Err("ValueError")), s)
      \* the caller's own buffer, changed after being passed read-only
      [] ev.fn = "set_obs" -> RV(IF ev.out.k = "raise" THEN "obs_data: refused valid data" ELSE "", [s EXCEPT !.y = a.x.data])
      [] OTHER -> RV("unknown event " \o ev.fn, s)
INSTANCE TraceRun
=============================================================================
