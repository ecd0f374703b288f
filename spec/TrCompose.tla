----------------------------- MODULE TrCompose -----------------------------
EXTENDS FnBase, Compose
VARIABLES cs, l, st

CmpParts(ev, shapes, parts) ==
    IF ev.mut THEN ev.fn \o ": modified its arguments"
    ELSE IF ev.out.k = "raise" THEN ev.fn \o ": raised " \o ev.out.e
    ELSE IF ev.out.k # "parts" THEN ev.fn \o ": returned a " \o ev.out.k
    ELSE IF Len(ev.out.v) # Len(parts) THEN ev.fn \o ": wrong number of components"
    ELSE IF \E k \in DOMAIN parts : ev.out.v[k].shape # shapes[k] THEN ev.fn \o ": wrong component shape"
    ELSE IF \E k \in DOMAIN parts : ~VClose(ev.out.v[k].data, parts[k], ev.rtol, ev.atol)
         THEN ev.fn \o ": wrong component value"
    ELSE ""
Datas(xs) == [k \in DOMAIN xs |-> xs[k].data]
Shapes(xs) == [k \in DOMAIN xs |-> xs[k].shape]

\* which refusal an operator list must meet
ListErr(a) ==
    IF ~a.islist THEN "TypeError"
    ELSE IF a.members = <<>> THEN "ValueError"
    ELSE LET bad == {k \in DOMAIN a.members : a.members[k] # "ok"} IN
         IF bad # {} THEN LET k == CHOOSE k \in bad : \A j \in bad : k <= j IN
                          IF a.members[k] = "uncallable" THEN "TypeError" ELSE "ValueError"
         ELSE IF a.weights = "none" THEN ""
         ELSE IF a.weights = "scalar" THEN "TypeError"
         ELSE IF a.weights = "empty" \/ a.weights = "short" \/ a.weights = "long" THEN "ValueError"
         ELSE IF a.weights = "int" THEN "TypeError"
         ELSE ""

Verdict(ev) ==
    LET a == ev.a IN
    CASE ev.fn \in {"ProximityCombo.op", "LinearCompositionProx.op"} ->
            CmpParts(ev, Shapes(a.x), ComboOp(a.q, Datas(a.x), a.f))
      [] ev.fn \in {"ProximityCombo.cost", "LinearCompositionProx.cost"} ->
            CmpArr(ev, Ok(Scalar(ComboCost(a.q, Datas(a.x)))))
      [] ev.fn = "LinearCombo.op" -> CmpParts(ev, a.outsh, LinComboOp(a.qs, a.x.data))
      [] ev.fn = "LinearCombo.adj_op" -> CmpArr(ev, Ok(Arr(a.outsh, LinComboAdj(a.qs, a.ws, Datas(a.x)))))
      [] ev.fn \in {"ProximityCombo()", "LinearCombo()"} ->
            LET e == ListErr(a) IN
            IF e = "" THEN IF ev.out.k = "raise" THEN ev.fn \o ": refused a valid list (" \o ev.out.e \o ")" ELSE ""
            ELSE CmpExact(ev, Err(e))
      [] OTHER -> "unknown event " \o ev.fn

InitSt(c) == <<>>
Steps(c, s, ev) == RV(Verdict(ev), s)
INSTANCE TraceRun
=============================================================================
