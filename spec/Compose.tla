------------------------------ MODULE Compose ------------------------------
(* Composite operators.  An operator tree is a leaf (described as in Problem) *)
(* or a combination with a sequence of parts; composite data are trees of the *)
(* same form, flattened to the sequence of their leaves' vectors.             *)
EXTENDS Problem

ProxCost(q, x) ==
    CASE q.t = "soft" -> FSum([i \in DOMAIN x |-> FMul(q.w[i], FAbs(x[i]))])
      [] q.t = "ridge" -> FSum([i \in DOMAIN x |-> FMul(q.w[i], FMul(FAbs(x[i]), FAbs(x[i])))])
      [] OTHER -> "0.0"
ProxLeaf(q, x, f) ==
    IF q.t = "ridge" THEN TLCEval([i \in DOMAIN x |-> FDiv(x[i], FAdd("1.0", FMul("2.0", FMul(f, q.w[i]))))])
    ELSE Prox(q, x, VConst(Len(x), f))

RECURSIVE LeafCount(_), SumCount(_)
SumCount(s) == IF s = <<>> THEN 0 ELSE LeafCount(Head(s)) + SumCount(Tail(s))
LeafCount(q) == IF q.t = "combo" THEN SumCount(q.parts) ELSE 1

\* the part of the flattened data that belongs to part k
Slice(parts, xs, k) ==
    LET off == SumCount(SubSeq(parts, 1, k - 1)) IN SubSeq(xs, off + 1, off + LeafCount(parts[k]))

RECURSIVE ComboOp(_, _, _), ComboOps(_, _, _, _), ComboCost(_, _), ComboCosts(_, _, _)
ComboOps(parts, xs, f, k) ==
    IF k > Len(parts) THEN <<>> ELSE ComboOp(parts[k], Slice(parts, xs, k), f) \o ComboOps(parts, xs, f, k + 1)
ComboOp(q, xs, f) ==
    CASE q.t = "combo" -> ComboOps(q.parts, xs, f, 1)
      [] q.t = "comp" -> <<LinAdj(q.lin, ProxLeaf(q.prox, LinOp(q.lin, xs[1]), f))>>
      [] OTHER -> <<ProxLeaf(q, xs[1], f)>>
ComboCosts(parts, xs, k) ==
    IF k > Len(parts) THEN "0.0" ELSE FAdd(ComboCost(parts[k], Slice(parts, xs, k)), ComboCosts(parts, xs, k + 1))
ComboCost(q, xs) ==
    CASE q.t = "combo" -> ComboCosts(q.parts, xs, 1)
      [] q.t = "comp" -> ProxCost(q.prox, LinOp(q.lin, xs[1]))
      [] OTHER -> ProxCost(q, xs[1])

\* linear combinations: every operator on the same input; adjoint is a weighted sum or the mean
LinComboOp(qs, x) == [k \in DOMAIN qs |-> LinOp(qs[k], x)]
RECURSIVE VSumSeq(_)
VSumSeq(vs) == IF Len(vs) = 1 THEN vs[1] ELSE VAdd(vs[1], VSumSeq(Tail(vs)))
LinComboAdj(qs, ws, ys) ==
    LET n == Len(qs)
        w == IF ws = <<>> THEN VConst(n, FDiv("1.0", FOf(n))) ELSE ws
    IN VSumSeq([k \in 1..n |-> VScale(w[k], LinAdj(qs[k], ys[k]))])
=============================================================================
