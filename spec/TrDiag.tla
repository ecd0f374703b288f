------------------------------- MODULE TrDiag ------------------------------
(* Recorded diagnostics.  State: the arrays the transpose test drew last,    *)
(* by seed.                                                                  *)
EXTENDS FnBase, Diag
VARIABLES cs, l, st
InitSt(c) == [seen |-> <<>>]
Outcome(what, out, err) ==
    IF out = err THEN ""
    ELSE IF err = "" THEN what \o ": raised " \o out
    ELSE IF out = "" THEN what \o ": accepted what it should refuse with " \o err
    ELSE what \o ": raised " \o out \o " instead of " \o err
InUnit(v) == \A i \in DOMAIN v : FLe("0.0", v[i]) /\ FLt(v[i], "1.0")
Tr(s, ev) ==
    IF ev.callable = FALSE THEN Outcome("transpose_test", ev.out, "TypeError")
    ELSE IF ev.out # "" THEN "transpose_test: raised " \o ev.out
    ELSE IF ev.xs # ev.wantxs \/ ev.ys # ev.wantys THEN "transpose_test: shape of the drawn arrays"
    ELSE IF ev.gotargs # ev.wantargs THEN "transpose_test: operator arguments"
    ELSE IF ~InUnit(ev.x) \/ ~InUnit(ev.y) THEN "transpose_test: values of the drawn arrays"
    ELSE IF ~FClose(ev.report, Gap(ev.M, ev.T, ev.x, ev.y), "1e-7", "1e-9") THEN "transpose_test: reported value"
    ELSE IF \E i \in DOMAIN s.seen : s.seen[i].seed = ev.seed /\ s.seen[i].seed # "fresh" /\ s.seen[i].xs = ev.xs
                                     /\ s.seen[i].ys = ev.ys /\ (s.seen[i].x # ev.x \/ s.seen[i].y # ev.y)
         THEN "transpose_test: equal seeds give different arrays"
    ELSE IF \E i \in DOMAIN s.seen : s.seen[i].seed # ev.seed /\ Len(ev.x) > 1 /\ s.seen[i].x = ev.x
         THEN "transpose_test: different sources give the same arrays"
    ELSE IF ev.x = ev.y /\ Len(ev.x) > 1 THEN "transpose_test: the two arrays are the same"
    ELSE ""
Steps(c, s, ev) ==
    CASE ev.t = "exe" -> RV(Outcome("is_executable", ev.out, ExeErr(ev.q)), s)
      [] ev.t = "file" -> RV(Outcome("file_name_error", ev.out, FileErr(ev.q)), s)
      [] ev.t = "report" ->
            RV(IF ev.out # "" THEN ev.fn \o ": raised " \o ev.out
               ELSE IF ev.lines # Report(ev.what, ev.msg) THEN ev.fn \o ": terminal output"
               ELSE IF ev.logged # ev.wantlog THEN ev.fn \o ": log output" ELSE "", s)
      [] ev.t = "transpose" ->
            RV(Tr(s, ev), IF ev.out = "" /\ ev.callable THEN [s EXCEPT !.seen = Append(@, [seed |-> ev.seed, xs |-> ev.xs, ys |-> ev.ys, x |-> ev.x, y |-> ev.y])]
                          ELSE s)
      [] ev.t = "plot" ->
            RV(IF ev.out # "" THEN "plotCost: raised " \o ev.out
               ELSE IF ev.files # <<PlotFile(ev.output)>> THEN "plotCost: files written"
               ELSE IF ~ev.png THEN "plotCost: not an image"
               ELSE IF ev.figs # 0 THEN "plotCost: figure left open" 
               ELSE IF ev.told # PlotFile(ev.output) THEN "plotCost: file name reported"
               ELSE IF ~VCloseEl(ev.drawn, [i \in DOMAIN ev.costs |-> FLog10(ev.costs[i])], "1e-10", "1e-12")
                    THEN "plotCost: not the logarithm of the costs" ELSE "", s)
INSTANCE TraceRun
=============================================================================
