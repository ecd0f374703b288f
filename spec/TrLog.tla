------------------------------- MODULE TrLog -------------------------------
(* After every recorded operation: the content of every log file, and which  *)
(* files are still held open by the process.                                 *)
EXTENDS FnBase, Log
VARIABLES cs, l, st
InitSt(c) == Fresh(DOMAIN c.events[1].files)
Steps(c, s, ev) ==
    LET t == DoLog(s, ev.op) IN
    {[bad |-> IF ev.out # "ok" THEN ev.op[1] \o ": raised " \o ev.out
              ELSE IF \E n \in DOMAIN t : ev.files[n].made # t[n].made THEN ev.op[1] \o ": files created do not match the logs set up"
              ELSE IF \E n \in DOMAIN t \ {ev.op[2]} : ev.files[n].lines # t[n].lines THEN ev.op[1] \o ": wrote to another log's file"
              ELSE IF ev.files[ev.op[2]].lines # t[ev.op[2]].lines THEN ev.op[1] \o ": file content"
              ELSE IF \E n \in DOMAIN t : ~t[n].open /\ ev.files[n].held THEN ev.op[1] \o ": closed log's file handle not released"
              ELSE "",
      st |-> t]}
INSTANCE TraceRun
=============================================================================
