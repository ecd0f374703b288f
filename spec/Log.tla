-------------------------------- MODULE Log --------------------------------
(* Log files.  A state maps every log name to its file (the sequence of      *)
(* messages written, or <<>> with made = FALSE when there is no file) and to *)
(* whether it is open (set up and not yet closed).                           *)
EXTENDS Naturals, Sequences, FiniteSets
Opening == "The log file has been set-up."
Closing == "The log file has been closed."
Fresh(names) == [n \in names |-> [made |-> FALSE, open |-> FALSE, lines |-> <<>>]]
Write(f, m) == IF f.open THEN [f EXCEPT !.lines = Append(@, m)] ELSE f
DoLog(s, op) ==
    CASE op[1] = "setup" -> [s EXCEPT ![op[2]] = [made |-> TRUE, open |-> TRUE, lines |-> <<Opening>>]]
      [] op[1] = "close" -> [s EXCEPT ![op[2]] = [Write(@, Closing) EXCEPT !.open = FALSE]]
      [] op[1] = "error" -> [s EXCEPT ![op[2]] = Write(@, "ERROR: " \o op[3])]
      [] op[1] \in {"debug", "info", "warning", "error", "critical"} -> [s EXCEPT ![op[2]] = Write(@, op[3])]
\* a log object exists once it was set up
Possible(s, op) == op[1] = "setup" \/ s[op[2]].made
=============================================================================
