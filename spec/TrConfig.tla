------------------------------ MODULE TrConfig ------------------------------
EXTENDS Vec, Config, Json, IOUtils
VARIABLES cs, l, st
Cases == ndJsonDeserialize(IOEnv.CASES)
GivenOf(s) == [p \in {s[i][1] : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i][1] = p][2]]
Txt(s) == IF s = <<>> THEN "defaults" ELSE
          LET RECURSIVE T(_)
              T(k) == (IF k > 1 THEN ", " ELSE "") \o s[k][1] \o "=" \o s[k][2] \o (IF k < Len(s) THEN T(k + 1) ELSE "") IN T(1)
InitSt(c) == <<>>
Steps(c, s, ev) ==
    LET g == GivenOf(ev.given)
        err == Errors(ev.cls, g)
        name == ev.cls \o "(" \o Txt(ev.given) \o ")"
        bad == IF err # {} THEN
                   IF ev.raised = "" THEN name \o ": accepted"
                   ELSE IF ev.raised \notin err THEN name \o ": refused with " \o ev.raised
                   ELSE IF ev.calls > 0 THEN name \o ": computed before refusing"
                   ELSE ""
               ELSE IF ev.raised # "" THEN name \o ": valid configuration refused with " \o ev.raised
               ELSE IF ~ev.ran THEN name \o ": valid configuration does not run"
               ELSE IF \E p \in Announced(ev.cls, g) : ~(\E i \in DOMAIN ev.warned : ev.warned[i] = p)
                    THEN name \o ": no warning for a foreign object"
               ELSE IF ev.spurious THEN name \o ": warning for an object that derives from the library's parents"
               ELSE ""
    IN {[bad |-> bad, st |-> s]}
INSTANCE TraceRun
=============================================================================
