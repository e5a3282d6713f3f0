---------------------------- MODULE GADataTrace ----------------------------
(* Checks recorded runs against GAWorld.  The trace is a sequence of cases    *)
(* (each starts with an event "case" whose nx is the line of the next one).  *)
(* Spec accepts a trace when transitions of GAWorld explain all its lines;     *)
(* ExplainSpec reports a line that has no explanation and skips the rest of   *)
(* its case, so that one difference does not hide the others.                *)
EXTENDS GAWorld, Json, IOUtils

VARIABLES l, bad, nx
Trace == ndJsonDeserialize(IOEnv.TRACE)

TInit == WInit /\ l = 1 /\ bad = <<>> /\ nx = 0

Case(e) == /\ e.op = "case"
           /\ WReset
           /\ nx' = e.nx /\ l' = l + 1 /\ UNCHANGED bad
Take(e) == /\ e.op # "case"
           /\ WStep(e)
           /\ l' = l + 1 /\ UNCHANGED <<bad, nx>>
Reject(e) == /\ e.op # "case"
             /\ ~ ENABLED WStep(e)
             /\ PrintT(<<"MISMATCH", e.id, e.r, e.op, WExpected(e)>>)
             /\ bad' = Append(bad, l) /\ l' = nx /\ UNCHANGED <<wvars, nx>>

Follow == l <= Len(Trace) /\ LET e == Trace[l] IN Case(e) \/ Take(e)
Explain == l <= Len(Trace) /\ LET e == Trace[l] IN Case(e) \/ Take(e) \/ Reject(e)

\* accepts: one state per line and the initial one
Spec == TInit /\ [][Follow]_<<wvars, l, bad, nx>>
Accepted == Assert(TLCGet("stats").diameter - 1 = Len(Trace), <<"REJECTED", TLCGet("stats").diameter>>)
\* for a rejected trace: reports every line that is not explained
ExplainSpec == TInit /\ [][Explain]_<<wvars, l, bad, nx>>
=============================================================================
