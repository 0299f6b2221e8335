------------------------------ MODULE Verdict -------------------------------
(* What the trace specifications share.  A clause is a string that starts   *)
(* with the ids of the properties it speaks about: "W01,W07 what failed".    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

TraceFile == IOEnv.VP_TRACE
Trace == ndJsonDeserialize(TraceFile)

Check(ok, clause) == IF ok THEN {} ELSE {clause}
Range(f) == {f[i] : i \in DOMAIN f}
Seqs(f) == {f[i] : i \in 1..Len(f)}
Distinct(f) == Cardinality(Seqs(f)) = Len(f)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

Report(l, bad) ==
    IF bad = {} THEN TRUE
    ELSE PrintT("FAIL " \o ToJson([line |-> l, clauses |-> bad]))
\* The driver met something that it has no words for.
Unforeseen(e) == e.op = "broken" \/ (e.op = "init" /\ "broken" \in DOMAIN e)
ReportUnforeseen(l) ==
    IF Trace[l].op = "broken" THEN Report(l, {"* something failed: " \o Trace[l].exc})
    ELSE TRUE
Finished(l, bad) ==
    IF l < Len(Trace) THEN TRUE
    ELSE PrintT("DONE " \o ToJson([lines |-> l, failing |-> bad]))
=============================================================================
