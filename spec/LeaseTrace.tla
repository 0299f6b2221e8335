----------------------------- MODULE LeaseTrace -----------------------------
(* Is what the real maintenance service did (harness/maintain.py) what      *)
(* Lease does?                                                              *)
EXTENDS Lease, Verdict
VARIABLES l, c, bad,
          st,      \* the states the client may be in
          fits     \* whether the record of spending has been as it should

Conf(x) == [x EXCEPT !.servers = Seqs(x.servers)]
Kids(k, n) == [d \in Dirs(n) |-> IF d \in DOMAIN k THEN Seqs(k[d]) ELSE {}]
Shares(e) == [i \in 1..Len(e.shares) |-> [size |-> e.shares[i].size, exp |-> e.shares[i].exp]]

Outcomes(s0, e) ==
    LET s == IF e.op \in {"wait"} THEN s0 ELSE [s0 EXCEPT !.t = e.t]
    IN  CASE e.op = "boot" -> {Boot(c, s)}
          [] e.op = "down" -> {Crash(s)}
          [] e.op = "stop" -> {Stop(s)}
          [] e.op = "wait" -> Wait(c, s, e.t)
          [] e.op = "ok" -> Ok(c, s)
          [] e.op = "fail" -> Fail(c, s)
          [] e.op = "failfull" -> FailFull(c, s)
          [] e.op = "lost" -> Lost(c, s)
          [] e.op = "root" -> {[s EXCEPT !.root = Seqs(e.root)]}
          [] e.op = "kid" -> {[s EXCEPT !.kids[e.d] = Seqs(e.kids)]}
          [] e.op = "share" -> {[s EXCEPT !.hold[e.srv][e.n] = Shares(e)]}
          [] e.op = "conn" -> {[s EXCEPT !.conn = Seqs(e.conn)]}
          [] OTHER -> {s}


\* The request that the latest event led to, if there is one
Asked(s, m, e) == Busy(m) /\ (e.op = "ok" \/ (e.op = "wait" /\ ~Busy(s)))
SameCall(m, x) ==
    /\ x.kind = m.run.phase
    /\ CASE m.run.phase = "list" -> x.at = m.run.at
         [] m.run.phase = "stat" -> x.srv = m.run.srv
         [] OTHER -> x.srv = m.run.srv /\ x.at = m.run.at
OnceEach(m, x) == Seqs(x.what) = m.run.found /\ Len(x.what) = Cardinality(m.run.found)

Calls(s, m, e) ==
    IF ~Asked(s, m, e)
    THEN Check(e.calls = <<>>, IF e.op = "wait" THEN "M02 a run began when it should not" ELSE "M01 requests nobody needs")
    ELSE IF Len(e.calls) # 1
    THEN {IF e.calls # <<>> THEN "M01 several requests at once"
          ELSE IF Busy(s) THEN "M01 the run ended early" ELSE "M02 no run began"}
    ELSE LET x == Head(e.calls)
         IN  Check(x.kind = m.run.phase,
                   CASE m.run.phase = "list" -> "M01 a directory was not looked into"
                     [] m.run.phase = "add" -> "M01 a lease was not renewed"
                     [] x.kind = "add" -> "M01 a lease was renewed that should not be"
                     [] OTHER -> "M01 the next request")
             \cup Check(x.kind # m.run.phase \/ SameCall(m, x), "M01 what the request is about")
             \cup Check(x.kind # "stat" \/ OnceEach(m, x), "M01 what a server was asked about")
             \cup Check(x.ok, "M01 the secrets of a lease")

Clauses(s, m, e) ==
    Calls(s, m, e)
    \cup Check(e.waiting = (IF Busy(m) THEN 1 ELSE 0),
               IF Busy(m) THEN "M02 nothing goes on" ELSE "M02 several runs at once")
    \cup Check(e.began = (IF e.op = "wait" /\ s.win # <<>> /\ m.win # s.win THEN 1 ELSE 0),
               IF e.began = 0 THEN "M02,M03 no run began" ELSE "M02,M03 a run began when it should not")
Record(m, e) ==
    Check(e.done = m.done, IF Busy(m) THEN "M03 an unfinished run disturbed the record" ELSE "M03 what was counted")
    \cup Check(e.orderly, "M03 the times of a run")

Init == l = 1 /\ c = [lo |-> 0] /\ st = {} /\ bad = 0 /\ fits = TRUE

Fewest(X) == CHOOSE x \in X : \A y \in X : Cardinality(x) <= Cardinality(y)

(* After a violation the rest of the schedule says nothing more: but the    *)
(* record may be wrong without anything else being wrong.                   *)
Step(e) ==
    IF st = {} THEN UNCHANGED <<st, c, bad, fits>>
    ELSE
    LET P == UNION {{<<s, m>> : m \in Outcomes(s, e)} : s \in st}
        good == {p[2] : p \in {q \in P : Clauses(q[1], q[2], e) = {}}}
        B == {Clauses(p[1], p[2], e) : p \in P}
        best == {m \in good : Record(m, e) = {}}
        C == {Record(m, e) : m \in good}
    IN  /\ IF P = {} THEN Report(l, {"M02 a run that was due did not begin"})
           ELSE IF good = {} THEN Report(l, Fewest(B))
           ELSE IF fits /\ best = {} THEN Report(l, Fewest(C)) ELSE TRUE
        /\ bad' = IF good = {} \/ (fits /\ best = {}) THEN bad + 1 ELSE bad
        /\ st' = IF fits /\ best # {} THEN best ELSE good
        /\ fits' = (fits /\ best # {})
        /\ UNCHANGED c

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF Unforeseen(Trace[l]) THEN ReportUnforeseen(l) /\ bad' = bad + 1 /\ UNCHANGED <<st, c, fits>>
       ELSE IF Trace[l].op = "init"
       THEN LET n == Conf(Trace[l].c)
            IN  /\ c' = n
                /\ st' = {[Start(n) EXCEPT !.root = Seqs(Trace[l].root), !.conn = Seqs(Trace[l].conn),
                                           !.kids = Kids(Trace[l].kids, n)]}
                /\ fits' = TRUE
                /\ UNCHANGED bad
       ELSE Step(Trace[l])
    /\ Finished(l, bad')
Spec == Init /\ [][Next]_<<l, c, st, bad, fits>>
=============================================================================
