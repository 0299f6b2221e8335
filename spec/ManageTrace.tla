---------------------------- MODULE ManageTrace -----------------------------
(* Is what the real node did (harness/manage.py) what Manage does?          *)
EXTENDS Manage, Verdict
VARIABLES l, c, bad,
          st       \* the states the node may be in

Kind(k) == CASE k \in {"notenough", "refused", "noservers"} -> "again"
             [] k \in {"cut"} -> "lost"
             [] k \in {"drop", "garbage"} -> "fail"
             [] OTHER -> k

Outcomes(s0, e) ==
    LET s == [s0 EXCEPT !.http = <<>>]
    IN  CASE e.op = "boot" -> {Boot(s)}
          [] e.op = "crash" -> {Crash(s)}
          [] e.op = "put" -> {Put(s, e.v)}
          [] e.op = "setup" -> {Setup(s)}
          [] e.op = "open" -> {Open(Gone(s, e.c), e.c)}
          [] e.op = "send" -> {IF e.what = "bad" THEN Garbled(s, e.c) ELSE Send(s, e.c, e.cap)}
          [] e.op \in {"close", "drop"} -> {Gone(s, e.c)}
          [] e.op = "ans" /\ e.which = "mkdir" -> {MadeDir(s, Kind(e.kind))}
          [] e.op = "ans" -> Downloaded(c, s, Kind(e.kind))
          [] OTHER -> {s}

(* -- what was observed -- *)
Seen(e) == {x.c : x \in Seqs(e.ws)}
Ws(e, k) == CHOOSE x \in Seqs(e.ws) : x.c = k
SameState(m, x) ==
    CASE m.st \in {"open", "watch"} -> x.st = "open"
      [] m.code = "refused" -> x.st = "closed" /\ x.code = 4000
      [] OTHER -> x.st = "closed" /\ x.code < 4000
SameStory(m, e) == \A k \in DOMAIN m.ws : k \in Seen(e) /\ m.ws[k].got = Ws(e, k).got
SameClients(m, e) == SameStory(m, e) /\ \A k \in DOMAIN m.ws : SameState(m.ws[k], Ws(e, k))

Working(m, e) == (m.rec.st = "busy") = (e.recs > 0)
SetupAnswers(e) == SelectSeq(e.http, LAMBDA x : x.what = "setup")
PutAnswers(e) == SelectSeq(e.http, LAMBDA x : x.what = "put")
SameAnswer(a, x) ==
    CASE a.code = "created" -> x.code = 201 /\ x.dir = a.dir
      [] a.code = "conflict" -> x.code = 409 /\ x.dir = a.dir
      [] OTHER -> x.code >= 400 /\ x.code # 409 /\ x.dir = 0

Calls(e, k) == SelectSeq(e.calls, LAMBDA x : x.kind = k)
RecCalls(e) == {x \in Seqs(e.calls) : x.kind # "mkdir"}

Setups(s, m, e) ==
    Check(e.conf = m.conf, IF s.conf # 0 THEN "R07 the replica was replaced"
                           ELSE IF m.conf # 0 THEN "R07 the new replica was not remembered"
                           ELSE "R07 a replica was remembered that is not known to exist")
    \cup Check(Len(Calls(e, "mkdir")) = (IF (m.busy /\ ~s.busy) \/ (m.busy /\ e.op = "ans" /\ e.which = "mkdir") THEN 1 ELSE 0),
               "R07 the directories asked for")
    \cup Check(e.made = m.made, "R07 the directories made")
    \cup Check(e.mkdirs = (IF m.busy THEN 1 ELSE 0), "R07 waiting for a directory")
    \cup LET A == SetupAnswers(e)
         IN  IF Len(A) # Len(m.http) THEN {"R07 the number of answers to requests for a replica"}
             ELSE UNION {IF SameAnswer(m.http[i], A[i]) THEN {} ELSE
                         CASE m.http[i].code = "created" -> {"R07 the answer about a new replica"}
                           [] m.http[i].code = "conflict" -> {"R07 the answer about an existing replica"}
                           [] OTHER -> {"R07 a failure to set up a replica was not reported"} : i \in 1..Len(A)}
    \cup Check(\A x \in Seqs(e.http) : ~x.leak, "R07 an answer gave away a write capability")
    \cup Check(\A x \in Seqs(e.ws) : ~x.leak, "R07 a message gave away a write capability")
    \cup (IF e.op # "check" THEN {}
          ELSE IF ~e.own.tried THEN Check(m.conf = 0, "R07 there is no replica")
          ELSE IF m.mixed THEN {}
          ELSE IF ~e.own.ok THEN {"R07,R01 the replica set up is not one to recover from"}
          ELSE Check(Seqs(e.own.has) = m.w, "R07,R05 the replica set up does not hold the vouchers"))

Recoveries(s, m, e) ==
    Check(\A x \in RecCalls(e) : x.kind \in {"list", "read"} /\ x.cap = m.rec.cap,
          "R08 requests that have nothing to do with the recovery")
    \cup Check(RecCalls(e) = {} \/ s.rec.st = "busy" \/ m.rec.st = "busy", "R08 another recovery began")
    \cup Check(Working(m, e), IF m.rec.st = "busy" THEN "R08 the recovery got stuck" ELSE "R08 the recovery goes on after its end")
    \cup Check(e.recs <= 1, "R08 two recoveries at once")
    \cup UNION {IF k \notin Seen(e) THEN {"R08 a client is missing"}
                ELSE LET x == Ws(e, k)
                     IN  Check(m.ws[k].got = x.got, "R08 what a client was told")
                         \cup Check(SameState(m.ws[k], x),
                                    CASE x.st = "open" -> "R08 a client was not sent away"
                                      [] x.st = "refused" -> "R08,H01 a client could not connect"
                                      [] m.ws[k].st \in {"open", "watch"} -> "R08 a client was sent away"
                                      [] OTHER -> "R08 the reason for sending a client away")
                         \cup Check(~x.bad, "R08 a message that makes no sense")
                : k \in DOMAIN m.ws}

Wallet(s, m, e) ==
    IF m.free THEN {}
    ELSE Check(e.readable, "R08 the database can not be read")
         \cup Check(Seqs(e.has) = m.w,
                IF e.op = "put" THEN IF s.rec.st = "busy" THEN "R08 a change slipped into a recovery"
                                     ELSE "H02 the voucher was not added"
                ELSE IF s.rec.st # "done" /\ m.rec.st = "done"
                     THEN CASE Last(m.rec.ups) = "succeeded" -> "R08 the wallet after recovery"
                            [] OTHER -> "R08 a failed recovery changed the wallet"
                ELSE "R08 the wallet changed")
         \cup Check(Len(e.has) = Cardinality(Seqs(e.has)), "R08,H02 a voucher is there twice")
         \cup LET ended == s.rec.st # "done" /\ m.rec.st = "done" /\ Last(m.rec.ups) = "succeeded"
              IN  IF ended THEN Check(m.rec.cap \in Seqs(e.dig), "R08 recovery did not restore the wallet")
                  ELSE Check(e.op \in {"put", "boot", "check"} \/ e.same,
                             IF e.op = "crash" THEN "R08 an interrupted recovery changed the wallet"
                             ELSE "R08 the wallet was changed without a recovery that succeeded")

Clauses(s, m, e) ==
    Setups(s, m, e) \cup Recoveries(s, m, e) \cup Wallet(s, m, e)
    \cup Check(e.alive = m.up, "R07,R08 the node did not start")
    \cup Check(e.op # "put" \/ s.rec.st = "busy" \/ \A x \in Seqs(PutAnswers(e)) : x.code = 200,
               "H02 a voucher was refused")
    \cup Check(e.op # "put" \/ s.rec.st # "busy" \/ \A x \in Seqs(PutAnswers(e)) : x.code >= 500,
               "R08,H02 a voucher was acknowledged while a recovery was going on")
    \cup Check(e.op # "put" \/ Len(PutAnswers(e)) = 1, "H02 no answer about a voucher")

Sets(r) == [x \in DOMAIN r |-> [kind |-> r[x].kind, has |-> Seqs(r[x].has)]]
Init == l = 1 /\ c = [reps |-> Empty] /\ st = {Start} /\ bad = 0

(* When nothing fits: the complaints about what fits best. *)
Fewest(X) == CHOOSE x \in X : \A y \in X : Cardinality(x) <= Cardinality(y)

(* After a violation the rest of the schedule says nothing more. *)
Step(e) ==
    IF st = {} THEN UNCHANGED <<st, c, bad>>
    ELSE
    LET P == UNION {{<<s, m>> : m \in Outcomes(s, e)} : s \in st}
        B == {Clauses(p[1], p[2], e) : p \in P}
        ok == {p[2] : p \in {q \in P : Clauses(q[1], q[2], e) = {}}}
    IN  /\ IF ok # {} THEN TRUE ELSE Report(l, Fewest(B))
        /\ bad' = IF ok # {} THEN bad ELSE bad + 1
        /\ st' = {m \in ok : ~m.free}
        /\ UNCHANGED c

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF Unforeseen(Trace[l]) THEN ReportUnforeseen(l) /\ bad' = bad + 1 /\ UNCHANGED <<st, c>>
       ELSE IF Trace[l].op = "init"
       THEN c' = [reps |-> Sets(Trace[l].reps)] /\ st' = {Start} /\ UNCHANGED bad
       ELSE Step(Trace[l])
    /\ Finished(l, bad')
Spec == Init /\ [][Next]_<<l, c, st, bad>>
=============================================================================
