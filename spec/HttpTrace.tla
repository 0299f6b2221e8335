----------------------------- MODULE HttpTrace ------------------------------
(* Is what the real interface did (harness/webapi.py) what Http does?       *)
EXTENDS Http, Verdict
VARIABLES l, c, s, bad

Req(s0, what) == [auth |-> s0.token, what |-> what, v |-> "", sizes |-> <<>>]
\* A request, or else nothing.
ReqOf(s0, e) ==
    CASE e.op \in {"unauth", "unauthput", "unauthws"} -> <<[Req(s0, "any") EXCEPT !.auth = 0]>>
      [] e.op \in {"put", "bigput", "fault"} -> <<[Req(s0, "put") EXCEPT !.v = e.v]>>
      [] e.op = "get" -> <<[Req(s0, "get") EXCEPT !.v = e.v]>>
      [] e.op = "price" -> <<[Req(s0, "price") EXCEPT !.sizes = e.sizes]>>
      [] e.op \in {"list", "maint", "setup", "version", "ws", "bad", "method", "nopath"} -> <<Req(s0, e.op)>>
      [] OTHER -> <<>>

(* What may have become of the wallet. *)
Outcomes(s0, e) ==
    LET q == Quiet(s0)
        r == ReqOf(s0, e)
    IN  CASE e.op = "fault" /\ e.fired -> AddTrouble(c, q, e.v, e.t)
          [] r # <<>> -> {Request(c, q, r[1], e.t)}
          [] e.op = "boot" -> {Boot(c, q, e.t)}
          [] e.op = "restart" -> {Boot(c, Crash(q), e.t)}
          [] e.op = "tick" -> {Tick(c, q, e.t)}
          [] e.op = "ok" -> {Redeem(c, q, e.v, e.key, e.n, e.t)}
          [] e.op = "fail" -> {Fail(q, e.v, e.kind, e.d, e.t)}
          [] e.op = "take" -> {Take(q, e.n)}
          [] e.op = "spend" -> {Spend(q, e.n)}
          [] e.op = "back" -> {GiveBack(q, e.n)}
          [] e.op = "begin" -> {Maintain(q, e.t)}
          [] e.op = "observe" -> {Observe(c, q, e.sizes)}
          [] e.op = "finish" -> {Finish(q, e.t)}
          [] e.op = "rotate" -> {[q EXCEPT !.token = @ + 1]}
          [] OTHER -> {q}

(* -- what was observed -- *)
DbV(e) == {x.v : x \in Seqs(e.db.v)}
Row(e, v) == CHOOSE x \in Seqs(e.db.v) : x.v = v
SameRow(x, y) == x.st = y.st /\ x.exp = y.exp /\ x.ctr = y.ctr /\ x.cnt = y.cnt /\ x.fin = y.fin /\ x.cre = y.cre
SameVouchers(m, e) == DbV(e) = DOMAIN m.V /\ \A v \in DbV(e) : SameRow(Row(e, v), m.V[v])
SameTokens(m, e) == e.db.tok = m.free + m.used /\ e.db.held = m.held /\ e.db.inv = 0
SameDone(m, e) == e.db.done = m.done
SameSubs(m, e) == Seqs(e.subs) = Seqs(m.subs) /\ Len(e.subs) = Len(m.subs)
Same(m, e) == SameVouchers(m, e) /\ SameTokens(m, e) /\ SameDone(m, e) /\ SameSubs(m, e) /\ e.repl = m.repl

Unauth(e) == e.op \in {"unauth", "unauthput", "unauthws"}
Bad(e) == e.op \in {"bad", "method", "nopath"}
Who(e) == CASE Unauth(e) -> "H01"
            [] e.op \in {"begin", "observe", "finish"} -> "M03"
            [] e.op \in {"put", "bigput", "fault", "get", "list", "maint", "setup", "version", "ws", "price"} -> "H02"
            [] Bad(e) -> "H02"
            [] OTHER -> "H02,W05"

Effects(m, e) ==
    Check(SameVouchers(m, e), Who(e) \o " the vouchers after " \o e.op)
    \cup Check(SameTokens(m, e), Who(e) \o " the tokens after " \o e.op)
    \cup Check(SameDone(m, e), "M03 the record of lease maintenance after " \o e.op)
    \cup Check(SameSubs(m, e), Who(e) \o " the requests for tokens after " \o e.op)
    \cup Check(e.repl = m.repl, Who(e) \o " replication was set up after " \o e.op)

Client(code) == code >= 400 /\ code < 500
SameLast(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : x[i].at = y[i].at /\ x[i].n = y[i].n

Answers(s0, m, e) ==
    LET r == ReqOf(s0, e)
    IN  IF r = <<>> THEN {}
        ELSE LET a == Answer(c, s0, r[1])
             IN  IF Unauth(e)
                 THEN Check(e.code = 401, "H01 a request without the right token was not refused: " \o e.how)
                      \cup Check(~e.leak, "H01 the refusal of a request gave something away")
                 ELSE Check(e.code # 401, "H01 a request with the right token was refused")
                      \cup
                      CASE e.op = "fault" /\ e.fired ->
                             Check(e.code # 200 \/ m = Request(c, Quiet(s0), r[1], e.t),
                                   "H02 a voucher was acknowledged although it was not taken on")
                             \cup Check(e.code = 200 \/ (e.code >= 500 /\ e.code < 600), "H02 the answer after a failure")
                        [] e.op = "bad" ->
                             Check(Client(e.code), "H02 a request that makes no sense was not refused: " \o e.what)
                        [] e.op = "method" ->
                             Check(Client(e.code) \/ e.code = 501, "H02 a request that makes no sense was not refused: " \o e.what)
                        [] e.op = "nopath" ->
                             Check(e.code \in {404, 405}, "H02 something was found that is not there: " \o e.what)
                        [] OTHER ->
                             Check(e.code = a.code, "H02 the answer to " \o e.op)
                             \cup (IF e.code # a.code \/ e.code # 200 THEN {}
                                   ELSE Check(e.ok, "H02 an answer that makes no sense to " \o e.op)
                                        \cup Check(Seqs(e.vs) = a.vs /\ Len(e.vs) = Cardinality(a.vs),
                                                   "H02,W04 what is said about vouchers")
                                        \cup Check(e.n = a.n, "H02 the number of tokens reported")
                                        \cup Check(SameLast(e.last, a.last), "H02,M03 the lease maintenance reported")
                                        \cup (IF e.op # "price" THEN {}
                                              ELSE Check(e.price = a.price, "H02,S07 the price reported")
                                                   \cup Check(e.period = c.period, "H02 the period reported")))
                             \cup Check(e.op \notin {"list", "get", "maint", "version", "price"} \/ e.code # 200 \/ e.json,
                                        "H02 the content type of the answer to " \o e.op)
                             \cup Check(e.op # "setup" \/ e.ok, "H02 an answer that makes no sense to setup")

Clauses(s0, m, e) == Effects(m, e) \cup Answers(s0, m, e)

NoC == [default |-> 0]
Init == l = 1 /\ c = NoC /\ s = {Start} /\ bad = 0
Fewest(X) == CHOOSE x \in X : \A y \in X : Cardinality(x) <= Cardinality(y)

(* After a violation the rest of the schedule says nothing more. *)
Step(e) ==
    IF s = {} THEN UNCHANGED <<s, c, bad>>
    ELSE
    LET P == UNION {{<<x, m>> : m \in Outcomes(x, e)} : x \in s}
        ok == {p[2] : p \in {q \in P : Clauses(q[1], q[2], e) = {}}}
    IN  /\ IF ok # {} THEN TRUE ELSE Report(l, Fewest({Clauses(p[1], p[2], e) : p \in P}))
        /\ bad' = IF ok # {} THEN bad ELSE bad + 1
        /\ s' = ok
        /\ UNCHANGED c

Config(x) == [x EXCEPT !.keys = Seqs(x.keys)]
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF Unforeseen(Trace[l]) THEN ReportUnforeseen(l) /\ bad' = bad + 1 /\ UNCHANGED <<s, c>>
       ELSE IF Trace[l].op = "init"
       THEN c' = Config(Trace[l].c) /\ s' = {[Start EXCEPT !.up = TRUE]} /\ UNCHANGED bad
       ELSE Step(Trace[l])
    /\ Finished(l, bad')
Spec == Init /\ [][Next]_<<l, c, s, bad>>
=============================================================================
