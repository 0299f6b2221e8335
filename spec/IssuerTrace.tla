---------------------------- MODULE IssuerTrace -----------------------------
(* Is what the real redeemer and controller did (harness/issuer.py) what    *)
(* Issuer does?                                                             *)
EXTENDS Issuer, Verdict
VARIABLES l, c, s, bad

Outcomes(s0, e) ==
    LET q == Quiet(s0)
    IN  CASE e.op = "put" -> {Add(c, q, e.v, e.t)}
          [] e.op = "boot" -> {Boot(c, q, e.t)}
          [] e.op = "restart" -> {Boot(c, Crash(q), e.t)}
          [] e.op = "tick" -> {Tick(c, q, e.t)}
          [] e.op = "answer" -> Respond(c, q, e.v, e.a, e.t)
          [] OTHER -> {q}

DbV(e) == {x.v : x \in Seqs(e.db.v)}
Row(e, v) == CHOOSE x \in Seqs(e.db.v) : x.v = v
SameRow(x, y) == x.st = y.st /\ x.exp = y.exp /\ x.ctr = y.ctr /\ x.cnt = y.cnt /\ x.fin = y.fin /\ x.cre = y.cre
SameVouchers(m, e) == DbV(e) = DOMAIN m.V /\ \A v \in DbV(e) : SameRow(Row(e, v), m.V[v])
SameTokens(m, e) == e.db.tok = m.free /\ e.db.held = m.held /\ e.db.inv = 0
SameSigned(m, e) == Seqs(e.db.signed) = m.signed /\ Len(e.db.signed) = Cardinality(m.signed)
Sub(x) == [v |-> x.v, g |-> x.g, n |-> x.n]
SameSubs(m, e) == {Sub(x) : x \in Seqs(e.subs)} = Seqs(m.subs) /\ Len(e.subs) = Len(m.subs)
NoDetail(x) == [v |-> x.v, k |-> x.k, c |-> x.c, at |-> x.at, n |-> x.n, cre |-> x.cre, exp |-> x.exp]
SameStatus(m, e) == {NoDetail(x) : x \in Seqs(e.st)} = {NoDetail(Status(m, v)) : v \in DOMAIN m.V}
Who(e) == IF e.op = "answer" THEN "W08" ELSE "W08,W05"

Clauses(s0, m, e) ==
    Check(SameVouchers(m, e), Who(e) \o " the vouchers after " \o e.op)
    \cup Check(SameSigned(m, e), "W08 the tokens stored are not those that were signed, after " \o e.op)
    \cup Check(SameTokens(m, e), Who(e) \o " the tokens that may be used after " \o e.op)
    \cup Check(SameSubs(m, e), Who(e) \o " the requests after " \o e.op)
    \cup Check(SameStatus(m, e), Who(e) \o " what is said of the vouchers after " \o e.op)
    \cup Check(\A x \in Seqs(e.subs) : x.ok, "W08 the request is not what the issuer understands")
    \cup Check(\A x \in Seqs(e.subs) : x.kept, "W08,W02 the tokens submitted are not those remembered")
    \cup Check(\A x \in Seqs(e.subs) : x.same, "W08,W02 other tokens were submitted than before")
    \cup (IF e.op # "passes" THEN {}
          ELSE IF e.got = -1 THEN Check(e.n > m.free, "W08,W01 there were enough tokens")
          ELSE Check(e.n <= m.free /\ e.got = e.n, "W08,W01 another number of passes")
               \cup Check(e.valid = e.got /\ e.distinct = e.got, "W08 a pass is not valid")
               \cup Check(e.other = 0, "W08 a pass is valid for another message"))
    \cup (IF e.op # "announce" THEN {}
          ELSE Check(e.made = Usable(e.kind), "W08 a storage server that announces " \o e.kind))

NoC == [default |-> 0]
Init == l = 1 /\ c = NoC /\ s = {Outset} /\ bad = 0
Fewest(X) == CHOOSE x \in X : \A y \in X : Cardinality(x) <= Cardinality(y)

(* After a violation the rest of the schedule says nothing more. *)
Step(e) ==
    IF s = {} THEN UNCHANGED <<s, c, bad>>
    ELSE
    LET P == UNION {{<<x, m>> : m \in Outcomes(x, e)} : x \in s}
        ok == {p[2] : p \in {q \in P : Clauses(q[1], q[2], e) = {}}}
    IN  /\ IF ok # {} THEN TRUE ELSE Report(l, Fewest({Clauses(p[1], p[2], e) : p \in P}))
        /\ bad' = IF ok # {} THEN bad ELSE bad + 1
        /\ s' = ok
        /\ UNCHANGED c

Config(x) == [x EXCEPT !.keys = Seqs(x.keys)]
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF Unforeseen(Trace[l]) THEN ReportUnforeseen(l) /\ bad' = bad + 1 /\ UNCHANGED <<s, c>>
       ELSE IF Trace[l].op = "init"
       THEN c' = Config(Trace[l].c) /\ s' = {[Outset EXCEPT !.up = TRUE]} /\ UNCHANGED bad
       ELSE Step(Trace[l])
    /\ Finished(l, bad')
Spec == Init /\ [][Next]_<<l, c, s, bad>>
=============================================================================
