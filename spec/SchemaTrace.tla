---------------------------- MODULE SchemaTrace -----------------------------
(* Is what became of the real database (harness/upgrade.py) what Schema     *)
(* says?                                                                    *)
EXTENDS Schema, Verdict
VARIABLES l, bad,
          w,         \* what the wallet is worth
          ok,        \* whether nothing was wrong so far
          latest     \* whether it has been brought up to date

Groups(G) == [i \in {G[k].id : k \in 1..Len(G)} |-> LET k == CHOOSE k \in 1..Len(G) : G[k].id = i
                                                    IN  [v |-> G[k].v, key |-> G[k].key, sp |-> G[k].sp]]
DB(d) == [ver |-> d.ver, V |-> d.V, rnd |-> Seqs(d.rnd), tok |-> Seqs(d.tok), inv |-> Seqs(d.inv),
          G |-> Groups(d.G), lm |-> d.lm, ev |-> d.ev]

After(e) ==
    CASE e.op = "spend" -> Spend(w, Seqs(e.toks))
      [] e.op = "inval" -> Invalid(w, Seqs(e.toks), "broken")
      [] e.op = "redeem" -> Redeem(w, e.v, Seqs(e.toks), e.t)
      [] e.op = "double" -> Double(w, e.v, e.t)
      [] e.op = "maintain" -> Maintain(w, e.n, e.s, e.f)
      [] OTHER -> w

Names(V) == {V[i].v : i \in 1..Len(V)}
Voucher(V, v) == LET i == CHOOSE i \in 1..Len(V) : V[i].v = v IN V[i]
One(x, y) ==
    Check(x.st = y.st /\ (x.st # "pending" \/ x.ctr = y.ctr), "D01 the state of a voucher")
    \cup Check(x.st # y.st \/ x.fin = y.fin, "D01 when a voucher was finished")
    \cup Check(x.cre = y.cre, "D01 when a voucher was created")
    \cup Check(x.st # y.st \/ (x.cnt = y.cnt /\ x.exp = y.exp), "D01 the counts of a voucher")
Holds(m, e) ==
    Check(Names(e.V) = DOMAIN m.V /\ Len(e.V) = Cardinality(DOMAIN m.V), "D01 the vouchers")
    \cup UNION {One(Shown(m.V[v]), Voucher(e.V, v)) : v \in DOMAIN m.V \cap Names(e.V)}
    \cup Check(Seqs(e.rnd) = m.rnd /\ Distinct(e.rnd), "D01 the random tokens")
    \cup Check(Seqs(e.free) = m.free /\ Distinct(e.free), "D01 the tokens that can be spent")
    \cup Check(Seqs(e.inv) = m.inv /\ Distinct(e.inv), "D01 the invalid tokens")
    \cup Check(e.last = m.last, "D01 the latest maintenance run")
    \cup Check(e.ev = m.ev, "D01 the recorded changes")

Clauses(m, e) ==
    Check(e.out \in {"ok", "crash", "error"}, "D01 the database can not be opened")
    \cup Check(~latest \/ e.op # "open" \/ e.same, "D01 opening it again changed something")
    \cup (IF e.open THEN Holds(m, e) ELSE {})
    \cup Check(e.op # "redeem" \/ ~e.made \/ {r \in w.rnd : r.v = e.v /\ r.g = w.V[e.v].ctr} = {}, "D01 the random tokens were not used")
    \cup Check(e.op # "redeem" \/ e.made \/ {r.t : r \in {r \in w.rnd : r.v = e.v /\ r.g = w.V[e.v].ctr}} = Seqs(e.toks),
               "D01 other random tokens were used")
    \cup Check(e.op \notin {"spend", "inval"} \/ Seqs(e.toks) \subseteq w.free, "D01 tokens that can not be spent")

Nothing == [V |-> <<>>]
Init == l = 1 /\ bad = 0 /\ w = Nothing /\ ok = TRUE /\ latest = FALSE
Step(e) ==
    LET m == After(e)
        C == IF ok THEN Clauses(m, e) ELSE {}
    IN  /\ Report(l, C)
        /\ bad' = IF C = {} THEN bad ELSE bad + 1
        /\ ok' = (ok /\ C = {})
        /\ w' = IF ok /\ C = {} THEN m ELSE w
        /\ latest' = (latest \/ e.open)
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF Unforeseen(Trace[l]) THEN ReportUnforeseen(l) /\ bad' = bad + 1 /\ ok' = FALSE /\ UNCHANGED <<w, latest>>
       ELSE IF Trace[l].op = "init"
       THEN w' = Value(DB(Trace[l].d)) /\ ok' = TRUE /\ latest' = FALSE /\ UNCHANGED bad
       ELSE Step(Trace[l])
    /\ Finished(l, bad')
Spec == Init /\ [][Next]_<<l, bad, w, ok, latest>>
=============================================================================
