----------------------------- MODULE WalletTrace ----------------------------
(* Is what the real wallet did (harness/wallet.py) what Wallet does?        *)
EXTENDS Wallet, Verdict
VARIABLES l, c, st, bad,
          sent     \* <<v, g>> |-> the tokens of the first submission, in order

(* -- what was observed -- *)
ObsRnd(e) == Seqs(e.db.rnd)
ObsTok(e) == Seqs(e.db.tok)
ObsInv(e) == {x.t : x \in Seqs(e.db.inv)}
ObsV(e, v) == CHOOSE x \in Seqs(e.db.v) : x.v = v
ObsNames(e) == {x.v : x \in Seqs(e.db.v)}
Pool(e) == {[v |-> r.v, g |-> r.g, t |-> r.t, i |-> 0] : r \in ObsRnd(e)}

SameV(r, x) == /\ r.st = x.st /\ r.exp = x.exp /\ r.ctr = x.ctr
               /\ r.cnt = x.cnt /\ r.seq = x.seq
Persisted(m, e) ==
    /\ DOMAIN m.V = ObsNames(e)
    /\ Distinct(e.db.v) /\ Len(e.db.v) = Cardinality(ObsNames(e))
    /\ \A v \in DOMAIN m.V : SameV(m.V[v], ObsV(e, v))
    /\ m.rnd = ObsRnd(e) /\ Distinct(e.db.rnd)
    /\ m.tok = ObsTok(e) /\ Distinct(e.db.tok)
    /\ m.inv = ObsInv(e)

Statuses(m) == {Status(m, v) : v \in DOMAIN m.V}
Matches(m, e) == /\ Persisted(m, e)
                 /\ e.alive => Statuses(m) = Seqs(e.stat) /\ e.avail = Cardinality(Avail(m))

(* -- the operation -- *)
Op(e) ==
    CASE e.op = "put" -> [op |-> "put", v |-> e.v, n |-> e.n, t |-> e.t]
      [] e.op = "ans" -> [op |-> "ans", v |-> e.v, kind |-> e.kind, key |-> e.key,
                          d |-> e.d, t |-> e.t]
      [] e.op = "get" -> [op |-> "get", t |-> e.t,
                          toks |-> IF e.out = "ok" THEN Seqs(e.res) ELSE {}]
      [] e.op \in {"spend", "inval", "reset"} ->
           [op |-> e.op, toks |-> Seqs(e.toks), t |-> e.t]
      [] OTHER -> [op |-> e.op, t |-> e.t]

Sound(s, e) ==
    /\ Enabled(s, Op(e))
    /\ e.op = "ans" => e.v \in DOMAIN s.V

Candidates(s, e) ==
    IF ~Sound(s, e) THEN {[s EXCEPT !.up = e.alive]}
    ELSE LET N == Pool(e)
         IN  CASE e.fault = "none" -> {Final(c, s, Op(e), N)}
               [] e.fault = "crash" -> {Down(m) : m \in Micros(c, s, Op(e), N)}
               [] OTHER -> Micros(c, s, Op(e), N) \cup {Final(c, s, Op(e), N)}

Chosen(s, e) ==
    LET M == Candidates(s, e)
        A == {m \in M : Matches(m, e)}
        B == {m \in M : Persisted(m, e)}
        W == IF A # {} THEN A ELSE IF B # {} THEN B ELSE M
        \* Prefer the whole operation having happened.
        F == {m \in W : m.subs # {}}
    IN  IF F # {} THEN CHOOSE m \in F : TRUE ELSE CHOOSE m \in W : TRUE

(* -- the clauses -- *)
Persistence(m, e) ==
    Check(DOMAIN m.V = ObsNames(e), "W01,W03,W04,H02 the vouchers remembered")
    \cup Check(Len(e.db.v) = Cardinality(ObsNames(e)), "W01,W03,W04 a voucher remembered twice")
    \cup UNION {LET r == m.V[v]
                    x == ObsV(e, v)
                IN  Check(r.st = x.st, "W04,W03,W05 the persistent state of a voucher")
                    \cup Check(r.exp = x.exp, "W03,W04 the expected number of tokens")
                    \cup Check(r.ctr = x.ctr, "W03,W04,W05 the recorded progress")
                    \cup Check(r.cnt = x.cnt, "W04,W01,W06 the recorded token count")
                    \cup Check(r.seq = x.seq, "W01,W06 the recorded number of sequestered tokens")
                : v \in DOMAIN m.V \cap ObsNames(e)}
    \cup Check(m.rnd = ObsRnd(e), "W02,W01 the random tokens kept")
    \cup Check(Distinct(e.db.rnd), "W02,W01 a random token kept twice")
    \cup Check({x.t : x \in m.tok} = {x.t : x \in ObsTok(e)}, "W01,W07 the unspent tokens kept")
    \cup Check(\A x \in m.tok : \A y \in ObsTok(e) : x.t = y.t => x.v = y.v,
               "W01,W03 the voucher of an unspent token")
    \cup Check(\A x \in m.tok : \A y \in ObsTok(e) : x.t = y.t => x.sp = y.sp /\ x.key = y.key,
               "W06,W01 the key or spendability of an unspent token")
    \cup Check(Distinct(e.db.tok), "W01,W07 an unspent token kept twice")
    \cup Check(m.inv = ObsInv(e), "W01,W07 the rejected tokens kept")

RandomTokens(m, e) ==
    Check(\A r \in m.rnd : r.v \in DOMAIN m.V =>
              Cardinality(Rnd(m, r.v, r.g)) = GroupSize(c, m.V[r.v].exp, r.g),
          "W03,W02 the number of random tokens of a group")
    \cup Check(\A x, y \in m.rnd : x.t = y.t => x = y, "W02 a random token in two groups")
    \cup Check({x.t : x \in m.rnd} \cap m.issued = {}, "W02 a random token used again")

Statusing(m, e) ==
    IF ~e.alive THEN {}
    ELSE Check(Len(e.stat) = Cardinality(DOMAIN m.V), "W04,H02 the vouchers listed")
    \cup UNION {LET v == x.v
                    w == Status(m, v)
                    T == IF w.k \in {"redeemed", "double-spend"} THEN "W04" ELSE "W04,W05"
                IN  Check(x.k = w.k, T \o " the kind of status of a voucher")
                    \cup (IF x.k # w.k THEN {}
                          ELSE Check(x.c = w.c, "W04,W03 the progress shown")
                          \cup Check(x.at = w.at, "W04 the time shown")
                          \cup Check(x.n = w.n, "W04 the token count shown")
                          \cup Check(x.d = w.d, "W04 the details shown"))
                    \cup Check(x.cre = w.cre, "W04 the creation time shown")
                    \cup Check(x.exp = w.exp, "W03,W04 the expected tokens shown")
                : x \in {y \in Seqs(e.stat) : y.v \in DOMAIN m.V}}

Submissions(s, m, e) ==
    LET seen == {<<x.v, x.g>> : x \in Seqs(e.subs)}
        all == IF Sound(s, e) /\ e.fault # "none"
               THEN Final(c, s, Op(e), Pool(e)).subs ELSE m.subs
        allowed == IF e.fault = "none" THEN seen = m.subs
                   ELSE IF e.fault = "crash" THEN seen \subseteq all
                   ELSE seen = m.subs \/ (seen \subseteq all /\ m.subs = {} /\ seen = {})
    IN  Check(seen \subseteq all \/ ~(\E q \in seen \ all : q[1] \in DOMAIN m.V /\ m.V[q[1]].st # "pending"),
              "W05,W03,W04 a resolved voucher was submitted")
        \cup Check(\A q \in seen \ all : q[1] \in DOMAIN m.V => q[2] >= s.V[q[1]].ctr \/ q[1] \notin DOMAIN s.V,
                   "W03 a recorded group was submitted")
        \cup Check(seen \subseteq all \/ ~(\E q \in seen \ all : q[1] \in Active(s) /\ s.up),
              "W05,W03 a second attempt while one is in progress")
        \cup Check(seen \subseteq all, "W03,W05 an unexpected submission")
        \cup Check(allowed \/ ~(seen \subseteq all), "W05,W03 a submission is missing")
        \cup Check(Cardinality(seen) = Len(e.subs), "W05,W03 two attempts at once")
        \cup UNION {Check(Seqs(x.toks) = Seqs(x.dur), "W02 tokens submitted that are not in the store")
                    \cup Check(Distinct(x.toks), "W02 a token submitted twice at once")
                    \cup Check(<<x.v, x.g>> \in DOMAIN s.first =>
                                 Seqs(x.toks) = s.first[<<x.v, x.g>>],
                               "W02 other tokens submitted than before")
                    \cup Check(\A q \in DOMAIN s.first : q # <<x.v, x.g>> =>
                                 Seqs(x.toks) \cap s.first[q] = {},
                               "W02 tokens submitted that belong to another group")
                    \cup Check(x.v \in DOMAIN m.V =>
                                 Len(x.toks) = GroupSize(c, m.V[x.v].exp, x.g),
                               "W03,W02 the size of a submitted group")
                    : x \in Seqs(e.subs)}

Handing(s, e) ==
    IF e.op # "get" \/ e.fault # "none" THEN {}
    ELSE LET a == Avail(s) IN
         IF e.out = "ok"
         THEN Check(Len(e.res) = e.n, "W07 the number of tokens handed out")
              \cup Check(Distinct(e.res), "W07 a token handed out twice at once")
              \cup Check(Seqs(e.res) \cap s.use = {}, "W07 a token in use handed out")
              \cup Check(Seqs(e.res) \cap (s.spent \cup s.inv) = {}, "W07,W01 a token spent or rejected handed out")
              \cup Check(\A x \in s.tok : x.t \in Seqs(e.res) => x.sp, "W06 an unspendable token handed out")
              \cup Check(Seqs(e.res) \subseteq TokenNames(s), "W07,W01 a token not in the wallet handed out")
         ELSE Check(e.out = "NotEnoughTokens" /\ e.n > Cardinality(a),
                    "W07,W06,W01 a request that could have been met failed")

Outcome(s, m, e) ==
    Check(Sound(s, e), "W01,W03,W04,W05,W07 an operation that cannot happen here")
    \cup (IF e.op = "get" THEN {}
          ELSE IF e.op = "put" /\ s.up /\ Refused(c, s, e.v, e.n)
          THEN Check(e.out # "ok", "W03 a voucher that cannot be divided into groups was accepted")
          ELSE Check(e.fault # "none" \/ e.out = "ok",
                     IF e.op \in {"spend", "inval", "reset"}
                     THEN "W01,W07 disposing of tokens failed"
                     ELSE "W01,W02,W03,W04,W05,W06,W07 an operation failed: " \o e.out))
    \cup Check(e.alive = m.up, "W01,W02,W03,W04,W05,W06,W07 the process did not start")
    \cup Check(~e.alive \/ e.avail = Cardinality(Avail(m)), "W07,W06,W01,H02 the number of available tokens")

Atomic(m, e) ==
    IF e.fault = "none" \/ Persisted(m, e) THEN {}
    ELSE {"W01,W02,W03,W04,W07 an interrupted operation was partly carried out"}

Ordered(e) ==
    UNION {Check(<<x.v, x.g>> \in DOMAIN sent =>
                     (Seqs(x.toks) = Seqs(sent[<<x.v, x.g>>]) => x.toks = sent[<<x.v, x.g>>]),
                 "W02 the tokens submitted in another order than before")
           : x \in Seqs(e.subs)}

AtTheEnd(m, e) ==
    IF e.op # "end" THEN {}
    ELSE Check(Pending(m) = {}, "W05,W03,W04 a voucher the issuer would have redeemed was not")

Clauses(s, m, e) ==
    Persistence(m, e) \cup RandomTokens(m, e) \cup Statusing(m, e)
    \cup Submissions(s, m, e) \cup Handing(s, e) \cup Outcome(s, m, e)
    \cup Atomic(m, e) \cup AtTheEnd(m, e) \cup Ordered(e)

(* Carry on from what is really there. *)
Resync(m, e) ==
    LET V == [v \in ObsNames(e) |->
                LET x == ObsV(e, v)
                    o == IF v \in DOMAIN m.V THEN m.V[v]
                         ELSE [fin |-> 0, cre |-> 0]
                IN  [st |-> x.st, exp |-> x.exp, ctr |-> x.ctr, cnt |-> x.cnt,
                     seq |-> x.seq, fin |-> o.fin, cre |-> o.cre]]
    IN  [m EXCEPT !.V = V, !.rnd = ObsRnd(e), !.tok = ObsTok(e), !.inv = ObsInv(e),
                  !.up = e.alive,
                  !.vol = [v \in ObsNames(e) |->
                             IF v \in DOMAIN m.vol THEN m.vol[v] ELSE None],
                  !.use = m.use \cap {x.t : x \in ObsTok(e)},
                  !.issued = {x.t : x \in ObsTok(e)} \cup m.spent \cup ObsInv(e)]

Init == l = 1 /\ c = [groups |-> 1, default |-> 1, keys |-> {}] /\ st = Boot0 /\ bad = 0
        /\ sent = Empty

Begin(e) ==
    /\ c' = [groups |-> e.groups, default |-> e.default, keys |-> Seqs(e.keys)]
    /\ st' = Boot0 /\ sent' = Empty
    /\ UNCHANGED bad

Step(e) ==
    LET m == Chosen(st, e)
        B == Clauses(st, m, e)
    IN  /\ Report(l, B)
        /\ bad' = IF B = {} THEN bad ELSE bad + 1
        /\ st' = IF B = {} THEN m ELSE Resync(m, e)
        /\ sent' = sent @@ [q \in {<<x.v, x.g>> : x \in Seqs(e.subs)} |->
                              LET i == CHOOSE j \in 1..Len(e.subs) :
                                          <<e.subs[j].v, e.subs[j].g>> = q
                              IN  e.subs[i].toks]
        /\ UNCHANGED c

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF Unforeseen(Trace[l]) THEN ReportUnforeseen(l) /\ bad' = bad + 1 /\ UNCHANGED <<st, c, sent>>
       ELSE IF Trace[l].op = "init" THEN Begin(Trace[l]) ELSE Step(Trace[l])
    /\ Finished(l, bad')

Spec == Init /\ [][Next]_<<l, c, st, bad, sent>>
=============================================================================
