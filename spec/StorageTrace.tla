---------------------------- MODULE StorageTrace ----------------------------
(* Is what the real storage client, wallet and storage server did a         *)
(* behaviour of Storage.tla?                                                *)
EXTENDS Storage, Verdict

VARIABLES l, st, bad

(* ----------------------------- observed -------------------------------- *)
ObsShares(o) == [key \in {<<x.si, x.n>> : x \in Seqs(o.sh)} |->
                    CHOOSE x \in Seqs(o.sh) : <<x.si, x.n>> = key]
ObsLeases(x) == [s \in {y.s : y \in Seqs(x.ls)} |->
                    SetMax({y.e : y \in {z \in Seqs(x.ls) : z.s = s}})]
ObsShare(x) == [k |-> x.k, sz |-> x.sz, d |-> x.d, we |-> x.we, ls |-> ObsLeases(x)]
ObsSpent(o) == [x \in Seqs(o.spent) |->
                   Cardinality({i \in DOMAIN o.spent : o.spent[i] = x})]
ObsInc(o) == {<<x.si, x.n>> : x \in Seqs(o.inc)}
Nothing(o) == [mc |-> o.mc, ms |-> o.ms, mb |-> o.mb]
Zero == [mc |-> 0, ms |-> 0,
         mb |-> << [le |-> 1, c |-> 0], [le |-> 2, c |-> 0], [le |-> 4, c |-> 0],
                   [le |-> 8, c |-> 0], [le |-> 16, c |-> 0] >>]

Start(e) ==
    [srv |-> [now |-> e.now, pv |-> e.pv, ro |-> FALSE, sh |-> Empty, inc |-> Empty,
              spent |-> Empty, obs |-> <<>>],
     wal |-> [avail |-> {}, use |-> {}, inv |-> {}, gone |-> {}],
     ops |-> Empty, seen |-> Zero]

(* ------------------------------ expected ------------------------------- *)
NoAnswer == [rep |-> [k |-> "none", v |-> 0, r |-> 0, f |-> {}], already |-> {},
             new |-> {}, good |-> FALSE, reads |-> Empty]
NoPlan == [do |-> "none", m |-> "", n |-> 0, out |-> ""]
Paid(m) == m \in {"alloc", "lease", "write"}
Broken == [rep |-> ErrorReply, already |-> {}, new |-> {}, good |-> FALSE, reads |-> Empty]

StOf(rows) == [n \in {x.n : x \in Seqs(rows)} |->
                 LET x == CHOOSE y \in Seqs(rows) : y.n = n IN [sz |-> x.sz, exp |-> x.exp]]

\* What the client was told.
Told(e) ==
    IF e.mode \in {"lostreq", "lostrep", "junk", "cancel"} THEN Broken
    ELSE [rep |-> [k |-> e.reply.k, v |-> e.reply.v, r |-> e.reply.r, f |-> Seqs(e.reply.f)],
          already |-> Seqs(e.reply.already), new |-> Seqs(e.reply.new),
          good |-> e.reply.good, reads |-> Empty]

\* The expected effect of one event: the server, what it answers (ans), the
\* wallet, the passes kept and what the client does next.
Same(s) == [srv |-> s.srv, ans |-> NoAnswer, wal |-> s.wal, keep |-> <<>>, plan |-> NoPlan]

EffBegin(s, e) ==
    [Same(s) EXCEPT !.plan = Begin(s.wal, s.srv.pv, e.a)]

EffNet(s, e) ==
    LET o == s.ops[e.k]
        reached == e.mode \in {"ok", "lostrep", "junk"}
    IN  IF Paid(e.m)
        THEN LET A == IF reached THEN Serve(s.srv, o.a, o.ps)
                      ELSE [srv |-> s.srv] @@ NoAnswer
                 R == AfterPaid(s.wal, s.srv.pv, o.a, Names(o.ps), o.n, Told(e))
             IN [srv |-> A.srv, ans |-> [x \in DOMAIN NoAnswer |-> A[x]],
                 wal |-> R.wal, keep |-> R.keep, plan |-> R.plan]
        ELSE IF e.mode # "ok" \/ e.reply.k # "ok"
        THEN [Same(s) EXCEPT !.plan = PlanDone("error")]
        ELSE [Same(s) EXCEPT !.plan =
                AfterQuery(s.wal, s.srv.pv, e.now, o.a, StOf(e.reply.st))]

EffRaw(s, e) ==
    LET A == Serve(s.srv, e.a, e.ps)
    IN [Same(s) EXCEPT !.srv = A.srv, !.ans = [x \in DOMAIN NoAnswer |-> A[x]]]

Effect(s, e) ==
    CASE e.op = "begin" -> EffBegin(s, e)
      [] e.op = "net" -> EffNet(s, e)
      [] e.op = "raw" -> EffRaw(s, e)
      [] e.op = "fund" -> [Same(s) EXCEPT !.wal.avail = @ \cup Seqs(e.toks)]
      [] e.op = "tick" -> [Same(s) EXCEPT !.srv = Tick(@, e.now - s.srv.now)]
      [] e.op = "readonly" -> [Same(s) EXCEPT !.srv.ro = e.ro]
      [] e.op = "fill" -> [Same(s) EXCEPT !.srv = Fill(@, <<e.si, e.n>>, e.off, e.data)]
      [] e.op = "close" -> [Same(s) EXCEPT !.srv = Close(@, <<e.si, e.n>>)]
      [] e.op = "abort" -> [Same(s) EXCEPT !.srv = Abort(@, {<<e.si, e.n>>})]
      [] e.op = "disc" -> [Same(s) EXCEPT !.srv = Abort(@, DOMAIN @.inc)]
      [] e.op = "restart" -> [Same(s) EXCEPT !.wal = Return(@, @.use)]
      [] OTHER -> Same(s)

OpOf(s, e) == IF e.op = "begin" THEN e.a ELSE s.ops[e.k].a
HasOp(s, e) == e.op = "begin" \/ (e.op = "net" /\ e.k \in DOMAIN s.ops)
Calls(e) == e.op \in {"begin", "net"} /\ Len(e.calls) = 1
TheCall(e) == e.calls[1]
\* The new state, given the choices that were made.
Post(s, e, F) ==
    LET wal == IF Calls(e) THEN Take(F.wal, Rng(Names(TheCall(e).ps)) \ F.wal.use)
               ELSE F.wal
        ops == IF e.op = "restart" THEN Empty
               ELSE IF ~HasOp(s, e) THEN s.ops
               ELSE IF Calls(e)
               THEN LET c == TheCall(e)
                        seen == IF Paid(c.m) /\ e.op = "net" /\ Paid(e.m)
                                THEN s.ops[e.k].seen
                                ELSE [now |-> F.srv.now, st |-> StatOf(F.srv, OpOf(s, e).si)]
                    IN (e.k :> [a |-> OpOf(s, e), n |-> F.plan.n, ps |-> c.ps,
                                seen |-> seen]) @@ s.ops
               ELSE [k \in DOMAIN s.ops \ {e.k} |-> s.ops[k]]
    IN [srv |-> F.srv, wal |-> wal, ops |-> ops, seen |-> Nothing(e.srv)]

(* ------------------------------ clauses -------------------------------- *)
Served(s, e) == e.op = "raw" \/ (e.op = "net" /\ Paid(e.m) /\ e.mode \in {"ok", "lostrep", "junk"})

TheAnswer(s, e, F) ==
    IF ~Served(s, e) THEN {}
    ELSE LET x == F.ans.rep
             r == e.reply
             ps == IF e.op = "raw" THEN e.ps ELSE s.ops[e.k].ps
             mixed == \E p \in Seqs(ps) : ~p.ok
         IN CASE x.k = "mpr" /\ r.k = "ok" ->
                    {IF mixed THEN "S02,S03 a request with too few valid passes was carried out"
                     ELSE "S03,S07 a request with too few passes was carried out"}
              [] x.k = "mpr" /\ r.k = "error" ->
                    {"S03 a request with too few passes was refused without the numbers"}
              [] x.k = "ok" /\ r.k = "mpr" ->
                    {IF mixed THEN "S02,S03,S05 a request with enough valid passes among others was refused"
                     ELSE "S03,S05,S07,S02 a request with enough valid passes was refused"}
              [] x.k = "ok" /\ r.k = "error" ->
                    {"S02,S03,S05,S06,S07,S08,S09 a request failed: " \o r.e}
              [] x.k = "error" /\ r.k = "ok" ->
                    {"S04 an unsupported request was carried out"}
              [] x.k = "error" /\ r.k # "ok" -> {}
              [] x.k = "mpr" /\ r.k = "mpr" ->
                    Check(r.v = x.v, "S02,S03 the number of valid passes in a refusal")
                    \cup Check(r.r = x.r, "S03,S05,S07 the number of required passes in a refusal")
                    \cup Check(Seqs(r.f) = x.f, "S03,S02,S01 the positions of invalid passes in a refusal")
              [] x.k = "ok" /\ r.k = "ok" ->
                    Check(Seqs(r.new) = F.ans.new, "S06,S03 the shares that were allocated")
                    \cup Check(Seqs(r.already) = F.ans.already, "S09 the shares reported as present")
                    \cup Check(r.good = F.ans.good, "S09 the result of the test vectors")
                    \cup Check([n \in {x2.n : x2 \in Seqs(r.reads)} |->
                                  (CHOOSE y \in Seqs(r.reads) : y.n = n).d] = F.ans.reads,
                               "S09 the data that was read with a write")

\* Whether the event is one after which nothing on the server may differ.
Harmless(s, e) ==
    \/ e.op \in {"begin", "fund", "restart", "stat", "sizes", "readv", "get", "version",
                 "advise", "price", "drain", "readonly"}
    \/ e.op = "net" /\ ~Served(s, e)
    \/ Served(s, e) /\ e.reply.k # "ok"

Agreeing(s, e, F) ==
    ~Served(s, e) \/ (F.ans.rep.k = "ok") = (e.reply.k = "ok")

Storing(s, e, F) ==
    LET O == ObsShares(e.srv)
        M == F.srv.sh
        t(normal) == IF Harmless(s, e) THEN "S04 " ELSE normal
    IN IF ~Agreeing(s, e, F) THEN {}
       ELSE Check(DOMAIN O = DOMAIN M, t("S03,S06,S09 ") \o "the shares that exist")
            \cup Check(ObsInc(e.srv) = DOMAIN F.srv.inc,
                       t("S03,S06 ") \o "the shares that are being uploaded")
            \cup (IF DOMAIN O # DOMAIN M THEN {}
                  ELSE Check(\A k \in DOMAIN O :
                               LET a == ObsShare(O[k]) b == M[k]
                               IN [a EXCEPT !.ls = Empty] = [b EXCEPT !.ls = Empty],
                             t("S09 ") \o "the content of a share")
                       \cup Check(\A k \in DOMAIN O : ObsLeases(O[k]) = M[k].ls,
                                  t("S06 ") \o "the leases of a share"))
            \cup (IF ~e.srv.statted THEN {}
                  ELSE Check(Seqs(e.srv.stat) =
                               {[si |-> k[1], n |-> k[2], sz |-> O[k].sz, sz2 |-> O[k].sz,
                                 exp |-> LastExpiry(ObsShare(O[k]))] : k \in DOMAIN O},
                             "S09 what the server says of its shares"))

Spending(s, e, F) ==
    LET t == IF Harmless(s, e) THEN "S04,S08 " ELSE "S08 "
        new == SubSeq(F.srv.obs, Len(s.srv.obs) + 1, Len(F.srv.obs))
        total == SumOver(new, DOMAIN new)
        upto(b) == Cardinality({i \in DOMAIN new : new[i] <= b})
    IN IF ~Agreeing(s, e, F) THEN {}
       ELSE Check(ObsSpent(e.srv) = F.srv.spent, t \o "the passes recorded as spent")
            \cup Check(e.srv.mc = s.seen.mc + Len(new), t \o "the number of operations in the statistic")
            \cup Check(e.srv.ms = s.seen.ms + total
                       /\ \A i \in DOMAIN e.srv.mb :
                            e.srv.mb[i].c = s.seen.mb[i].c + upto(e.srv.mb[i].le),
                       t \o "the prices in the statistic")

Planned(s, e, F) ==
    LET p == F.plan
        out == IF Len(e.done) = 1 THEN e.done[1].out ELSE ""
        a == OpOf(s, e)
        fresh == e.op = "net" /\ ~Paid(e.m)
    IN IF e.op = "net" /\ ~HasOp(s, e) THEN {}
       ELSE IF ~HasOp(s, e)
       THEN Check(e.calls = <<>> /\ e.done = <<>>, "S01,S05 the client did something unexpected")
       ELSE CASE p.do = "call" ->
             IF ~Calls(e) \/ e.done # <<>>
             THEN {IF out = "NotEnoughTokens"
                   THEN "S05,S01,S07 the client failed for lack of passes though it has enough"
                   ELSE "S05,S01 the client did not make the request: " \o out}
             ELSE LET c == TheCall(e)
                      names == Rng(Names(c.ps))
                      new == names \ Rng(F.keep)
                  IN Check(c.k = e.k /\ c.m = p.m, "S05 the request the client made")
                     \cup Check(Len(c.ps) = p.n, "S05,S07,S01 the number of passes the client sent")
                     \cup Check(Distinct(Names(c.ps)), "S01 a pass sent twice in one request")
                     \cup Check(Rng(F.keep) \subseteq names, "S01 a good pass dropped from the next attempt")
                     \cup Check(new \subseteq F.wal.avail, "S01 a pass sent that is not available")
                     \cup Check(\A x \in Seqs(c.ps) : x.bound,
                                "S02,S05 a pass that is not bound to the request it was sent with")
                     \cup Check(~fresh \/ ~Paid(c.m)
                                \/ Len(c.ps) = OpPrice([F.srv EXCEPT !.now = e.now], a),
                                "S05,S07 the client does not send the price")
         [] p.do = "done" ->
             Check(Len(e.done) = 1 /\ e.calls = <<>>,
                   "S01,S05 the client did not finish an operation")
             \cup (IF Len(e.done) # 1 THEN {}
                   ELSE Check(e.done[1].k = e.k /\ out = p.out,
                              IF p.out = "ok" THEN "S05,S01,S09 an operation the server carried out failed: " \o out
                              ELSE "S01,S05 the outcome of an operation: " \o out \o " for " \o p.out)
                        \cup Check(out # "ok" \/ p.out # "ok" \/
                                   (/\ Seqs(e.done[1].already) = Seqs(e.reply.already)
                                    /\ Seqs(e.done[1].new) = Seqs(e.reply.new)
                                    /\ e.done[1].good = e.reply.good
                                    /\ e.done[1].reads = e.reply.reads),
                                   "S09 the result of an operation differs from what the server answered"))
         [] OTHER -> {}

\* A client that asked and an unchanged server must agree.
Agreement(s, e) ==
    IF e.op # "net" \/ ~Paid(e.m) \/ e.mode # "ok" THEN {}
    ELSE LET o == s.ops[e.k] IN
         Check(~(e.reply.k = "mpr" /\ (\A p \in Seqs(o.ps) : p.ok)
                 /\ o.seen = [now |-> s.srv.now, st |-> StatOf(s.srv, o.a.si)]),
               "S05 an honest server asked for more passes")

WalletClauses(s, e, P) ==
    LET w == P.wal IN
    Check(Seqs(e.wal.tok) = w.avail \cup w.use /\ Distinct(e.wal.tok),
          "S01 the passes in the wallet")
    \cup Check(Seqs(e.wal.inv) = w.inv, "S01 the passes set aside as invalid")
    \cup Check(e.wal.avail = Cardinality(w.avail), "S01 the number of available passes")
    \cup (IF e.op = "drain"
          THEN Check(Seqs(e.toks) = w.avail, "S01 the passes that are available at the end")
          ELSE {})

StatRows(srv, si) ==
    {[n |-> n, sz |-> StatOf(srv, si)[n].sz, exp |-> StatOf(srv, si)[n].exp] :
        n \in ShareNums(srv, si)}
ReadRows(srv, si, shs, rv) ==
    {[n |-> n, d |-> ReadsOf(srv, si, rv)[n]] :
        n \in {x \in ShareNums(srv, si) : shs = {} \/ x \in shs}}

Reading(s, e) ==
    CASE e.op = "stat" ->
            Check(/\ Len(e.res) = Len(e.sis)
                  /\ \A i \in DOMAIN e.sis :
                        /\ Seqs(e.res[i]) = StatRows(s.srv, e.sis[i]),
                  "S09 the status of shares")
      [] e.op = "sizes" ->
            Check(Seqs(e.res) =
                    {[n |-> n, sz |-> StatOf(s.srv, e.si)[n].sz] :
                        n \in {x \in ShareNums(s.srv, e.si) : e.all \/ x \in Seqs(e.shs)}},
                  "S09 the sizes of shares")
      [] e.op = "readv" ->
            Check(Seqs(e.res) = ReadRows(s.srv, e.si, Seqs(e.shs), e.rv),
                  "S09 the data read from mutable shares")
      [] e.op = "get" ->
            Check(Seqs(e.res) =
                    {[n |-> n, d |-> s.srv.sh[<<e.si, n>>].d] : n \in ShareNums(s.srv, e.si)},
                  "S09 the data read from immutable shares")
      [] e.op = "version" -> Check(e.same, "S09 the version information")
      [] e.op = "net" ->
            IF Paid(e.m) \/ e.mode \in {"lostreq", "cancel"} THEN {}
            ELSE Check(/\ e.reply.k = "ok"
                       /\ Seqs(e.reply.st) =
                            IF e.m = "stat" THEN StatRows(s.srv, s.ops[e.k].a.si)
                            ELSE {[x EXCEPT !.exp = 0] : x \in StatRows(s.srv, s.ops[e.k].a.si)},
                       "S09,S05 the answer to the query before a paid request")
      [] e.op = "price" ->
            Check(e.res = FilesPrice(e.needed, e.total, e.pv, e.sizes),
                  "S07 the calculated price of files")
      [] OTHER -> {}

Clauses(s, e, F, P) ==
    TheAnswer(s, e, F) \cup Storing(s, e, F) \cup Spending(s, e, F) \cup Planned(s, e, F)
    \cup Agreement(s, e) \cup WalletClauses(s, e, P) \cup Reading(s, e)

(* Carry on from what is really there. *)
Resync(s, e, P) ==
    LET O == ObsShares(e.srv)
        held == UNION {Rng(Names(P.ops[k].ps)) : k \in DOMAIN P.ops} \cap Seqs(e.wal.tok)
        inc0 == [sz |-> 0, d |-> <<>>, sec |-> "?", exp |-> 0, dl |-> 0]
    IN [P EXCEPT
          !.srv.sh = [k \in DOMAIN O |-> ObsShare(O[k])],
          !.srv.inc = [k \in ObsInc(e.srv) |->
                          IF k \in DOMAIN P.srv.inc THEN P.srv.inc[k] ELSE inc0],
          !.srv.spent = ObsSpent(e.srv),
          !.wal = [avail |-> Seqs(e.wal.tok) \ held, use |-> held,
                   inv |-> Seqs(e.wal.inv), gone |-> {}]]

Init == l = 1 /\ st = Start([now |-> 0, pv |-> 1]) /\ bad = 0

Step(e) ==
    IF e.op = "net" /\ e.k \notin DOMAIN st.ops
    THEN Report(l, {"S01,S05 an answer to a request that was not made"})
         /\ bad' = bad + 1 /\ UNCHANGED st
    ELSE LET F == Effect([st EXCEPT !.srv.now = IF e.op = "tick" THEN @ ELSE e.now], e)
             P == Post(st, e, F)
             B == Clauses(st, e, F, P)
         IN /\ Report(l, B)
            /\ bad' = IF B = {} THEN bad ELSE bad + 1
            /\ st' = [(IF B = {} THEN P ELSE Resync(st, e, P)) EXCEPT !.srv.obs = <<>>]

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF Unforeseen(Trace[l]) THEN ReportUnforeseen(l) /\ bad' = bad + 1 /\ UNCHANGED st
       ELSE IF Trace[l].op = "init" THEN st' = Start(Trace[l]) /\ UNCHANGED bad
       ELSE Step(Trace[l])
    /\ Finished(l, bad')

Spec == Init /\ [][Next]_<<l, st, bad>>
=============================================================================
