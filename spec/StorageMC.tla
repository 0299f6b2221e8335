----------------------------- MODULE StorageMC ------------------------------
(* Storage as a state machine with small constants, and what must hold.      *)
EXTENDS Storage
CONSTANTS Good, Bad,       \* the passes of the wallet
          PV,              \* the pass value
          AllocSizes, DataSizes, ShareNumbers,
          MaxOps,          \* how many paid operations are begun
          MaxTicks,
          Concurrent       \* how many of them at a time
VARIABLES srv, wal, ops, begun, ticks, lied, last

vars == <<srv, wal, ops, begun, ticks, lied, last>>
Tokens == Good \cup Bad
Sym == Permutations(Good) \cup Permutations(Bad)

Base == [m |-> "alloc", si |-> "i", shs |-> <<>>, size |-> 0, sec |-> "s1", we |-> "w",
         tw |-> <<>>, rv |-> <<>>, big |-> FALSE]
Ones(n) == [i \in 1..n |-> 1]
NumSeqs == {<<n>> : n \in ShareNumbers} \cup
           {<<x, y>> : x, y \in {z \in ShareNumbers : \E w \in ShareNumbers : w # z}}
Distinct2(q) == Len(q) = 1 \/ q[1] < q[2]
\* Two writers: one creates or writes, the other's test may fail.
Requests ==
    {[Base EXCEPT !.shs = q, !.size = z] :
        q \in {x \in NumSeqs : Distinct2(x)}, z \in AllocSizes}
    \cup {[Base EXCEPT !.m = "lease", !.si = si, !.sec = s] : si \in {"i", "m"}, s \in {"s1", "s2"}}
    \cup {[Base EXCEPT !.m = "write", !.si = "m",
             !.tw = << [n |-> 0, t |-> t, d |-> d, nl |-> NoLength] >>] :
             t \in {<<>>, << <<0, 1, <<>> >> >>},
             d \in {<<>>} \cup {<< <<0, Ones(z)>> >> : z \in DataSizes}}

Init == /\ srv = [now |-> 1, pv |-> PV, ro |-> FALSE, sh |-> Empty, inc |-> Empty,
                  spent |-> Empty, obs |-> <<>>]
        /\ wal = [avail |-> Tokens, use |-> {}, inv |-> {}, gone |-> {}]
        /\ ops = Empty /\ begun = 0 /\ ticks = 0 /\ lied = FALSE
        /\ last = [what |-> "nothing"]

AsPasses(toks) == [i \in DOMAIN toks |-> [n |-> toks[i], ok |-> toks[i] \in Good]]
RECURSIVE Orders(_, _)
Orders(S, n) == IF n = 0 THEN {<<>>}
                ELSE UNION {{<<x>> \o q : q \in Orders(S \ {x}, n - 1)} : x \in S}

Seen(s, a) == [now |-> s.now, st |-> StatOf(s, a.si)]
\* Carry out what the client does next; ``q`` is the state it is based on.
Go(k, a, w, keep, plan, seen) ==
    IF plan.do = "done"
    THEN wal' = w /\ ops' = [j \in DOMAIN ops \ {k} |-> ops[j]]
    ELSE \E extra \in (IF plan.n = 0 THEN {<<>>} ELSE Orders(w.avail, plan.n - Len(keep))) :
            /\ wal' = Take(w, Rng(extra))
            /\ ops' = (k :> [a |-> a, m |-> plan.m, n |-> plan.n, toks |-> keep \o extra,
                             seen |-> seen]) @@ ops

BeginOp ==
    /\ begun < MaxOps /\ Cardinality(DOMAIN ops) < Concurrent
    /\ begun' = begun + 1
    /\ \E a \in Requests : Go(begun + 1, a, wal, <<>>, Begin(wal, srv.pv, a), Seen(srv, a))
    /\ last' = [what |-> "begin"]
    /\ UNCHANGED <<srv, ticks, lied>>

Modes == {"ok", "lostreq", "lostrep"}
Query == \E k \in DOMAIN ops : \E mode \in {"ok", "lostreq"} :
    LET o == ops[k] IN
    /\ o.m \in {"stat", "sizes"}
    /\ IF mode = "ok"
       THEN Go(k, o.a, wal, <<>>, AfterQuery(wal, srv.pv, srv.now, o.a, StatOf(srv, o.a.si)),
               Seen(srv, o.a))
       ELSE Go(k, o.a, wal, <<>>, PlanDone("error"), Seen(srv, o.a))
    /\ last' = [what |-> "query"]
    /\ UNCHANGED <<srv, begun, ticks, lied>>

Paid == \E k \in DOMAIN ops : \E mode \in Modes :
    LET o == ops[k]
        ps == AsPasses(o.toks)
        A == IF mode = "lostreq" THEN [srv |-> srv, rep |-> ErrorReply, new |-> {}]
             ELSE Serve(srv, o.a, ps)
        told == IF mode = "ok" THEN A ELSE [A EXCEPT !.rep = ErrorReply]
        X == AfterPaid(wal, srv.pv, o.a, o.toks, o.n, told)
    IN /\ o.m \in {"alloc", "lease", "write"}
       /\ srv' = A.srv
       /\ Go(k, o.a, X.wal, X.keep, X.plan, o.seen)
       /\ last' = [what |-> "paid", a |-> o.a, ps |-> ps, rep |-> A.rep, told |-> told.rep,
                   mode |-> mode, seen |-> o.seen, before |-> srv]
       /\ UNCHANGED <<begun, ticks, lied>>

\* A server that does not tell the truth.
Lie == \E k \in DOMAIN ops : \E F \in SUBSET {0, 1} :
    LET o == ops[k]
        f == {i \in F : i < Len(o.toks)}
        told == [rep |-> [k |-> "mpr", v |-> 0, r |-> 1, f |-> f], new |-> {}]
        X == AfterPaid(wal, srv.pv, o.a, o.toks, o.n, told)
    IN /\ o.m \in {"alloc", "lease", "write"}
       /\ Go(k, o.a, X.wal, X.keep, X.plan, o.seen)
       /\ last' = [what |-> "lie"] /\ lied' = TRUE
       /\ UNCHANGED <<srv, begun, ticks>>

\* Somebody else's request.
Raw == \E a \in Requests : \E g \in 0..2 : \E b \in {0, 1} :
    LET ps == [i \in 1..(g + b) |-> [n |-> 100 * (begun + 1) + i, ok |-> i <= g]]
        A == Serve(srv, a, ps)
    IN /\ begun < MaxOps /\ begun' = begun + 1
       /\ srv' = A.srv
       /\ last' = [what |-> "raw", a |-> a, ps |-> ps, rep |-> A.rep, told |-> A.rep,
                   mode |-> "ok", seen |-> <<>>, before |-> srv]
       /\ UNCHANGED <<wal, ops, ticks, lied>>

Upload == \E k \in DOMAIN srv.inc :
    /\ srv' \in {Close(srv, k), Abort(srv, {k})}
    /\ last' = [what |-> "upload"]
    /\ UNCHANGED <<wal, ops, begun, ticks, lied>>

Ticking == /\ ticks < MaxTicks
           /\ ticks' = ticks + 1
           /\ \E dt \in {1, Period} : srv' = Tick(srv, dt)
           /\ last' = [what |-> "tick"]
           /\ UNCHANGED <<wal, ops, begun, lied>>

Restart == /\ wal' = Return(wal, wal.use) /\ ops' = Empty
           /\ ops # Empty
           /\ last' = [what |-> "restart"]
           /\ UNCHANGED <<srv, begun, ticks, lied>>

Next == BeginOp \/ Query \/ Paid \/ Lie \/ Raw \/ Upload \/ Ticking \/ Restart
Spec == Init /\ [][Next]_vars

(* ------------------------- the properties ----------------------------- *)
\* S01
Conservation ==
    /\ wal.avail \cup wal.use \cup wal.inv \cup wal.gone = Tokens
    /\ Cardinality(wal.avail) + Cardinality(wal.use) + Cardinality(wal.inv)
        + Cardinality(wal.gone) = Cardinality(Tokens)
    /\ wal.use = UNION {Rng(ops[k].toks) : k \in DOMAIN ops}
    /\ \A j, k \in DOMAIN ops : j # k => Rng(ops[j].toks) \cap Rng(ops[k].toks) = {}
OnlyBadRejected == ~lied => wal.inv \subseteq Bad
GoneWasSpent == wal.gone \subseteq DOMAIN srv.spent \cup Bad

Served == last.what \in {"paid", "raw"} /\ last.mode # "lostreq"
Succeeded == Served /\ last.rep.k = "ok"
\* S02
NeverInvalid == \A x \in DOMAIN srv.spent : x \notin Bad
\* S03: what was gained, in passes, is not more than was paid.
Gain(b, s) ==
    LET K == DOMAIN s.sh
        G == [k \in K |->
                LET new == s.sh[k]
                    old == IF k \in DOMAIN b.sh THEN b.sh[k]
                           ELSE [new EXCEPT !.ls = Empty, !.sz = 0]
                IN IF ~Active(new, s.now) THEN 0
                   ELSE IF ~Active(old, s.now) THEN Price(s.pv, new.sz)
                   ELSE IF LastExpiry(new) > LastExpiry(old) THEN Price(s.pv, new.sz)
                   ELSE Price(s.pv, new.sz) - Price(s.pv, old.sz)]
        I == DOMAIN s.inc \ DOMAIN b.inc
    IN SumOver([k \in K |-> G[k]], K) + SumOver([k \in I |-> Price(s.pv, s.inc[k].sz)], I)
PaidFor == Served => Gain(last.before, srv) <= Len(Valid(last.ps))
TrueNumbers ==
    (Served /\ last.rep.k = "mpr") =>
        /\ last.rep.v = Cardinality({i \in DOMAIN last.ps : last.ps[i].ok})
        /\ last.rep.v < last.rep.r
        /\ last.rep.f = {i - 1 : i \in {j \in DOMAIN last.ps : ~last.ps[j].ok}}
\* S04
RefusedNothing == (Served /\ last.rep.k # "ok") => srv = last.before
\* S05: against a server that did not change since it was asked, one attempt is enough.
Agreed ==
    (last.what = "paid" /\ last.mode = "ok" /\ last.rep.k = "mpr"
        /\ last.seen = Seen(last.before, last.a))
        => \E i \in DOMAIN last.ps : ~last.ps[i].ok
Exact ==
    \A k \in DOMAIN ops :
        (ops[k].m \in {"alloc", "lease", "write"} /\ ops[k].seen = Seen(srv, ops[k].a))
            => Len(ops[k].toks) = OpPrice(srv, ops[k].a)
\* S06
Granted ==
    Served => \A k \in DOMAIN srv.sh : \A x \in DOMAIN srv.sh[k].ls :
        \/ k \in DOMAIN last.before.sh /\ x \in DOMAIN last.before.sh[k].ls
             /\ last.before.sh[k].ls[x] = srv.sh[k].ls[x]
        \/ /\ Succeeded /\ x = last.a.sec /\ k[1] = last.a.si
           /\ srv.sh[k].ls[x] = srv.now + Period
LeasesStay ==
    Served => \A k \in DOMAIN last.before.sh :
        k \in DOMAIN srv.sh /\ \A x \in DOMAIN last.before.sh[k].ls :
            x \in DOMAIN srv.sh[k].ls /\ srv.sh[k].ls[x] >= last.before.sh[k].ls[x]
\* A stored share always came with at least one period of storage.
EveryShareLeased == \A k \in DOMAIN srv.sh : srv.sh[k].sz = 0 \/ srv.sh[k].ls # Empty
\* S08
Recording ==
    Served => LET new == Len(srv.obs) - Len(last.before.obs)
                  cost == SumOver(srv.spent, DOMAIN srv.spent)
                          - SumOver(last.before.spent, DOMAIN last.before.spent)
              IN IF Succeeded
                 THEN /\ new = 1
                      /\ srv.obs[Len(srv.obs)] <= Len(Valid(last.ps))
                      /\ cost <= Len(Valid(last.ps))
                      /\ cost >= srv.obs[Len(srv.obs)]
                 ELSE new = 0 /\ cost = 0
=============================================================================
