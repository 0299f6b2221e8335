----------------------------- MODULE StorageGen -----------------------------
(* Random behaviours of Storage, written out as schedules for the real code. *)
EXTENDS Storage, Json
CONSTANTS Depth
VARIABLES big, srv, wal, ops, funded, crafted, hist,
          focus  \* [si, n]: for n more steps something interesting may happen there

R(S) == RandomElement(S)
Ops == 1..3
Imm == {"i1", "i2"}
Mut == {"m1", "m2"}
Secrets == {"s1", "s2", "s3", "s4", "s5", "s6"}
Str(t) == t[1] \o ToString(t[2])

Base == [m |-> "alloc", si |-> "i1", shs |-> <<>>, size |-> 0, sec |-> "s1", we |-> "w1",
         tw |-> <<>>, rv |-> <<>>, big |-> big]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z
                                   IN <<x>> \o SeqOf(S \ {x})

Sizes == IF big THEN {0, 1, srv.pv, srv.pv + 1, 17, 24}
         ELSE {0, 1, srv.pv - 1, srv.pv, srv.pv + 1, 2 * srv.pv, 2 * srv.pv + 3}
Offsets == {0, 1, srv.pv - 1, srv.pv, 2 * srv.pv}
Lengths == {0, 1, 2, srv.pv, srv.pv + 1}
Bytes(n, seed) == [i \in 1..n |-> 1 + ((seed + i) % 9)]

(* ----------------------- random requests ------------------------------ *)
\* Each is a set with one element, so that it is chosen once.
Allocs == {[Base EXCEPT !.si = si, !.shs = SeqOf(S), !.size = z, !.sec = s] :
             si \in {IF R(1..25) = 1 THEN R(Mut) ELSE R(Imm)},
             S \in {R({{0}, {1}, {0, 1}, {0, 1, 2}, {2}, {}})},
             z \in {R(Sizes)}, s \in {R(Secrets)}}
Leases == {[Base EXCEPT !.m = "lease", !.si = si, !.sec = s] :
             si \in {IF focus.n > 0 THEN focus.si ELSE IF big THEN R(Imm) ELSE R(Imm \cup Mut)},
             s \in {R(Secrets)}}
Datum == << R(Offsets), Bytes(R(Lengths), R(0..8)) >>
DataOf(k) == CASE k = 0 -> <<>> [] k = 1 -> <<Datum>> [] OTHER -> <<Datum, Datum>>
TestOf(si, n, k) ==
    LET d == IF <<si, n>> \in DOMAIN srv.sh THEN srv.sh[<<si, n>>].d ELSE <<>>
        true == << <<0, 4, Read1(d, 0, 4)>> >>
    IN CASE k <= 4 -> <<>>
         [] k <= 7 -> true
         [] k = 8 -> true \o << <<1, 2, Read1(d, 1, 2)>> >>
         [] OTHER -> << <<0, 1, <<77>> >> >>
Vector(si, n) == [n |-> n, t |-> TestOf(si, n, R(1..9)), d |-> DataOf(R({0, 1, 1, 1, 2})),
                  nl |-> IF R(1..30) = 1 THEN R({0, 5}) ELSE NoLength]
ReadVecs == {<<>>, << <<0, 100>> >>, << <<1, 3>>, <<0, 0>> >>}
VectorsFor(si, S) == LET q == SeqOf(S) IN [i \in DOMAIN q |-> Vector(si, q[i])]
Writes == UNION {{[Base EXCEPT !.m = "write", !.si = si, !.sec = s, !.we = w,
                               !.tw = v, !.rv = r] :
             v \in {VectorsFor(si, R({{0}, {0}, {1}, {0, 1}, {}}))}} :
             si \in {IF focus.n > 0 THEN focus.si
                     ELSE IF R(1..25) = 1 THEN R(Imm) ELSE R(Mut)},
             s \in {R(Secrets)}, w \in {IF R(1..12) = 1 THEN "w2" ELSE "w1"},
             r \in {R(ReadVecs)}}
Requests == CASE focus.n > 0 /\ focus.si \in Mut /\ R(1..3) # 1 -> Writes
              [] focus.n > 0 -> Leases
              [] R(1..10) <= (IF big THEN 6 ELSE 3) -> Allocs
              [] big \/ R(1..5) <= 2 -> Leases
              [] OTHER -> Writes

Absurd(a) ==
    /\ a.m # "lease"
    /\ (a.si \in Mut) # (a.m = "write")
    /\ ShareNums(srv, a.si) = {}

(* --------------------------- the steps -------------------------------- *)
Do(x) == hist' = Append(hist, x)
Keep == UNCHANGED big

RECURSIVE Pick(_, _)
Pick(S, k) == IF k = 0 THEN <<>>
              ELSE LET x == CHOOSE y \in S : \A z \in S : y[2] <= z[2]
                   IN <<x>> \o Pick(S \ {x}, k - 1)
AsPasses(toks) == [i \in DOMAIN toks |-> [n |-> toks[i], ok |-> toks[i][1] = "g"]]

\* Carry out the client's plan.
Go(k, a, w, keep, plan) ==
    IF plan.do = "done"
    THEN wal' = w /\ ops' = [j \in DOMAIN ops \ {k} |-> ops[j]]
    ELSE LET extra == IF plan.n = 0 THEN <<>> ELSE Pick(w.avail, plan.n - Len(keep))
         IN /\ wal' = Take(w, Rng(extra))
            /\ ops' = (k :> [a |-> a, m |-> plan.m, n |-> plan.n, toks |-> keep \o extra]) @@ ops

Fund == \E p \in {R({"gggggg", "ggbgggg", "bgggbgg", "gg", "ggggggggg"})} :
          LET chars == [i \in 1..Len(p) |-> <<SubSeq(p, i, i), funded + i>>]
          IN /\ wal' = [wal EXCEPT !.avail = @ \cup Rng(chars)]
             /\ funded' = funded + Len(p)
             /\ Do(<<"fund", p>>)
             /\ UNCHANGED <<srv, ops, crafted>> /\ Keep

\* What a client asks for with an unsupported request is not our business.
Supported(a) == [a EXCEPT !.tw = [i \in DOMAIN @ |-> [@[i] EXCEPT !.nl = NoLength]]]
BeginOp == \E k \in {R(Ops)} : \E x \in Requests : \E a \in {Supported(x)} :
          IF k \in DOMAIN ops \/ Absurd(a) THEN Fund
          ELSE /\ Go(k, a, wal, <<>>, Begin(wal, srv.pv, a))
               /\ Do(<<"begin", k, a>>)
               /\ UNCHANGED <<srv, funded, crafted>> /\ Keep

Modes == {"ok", "lostreq", "lostrep", "junk", "lie", "cancel"}
Net == \E k \in {R(DOMAIN ops)} :
       \E mode \in {IF R(1..4) = 1 THEN R(Modes) ELSE "ok"} :
       \E lie \in {R({{}, {0}, {1}, {0, 2}, {0, 1, 2, 3, 4, 5, 6, 7, 8}})} :
         LET o == ops[k]
             paid == o.m \in {"alloc", "lease", "write"}
             F == {i \in lie : i < Len(o.toks)}
             md == IF mode = "lie" THEN <<"lie", 1, 2, SeqOf(F)>> ELSE mode
             A == IF paid /\ mode \in {"ok", "lostrep", "junk"}
                  THEN Serve(srv, o.a, AsPasses(o.toks))
                  ELSE [srv |-> srv, rep |-> [k |-> "error", v |-> 0, r |-> 0, f |-> {}],
                        new |-> {}]
             told == CASE mode = "ok" -> A
                       [] mode = "lie" -> [A EXCEPT !.rep = [k |-> "mpr", v |-> 1, r |-> 2, f |-> F]]
                       [] OTHER -> [A EXCEPT !.rep = ErrorReply]
         IN /\ srv' = A.srv
            /\ IF paid
               THEN LET X == AfterPaid(wal, srv.pv, o.a, o.toks, o.n, told)
                    IN Go(k, o.a, X.wal, X.keep, X.plan)
               ELSE IF mode # "ok" THEN Go(k, o.a, wal, <<>>, PlanDone("error"))
               ELSE Go(k, o.a, wal, <<>>,
                       AfterQuery(wal, srv.pv, srv.now, o.a, StatOf(srv, o.a.si)))
            /\ Do(<<"net", k, md>>)
            /\ UNCHANGED <<funded, crafted>> /\ Keep

\* A sequence of kinds of passes, g of them good and b bad ones.
Mixture(g, b) ==
    LET B == R({S \in SUBSET (1..(g + b)) : Cardinality(S) = b})
    IN IF b = 0 THEN [i \in 1..g |-> "g"]
       ELSE [i \in 1..(g + b) |-> IF i \in B THEN R({"k", "o", "O", "s", "p", "e", "j"}) ELSE "g"]

Raw == \E a \in Requests :
       \E d \in {R({-1, -1, -1, 0, 0, 0, 0, 1, -2})} : \E b \in {R({0, 0, 1, 1, 2, 3})} :
       LET need == OpPrice(srv, a)
           g == IF need + d < 0 THEN 0 ELSE need + d
       IN IF Absurd(a) \/ g > 20 THEN Fund
          ELSE \E kinds \in {Mixture(g, IF g > 8 THEN 0 ELSE b)} :
               /\ srv' = Serve(srv, a, [i \in DOMAIN kinds |->
                                          [n |-> <<"x", crafted + i>>, ok |-> kinds[i] = "g"]]).srv
               /\ crafted' = crafted + Len(kinds)
               /\ Do(<<"raw", kinds, a>>)
               /\ UNCHANGED <<wal, ops, funded>> /\ Keep

Uploading == IF DOMAIN srv.inc = {} THEN Raw
             ELSE \E key \in {R(DOMAIN srv.inc)} : \E w \in {R(1..8)} :
                  LET u == srv.inc[key] IN
                  /\ CASE w <= 2 /\ ~big /\ u.sz > 0 ->
                            \E n \in {R(1..u.sz)} : \E off \in {R(0..(u.sz - n))} :
                            LET old == SubSeq(u.d, off + 1, off + n)
                                bs == IF \A i \in DOMAIN old : old[i] = 0
                                      THEN Bytes(n, R(0..8)) ELSE old
                            IN \* Contradicting what was written is an error.
                               /\ srv' = IF bs = old THEN srv ELSE Fill(srv, key, off, bs)
                               /\ IF bs = old THEN UNCHANGED hist
                                  ELSE Do(<<"fill", key[1], key[2], off, bs>>)
                       [] w = 3 -> srv' = Abort(srv, {key}) /\ Do(<<"abort", key[1], key[2]>>)
                       [] OTHER -> srv' = Close(srv, key) /\ Do(<<"close", key[1], key[2]>>)
                  /\ UNCHANGED <<wal, ops, funded, crafted>> /\ Keep

Deadlines == {LastExpiry(srv.sh[k]) : k \in DOMAIN srv.sh} \cup {srv.inc[k].dl : k \in DOMAIN srv.inc}
Soon == {t - srv.now + d : t \in {x \in Deadlines : x > srv.now + 1}, d \in {-1, 0, 1}}
\* To the second around the end of the leases of some share.
Boundary == IF {k \in DOMAIN srv.sh : LastExpiry(srv.sh[k]) > srv.now + 1} = {} THEN Raw
            ELSE \E k \in {R({x \in DOMAIN srv.sh : LastExpiry(srv.sh[x]) > srv.now + 1})} :
                 \E d \in {R({-1, 0, 0, 1})} :
                 LET dt == LastExpiry(srv.sh[k]) + d - srv.now
                 IN /\ srv' = Tick(srv, dt)
                    /\ Do(<<"tick", dt>>)
                    /\ focus' = [si |-> k[1], n |-> 6]
                    /\ UNCHANGED <<wal, ops, funded, crafted>> /\ Keep
Ticking == \E dt \in {R(Soon \cup {1, 100, 1800, 100000, Period})} :
          /\ srv' = Tick(srv, dt)
          /\ Do(<<"tick", dt>>)
          /\ UNCHANGED focus
          /\ UNCHANGED <<wal, ops, funded, crafted>> /\ Keep

Free == \E x \in {CASE R(1..6) = 1 -> <<"sizes", R(Imm \cup Mut), R({<<0>>, <<1, 2>>, <<>>})>>
                    [] R(1..4) = 1 /\ ~big -> <<"readv", R(Mut), R({<<>>, <<0>>, <<1>>}), R(ReadVecs)>>
                    [] R(1..3) = 1 /\ ~big -> <<"get", R(Imm)>>
                    [] R(1..8) = 1 -> <<"version">>
                    [] R(1..8) = 1 -> <<"advise", R(Imm), 0>>
                    [] R(1..3) = 1 -> <<"price", R(1..4), R(4..10), R({1, 7, 1024, 1048576, 1000000007}),
                                       [i \in 1..R(0..3) |->
                                          <<R({0, 0, 0, 1, 8388607, 16777216, 33554432}),
                                            R({0, 1, 2, 3, 1023, 4096, 3145729, 60000001})>>]>>
                    [] OTHER -> <<"stat", <<R(Imm), R(Mut)>>>>} :
          Do(x) /\ UNCHANGED <<srv, wal, ops, funded, crafted>> /\ Keep

Rare == \E w \in {R(1..4)} :
          CASE w = 1 -> /\ srv' = Abort(srv, DOMAIN srv.inc)
                        /\ Do(<<"disc">>)
                        /\ UNCHANGED <<wal, ops, funded, crafted>> /\ Keep
            [] w = 2 -> /\ wal' = Return(wal, wal.use) /\ ops' = Empty
                        /\ Do(<<"restart">>)
                        /\ UNCHANGED <<srv, funded, crafted>> /\ Keep
            [] OTHER -> Fund

\* A random element here would be the same for all behaviours.
Init == /\ \E x \in {<<TRUE, 4>>, <<TRUE, 16>>, <<FALSE, 1>>, <<FALSE, 3>>, <<FALSE, 4>>, <<FALSE, 8>>} :
           /\ big = x[1]
           /\ srv = [now |-> 1000, pv |-> x[2], ro |-> FALSE, sh |-> Empty,
                     inc |-> Empty, spent |-> Empty, obs |-> <<>>]
        /\ wal = [avail |-> {}, use |-> {}, inv |-> {}, gone |-> {}]
        /\ ops = Empty /\ funded = 0 /\ crafted = 0 /\ hist = <<>>
        /\ focus = [si |-> "", n |-> 0]

Next ==
    /\ Len(hist) < Depth
    /\ \E w \in {IF focus.n > 0 THEN R(1..16) ELSE R(1..27)} :
         CASE w > 24 -> Boundary
           [] w <= 2 -> Fund
           [] w <= 6 -> BeginOp
           [] w <= 13 -> IF DOMAIN ops = {} THEN BeginOp ELSE Net
           [] w <= 16 -> Raw
           [] w <= 19 -> Uploading
           [] w <= 21 -> Ticking
           [] w <= 23 -> Free
           [] OTHER -> Rare
    /\ IF srv'.now > srv.now THEN TRUE ELSE focus' = [focus EXCEPT !.n = IF @ > 0 THEN @ - 1 ELSE 0]
    /\ Len(hist') = Depth => PrintT(ToJson([pv |-> srv.pv, big |-> big, ops |-> hist']))

Spec == Init /\ [][Next]_<<big, srv, wal, ops, funded, crafted, hist, focus>>
=============================================================================
