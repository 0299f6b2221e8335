----------------------------- MODULE SchemaGen ------------------------------
(* Random wallets of earlier versions and what happens to them, written out *)
(* as schedules for the real database (harness/upgrade.py).                 *)
EXTENDS Schema, Json
CONSTANTS Depth
VARIABLES d, hist

R(S) == RandomElement(S)
Names == {"v0", "v1", "v2", "v3"}
Day == 86400
\* Summer and winter; not when the clocks change.
Times == {10 * Day + 1, 20 * Day + 82800, 60 * Day, 150 * Day + 3, 151 * Day - 1, 200 * Day + 79200, 300 * Day + 7}
Now == 400 * Day
Maybe(p) == R(1..10) <= p

Fin(ver, st, old) == IF st = "pending" THEN At(0, TRUE) ELSE At(R(Times), ver >= 10 \/ (ver >= 8 /\ ~old))
\* Progress is kept since the third version.
Pend(ver, k) == IF ver < 3 \/ k = 0
                THEN [st |-> "pending", cre |-> At(R(Times), ver >= 8), fin |-> At(0, TRUE), cnt |-> 0,
                      key |-> "", ctr |-> 0, exp |-> R({1, 7, 100})]
                ELSE [st |-> "pending", cre |-> At(R(Times), ver >= 8), fin |-> At(R(Times), ver >= 10), cnt |-> 3 * k,
                      key |-> "key", ctr |-> k, exp |-> R({7, 100})]
Over(ver, st) == [st |-> st, cre |-> At(R(Times), ver >= 8), fin |-> Fin(ver, st, Maybe(5)),
                  cnt |-> IF st = "redeemed" THEN R({1, 5, 100}) ELSE 0, key |-> IF st = "redeemed" THEN "key" ELSE "",
                  ctr |-> IF st = "redeemed" THEN R(1..3) ELSE IF ver < 3 THEN 0 ELSE R({0, 0, 2}), exp |-> R({7, 100})]
OneVoucher(ver) == \* (the parameter makes sure that it is another one every time)
    LET k == R(1..10)
    IN  IF k <= 3 THEN Pend(ver, 0) ELSE IF k <= 5 THEN Pend(ver, R({1, 2}))
        ELSE IF k <= 8 THEN Over(ver, "redeemed") ELSE Over(ver, "double-spend")
Str(S, x) == S \o ToString(x)
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})

Runs(ver, k) == [i \in 1..k |-> [s |-> At(Day * 30 * i + 5, ver >= 8),
                                f |-> At(IF Maybe(2) THEN 0 ELSE Day * 30 * i + 3600 * R(1..30), ver >= 8), n |-> R(0..9)]]
Events(ver, k, from) == [i \in 1..k |-> [n |-> from + i, stmt |-> Str("UPDATE [vouchers] SET [counter] = ", i), imp |-> Maybe(5),
                                        args |-> IF ver < 9 \/ Maybe(5) THEN <<>> ELSE <<R({"a", "b"}), "c">>]]
Make(ver, N) ==
    \E V \in {[v \in N |-> OneVoucher(ver)]} :
      LET B == {v \in N : V[v].st = "redeemed" \/ V[v].ctr > 0}
      IN  \E G \in {IF B = {} THEN <<>> ELSE [i \in 1..R(1..4) |-> [id |-> 2 * i - 1, v |-> R(B), key |-> R({"key", "other"}), sp |-> Maybe(6)]]},
             k \in {IF B = {} THEN 0 ELSE R(0..5)}, m \in {R(0..3)}, l \in {R(0..4)}, e \in {R(0..3)}, f \in {R({0, 5})} :
          \E tok \in {[i \in 1..k |-> [t |-> Str("t", i), gr |-> IF ver < 6 THEN 1 ELSE G[R(1..Len(G))].id]]},
             inv \in {[i \in 1..m |-> [t |-> Str("i", i), why |-> R({"old", "bad"})]]},
             rnd \in {UNION {{[v |-> v, g |-> IF ver < 4 THEN 0 ELSE V[v].ctr, t |-> v \o Str(".", i)] : i \in 1..R(0..3)}
                               : v \in {x \in N : V[x].st = "pending"}}},
             lm \in {Runs(ver, l)}, ev \in {Events(ver, e, f)} :
            d' = [ver |-> ver, V |-> V, rnd |-> SetToSeq(rnd), tok |-> tok, inv |-> inv, G |-> G, lm |-> lm, ev |-> ev]

Log(x) == hist' = Append(hist, x)
Open == \E k \in {R(0..45)}, m \in {R({"crash", "crash", "error", "none"})} : Log(<<"open", m, k>>)
Use == \E n \in {R(1..3)}, v \in {R(Names)}, k \in {R(1..10)} :
         CASE k <= 2 -> Log(<<"spend", n>>) [] k <= 3 -> Log(<<"inval", n>>) [] k <= 6 -> Log(<<"redeem", v, n>>)
           [] k <= 7 -> Log(<<"double", v>>) [] k <= 8 -> Log(<<"maintain", n>>) [] OTHER -> Open
Pick == IF Len(hist) < 2 THEN Open ELSE Use
\* (The wallet is made up in a step, because that is different every time.)
Init == d = [ver |-> 0] /\ hist = <<>>
Emit == Len(hist') = Depth => PrintT(ToJson([d |-> d, t |-> Now, ops |-> hist']))
Next == IF d.ver = 0
        THEN (\E ver \in {R(1..Latest)}, N \in {R(SUBSET Names)} : Make(ver, N)) /\ UNCHANGED hist
        ELSE Len(hist) < Depth /\ Pick /\ UNCHANGED d /\ Emit
Spec == Init /\ [][Next]_<<d, hist>>
=============================================================================
