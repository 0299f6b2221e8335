------------------------------- MODULE Schema -------------------------------
(* The wallet database: what earlier versions of it could say, how it is    *)
(* brought up to date, and what has to be the same afterwards.              *)
(*                                                                          *)
(* A database: [ver |-> its version,                                        *)
(*   V |-> voucher |-> [st |-> "pending", "redeemed" or "double-spend",     *)
(*                      cre, fin |-> times, cnt |-> tokens received,        *)
(*                      key |-> issuer's key, ctr |-> next group to redeem, *)
(*                      exp |-> expected tokens]                            *)
(*   rnd |-> random tokens [v, g |-> group, t],                             *)
(*   tok |-> unspent tokens [t, gr |-> redemption group],                   *)
(*   inv |-> invalid tokens [t, why],                                       *)
(*   G |-> redemption groups: id |-> [v, key, sp |-> may be spent],         *)
(*   lm |-> maintenance runs <<[s, f |-> times, n]>>,                       *)
(*   ev |-> recorded changes <<[n, stmt, imp, args]>>]                      *)
(* Times are [at |-> the moment, zone |-> whether it says what time zone    *)
(* it is in]; those that do not are in the local one.  0: not yet.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Latest == 10
MadeUp == 32768
At(t, marked) == [at |-> t, zone |-> marked]
Mark(x) == [x EXCEPT !.zone = TRUE]

(* -- one version at a time ------------------------------------------------ *)
Began(d) == {v \in DOMAIN d.V : d.V[v].st = "redeemed" \/ d.V[v].ctr > 0}
RECURSIVE Numbered(_)
Numbered(S) == IF S = {} THEN <<>> ELSE LET v == CHOOSE v \in S : TRUE IN <<v>> \o Numbered(S \ {v})
Upgrade(d) ==
    LET x == CASE d.ver = 1 -> [d EXCEPT !.V = [v \in DOMAIN @ |-> [@[v] EXCEPT !.key = "none"]]]
               [] d.ver = 2 -> [d EXCEPT !.V = [v \in DOMAIN @ |-> [@[v] EXCEPT !.ctr = 0]]]
               [] d.ver = 3 -> [d EXCEPT !.V = [v \in DOMAIN @ |-> [@[v] EXCEPT !.exp = MadeUp]],
                                         !.rnd = {[r EXCEPT !.g = 0] : r \in @}]
               [] d.ver = 4 -> [d EXCEPT !.inv = {}]
               [] d.ver = 5 -> LET N == Numbered(Began(d))
                               IN  [d EXCEPT !.G = [i \in 1..Len(N) |-> [v |-> N[i], key |-> d.V[N[i]].key, sp |-> TRUE]],
                                             !.tok = {[r EXCEPT !.gr = 1] : r \in @}]
               [] d.ver = 6 -> [d EXCEPT !.ev = <<>>]
               [] d.ver = 7 -> [d EXCEPT !.V = [v \in DOMAIN @ |-> [@[v] EXCEPT !.cre = Mark(@)]],
                                         !.lm = [i \in DOMAIN @ |-> [@[i] EXCEPT !.s = Mark(@), !.f = Mark(@)]]]
               [] d.ver = 8 -> [d EXCEPT !.ev = [i \in DOMAIN @ |-> [@[i] EXCEPT !.args = <<>>]]]
               [] OTHER -> [d EXCEPT !.V = [v \in DOMAIN @ |-> [@[v] EXCEPT !.fin = Mark(@)]]]
    IN  [x EXCEPT !.ver = @ + 1]

(* -- what a database is worth, whatever its version ----------------------- *)
Spendable(d) == IF d.ver < 6 THEN {r.t : r \in d.tok}
                ELSE {r.t : r \in {x \in d.tok : x.gr \in DOMAIN d.G /\ d.G[x.gr].sp}}
Ended(d) == {i \in DOMAIN d.lm : d.lm[i].f.at > 0}
Last(d) == IF Ended(d) = {} THEN <<>>
           ELSE LET i == CHOOSE i \in Ended(d) : \A j \in Ended(d) : d.lm[j].f.at <= d.lm[i].f.at
                IN  <<[s |-> d.lm[i].s.at, f |-> d.lm[i].f.at, n |-> d.lm[i].n]>>
Value(d) ==
    [V |-> [v \in DOMAIN d.V |->
              LET x == d.V[v]
              IN  [st |-> x.st, cre |-> x.cre.at,
                   fin |-> IF x.st = "pending" THEN 0 ELSE x.fin.at,
                   cnt |-> IF x.st = "redeemed" THEN x.cnt ELSE 0,
                   had |-> x.cnt,
                   ctr |-> IF d.ver < 3 THEN 0 ELSE x.ctr,
                   exp |-> IF d.ver < 4 THEN MadeUp ELSE x.exp]],
     rnd |-> IF d.ver < 4 THEN {[r EXCEPT !.g = 0] : r \in d.rnd} ELSE d.rnd,
     free |-> Spendable(d),
     inv |-> IF d.ver < 5 THEN {} ELSE d.inv,
     last |-> Last(d),
     ev |-> IF d.ver < 7 THEN <<>>
            ELSE IF d.ver < 9 THEN [i \in DOMAIN d.ev |-> [d.ev[i] EXCEPT !.args = <<>>]] ELSE d.ev]
\* Every time says what it means.
Clear(d) == /\ \A v \in DOMAIN d.V : d.V[v].cre.zone /\ (d.V[v].fin.at > 0 => d.V[v].fin.zone)
            /\ \A i \in DOMAIN d.lm : d.lm[i].s.zone /\ (d.lm[i].f.at > 0 => d.lm[i].f.zone)

(* -- what a wallet that is up to date is used for (on Value) --------------- *)
Shown(x) == [st |-> x.st, cre |-> x.cre, fin |-> x.fin, cnt |-> x.cnt, ctr |-> x.ctr, exp |-> x.exp]
Spend(w, T) == [w EXCEPT !.free = @ \ T]
Invalid(w, T, why) == [w EXCEPT !.free = @ \ T, !.inv = @ \cup {[t |-> t, why |-> why] : t \in T}]
Redeem(w, v, T, t) ==
    [w EXCEPT !.V[v].st = "redeemed", !.V[v].fin = t, !.V[v].cnt = w.V[v].had + Cardinality(T),
              !.V[v].had = @ + Cardinality(T), !.V[v].ctr = @ + 1,
              !.rnd = {r \in @ : r.v # v \/ r.g # w.V[v].ctr},
              !.free = @ \cup T]
Double(w, v, t) == [w EXCEPT !.V[v].st = "double-spend", !.V[v].fin = t]
Maintain(w, n, s, f) == [w EXCEPT !.last = <<[s |-> s, f |-> f, n |-> n]>>]
=============================================================================
