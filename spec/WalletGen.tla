----------------------------- MODULE WalletGen ------------------------------
(* Behaviours of Wallet, written out as schedules for the real code.        *)
(*                                                                          *)
(* Breadth first, with the history hidden by the VIEW, every transition of  *)
(* the state graph is printed along with a way to get there.  In simulation *)
(* mode, random behaviours of length Depth are.                             *)
EXTENDS Wallet, Json
CONSTANTS Vouchers, Counts, Configs, Bad, Amounts, Gettable, Depth, FaultMax, Mode
VARIABLES c, st, hist, theme

Configs1 == {[groups |-> 2, default |-> 3, keys |-> {"K"}]}
Configs2 == {[groups |-> g, default |-> 4, keys |-> {"K", "L"}] : g \in 1..3}

Fresh == {[v |-> v, g |-> g, i |-> i, t |-> <<v, g, i>>] :
             v \in Vouchers, g \in 0..3, i \in 1..11}

RECURSIVE Pick(_, _)
Pick(S, k) == IF k = 0 THEN {} ELSE LET x == CHOOSE y \in S : TRUE IN {x} \cup Pick(S \ {x}, k - 1)
Take(k) == IF k < Cardinality(st.use) THEN Pick(st.use, k) ELSE st.use

(* [name |-> what the driver is told, o |-> the operation] *)
Puts == {[name |-> <<"put", v, k>>, o |-> [op |-> "put", v |-> v, n |-> k, t |-> 0]] :
            v \in Vouchers, k \in Counts}
Ticks == {[name |-> <<"tick">>, o |-> [op |-> "tick", t |-> 0]]}
Answers ==
    {[name |-> <<"ans", v, k, "">>,
      o |-> [op |-> "ans", v |-> v, kind |-> k, key |-> "", d |-> "", t |-> 0]] :
         v \in Active(st), k \in {"unpaid", "error", "spent"}}
    \cup {[name |-> <<"ans", v, "ok", k>>,
           o |-> [op |-> "ans", v |-> v, kind |-> "ok", key |-> k, d |-> "", t |-> 0]] :
         v \in Active(st), k \in c.keys \cup Bad}
Gets == {[name |-> <<"get", k>>,
          o |-> [op |-> "get", t |-> 0,
                 toks |-> IF k <= Cardinality(Avail(st)) THEN Pick(Avail(st), k) ELSE {}]] :
            k \in Gettable}
Disposals ==
    IF st.use = {} THEN {}
    ELSE {[name |-> <<f, k, e>>, o |-> [op |-> f, t |-> 0, toks |-> Take(k)]] :
            f \in {"spend", "inval", "reset"}, k \in Amounts, e \in BOOLEAN}
Restart == {[name |-> <<"restart">>, o |-> [op |-> "stop", t |-> 0]]}

Up(s) == Final(c, s, [op |-> "boot", t |-> 0], Fresh)
Settle(s) == [(IF s.up THEN s ELSE Up(s)) EXCEPT !.subs = {}, !.issued = {}, !.first = Empty]

Do(x) == /\ st' = Settle(Final(c, st, x.o, Fresh))
         /\ hist' = Append(hist, x.name)

Fail(x, n, f) ==
    /\ ~(x.o.op \in {"tick", "stop"} /\ f = "error")
    /\ \E m \in Micros(c, st, x.o, Fresh) :
         st' = Settle(IF f = "crash" THEN Down(m) ELSE m)
    /\ hist' = Append(hist, <<"fault", f, n>> \o x.name)

All == Puts \cup Ticks \cup Answers \cup Gets \cup Disposals \cup Restart

Init == \E k \in Configs : /\ c = k
                           /\ st = Settle(Boot0)
                           /\ hist = <<>>
                           /\ theme \in IF Mode = "all" THEN {"mix"} ELSE {"mix", "fail", "hand"}

Emit == (Mode = "all" \/ Len(hist') = Depth)
            => PrintT(ToJson([groups |-> c.groups, default |-> c.default,
                              keys |-> c.keys, ops |-> hist']))

Bfs == \E x \in All :
          \/ Do(x)
          \/ \E n \in 0..FaultMax, f \in {"crash", "error"} : FaultMax >= 0 /\ Fail(x, n, f)

R(S) == RandomElement(S)
Menu(k) ==
    CASE k <= 2 -> Puts
      [] k <= 7 -> LET A == {x \in Answers : x.o.kind = "ok"}
                   IN  IF A = {} THEN Puts \cup Ticks ELSE A
      [] k <= 9 -> IF Answers = {} THEN Ticks ELSE Answers
      [] k <= 11 -> Ticks
      [] k <= 14 -> Gets
      [] k <= 17 -> IF Disposals = {} THEN Gets ELSE Disposals
      [] OTHER -> Restart
(* Several vouchers that fail in different ways, over and over. *)
Failing(k) ==
    LET A == {x \in Answers : x.o.kind \in {"unpaid", "error"}}
        P == {x \in Puts : x.o.v \notin DOMAIN st.V /\ x.o.n >= c.groups}
    IN  CASE k <= 4 -> IF P = {} THEN Ticks ELSE P
          [] k <= 13 -> IF A = {} THEN Ticks ELSE A
          [] k <= 17 -> Ticks
          [] OTHER -> Answers \cup Puts \cup Restart
(* Tokens going back and forth. *)
Handing(k) ==
    LET A == {x \in Answers : x.o.kind = "ok" /\ x.name[4] \in c.keys}
        P == {x \in Puts : x.o.v \notin DOMAIN st.V /\ x.o.n >= c.groups}
        G == {x \in Gets : x.name[2] <= 2}
        X == {x \in Disposals : x.name[2] <= 2}
    IN  IF Cardinality(Spendable(st)) < 3 /\ k # 18
        THEN IF A # {} THEN A ELSE IF P # {} THEN P ELSE Ticks
        ELSE CASE k <= 7 -> IF X = {} \/ k <= 4 THEN G ELSE {x \in X : x.o.op = "reset"}
               [] k <= 13 -> IF X = {} THEN G ELSE {x \in X : x.o.op = "reset"}
               [] k <= 16 -> IF X = {} THEN G ELSE X
               [] k <= 17 -> Gets
               [] OTHER -> Restart
Sim == \E k \in {R(1..18)} : \E x \in {R(CASE theme = "fail" -> Failing(k)
                              [] theme = "hand" -> Handing(k)
                              [] OTHER -> Menu(k))} :
          IF R(1..(IF theme = "mix" THEN 5 ELSE 15)) = 1
          THEN Fail(x, R(0..9), IF x.o.op \in {"tick", "stop"} THEN "crash"
                                ELSE R({"crash", "error"}))
          ELSE Do(x)

Next == Len(hist) < Depth /\ (IF Mode = "all" THEN Bfs ELSE Sim) /\ UNCHANGED <<c, theme>> /\ Emit
Spec == Init /\ [][Next]_<<c, st, hist, theme>>
View == <<c, st>>
=============================================================================
