-------------------------------- MODULE Http --------------------------------
(* The management interface of a node: what it answers about the vouchers,  *)
(* the tokens and the lease maintenance of the wallet behind it, and what   *)
(* requests do to them.                                                     *)
(*                                                                          *)
(* c : [default |-> tokens per voucher, groups |-> groups they come in,     *)
(*      keys |-> keys of the issuer that are approved of,                   *)
(*      needed, shares |-> erasure coding, pass |-> bytes per pass,         *)
(*      period |-> seconds]                                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Empty == [x \in {} |-> 0]
Put(f, k, x) == (k :> x) @@ f
None == [k |-> "none", at |-> 0, d |-> ""]

Start == [up |-> FALSE,
          V |-> Empty,        \* voucher |-> what the database says of it
          vol |-> Empty,      \* voucher |-> the latest attempt at redeeming it
          free |-> 0,         \* tokens that can be spent
          held |-> 0,         \* tokens signed with a key not approved of
          used |-> 0,         \* tokens handed out
          run |-> <<>>,       \* passes counted by maintenance that is going on
          done |-> <<>>,      \* what the latest finished maintenance found
          repl |-> 0,         \* how often replication was set up
          token |-> 1,        \* which authorization token is the right one
          subs |-> <<>>]      \* what the latest step sent to the issuer

GroupSize(c, total, g) == (total \div c.groups) + (IF g < total % c.groups THEN 1 ELSE 0)

SetVol(s, v, x) == [s EXCEPT !.vol = Put(s.vol, v, x)]
Pending(s) == {v \in DOMAIN s.V : s.V[v].st = "pending"}
Active(s) == {v \in DOMAIN s.vol : s.vol[v].k = "active"}
Failed(s) == {v \in DOMAIN s.vol : s.vol[v].k \in {"unpaid", "error"}}

(* An attempt at redeeming the next tokens of a voucher begins. *)
Submit(c, s, v, t) ==
    LET g == s.V[v].ctr
    IN  [SetVol(s, v, [k |-> "active", at |-> t, d |-> ""])
            EXCEPT !.subs = Append(@, [v |-> v, g |-> g, n |-> GroupSize(c, s.V[v].exp, g)])]

RECURSIVE SubmitAll(_, _, _, _)
SubmitAll(c, s, S, t) ==
    IF S = {} THEN s
    ELSE LET v == CHOOSE x \in S : TRUE IN SubmitAll(c, Submit(c, s, v, t), S \ {v}, t)

New(c, t) == [st |-> "pending", exp |-> c.default, ctr |-> 0, cnt |-> 0, fin |-> 0, cre |-> t]
Known(c, s, v, t) ==
    IF v \in DOMAIN s.V THEN s
    ELSE [s EXCEPT !.V = Put(@, v, New(c, t)), !.vol = Put(@, v, None)]

Quiet(s) == [s EXCEPT !.subs = <<>>]

(* -- what happens to the wallet ------------------------------------------ *)
Boot(c, s, t) == SubmitAll(c, [Quiet(s) EXCEPT !.up = TRUE], Pending(s), t)
Crash(s) == [Quiet(s) EXCEPT !.up = FALSE, !.free = @ + s.used, !.used = 0, !.run = <<>>,
                             !.vol = [v \in DOMAIN s.V |-> None]]
Tick(c, s, t) == SubmitAll(c, s, Failed(s), t)

\* n groups of tokens in a row are redeemed, under the given key
RECURSIVE Redeem(_, _, _, _, _, _)
Redeem(c, s, v, key, n, t) ==
    IF n = 0 \/ v \notin Active(s) THEN s
    ELSE LET r == s.V[v]
             m == GroupSize(c, r.exp, r.ctr)
             ok == key \in c.keys
             last == r.ctr + 1 = c.groups
             x == [s EXCEPT !.V[v] = [r EXCEPT !.ctr = @ + 1,
                                               !.cnt = IF ok THEN @ + m ELSE @,
                                               !.st = IF last THEN "redeemed" ELSE "pending",
                                               !.fin = IF last THEN t ELSE @],
                            !.vol[v] = None,
                            !.free = IF ok THEN @ + m ELSE @,
                        !.held = IF ok THEN @ ELSE @ + m]
         IN  IF last THEN x ELSE Redeem(c, Submit(c, x, v, t), v, key, n - 1, t)

Fail(s, v, kind, d, t) ==
    IF v \notin Active(s) THEN s
    ELSE CASE kind = "spent" -> [SetVol(s, v, None) EXCEPT !.V[v].st = "double-spend", !.V[v].fin = t]
           [] kind = "unpaid" -> SetVol(s, v, [k |-> "unpaid", at |-> t, d |-> ""])
           [] OTHER -> SetVol(s, v, [k |-> "error", at |-> t, d |-> d])

Take(s, n) == IF n > s.free THEN s ELSE [s EXCEPT !.free = @ - n, !.used = @ + n]
Spend(s, n) == [s EXCEPT !.used = @ - n]
GiveBack(s, n) == [s EXCEPT !.used = @ - n, !.free = @ + n]

(* -- lease maintenance --------------------------------------------------- *)
Ceil(a, b) == (a + b - 1) \div b
RECURSIVE Sum(_)
Sum(x) == IF x = <<>> THEN 0 ELSE Head(x) + Sum(Tail(x))
Passes(c, sizes) == Sum([i \in 1..Len(sizes) |-> Ceil(sizes[i], c.pass)])

Maintain(s, t) == [s EXCEPT !.run = <<[since |-> t, n |-> 0]>>]
Observe(c, s, sizes) == IF s.run = <<>> THEN s ELSE [s EXCEPT !.run[1].n = @ + Passes(c, sizes)]
Finish(s, t) == IF s.run = <<>> THEN s ELSE [s EXCEPT !.run = <<>>, !.done = <<[since |-> s.run[1].since, at |-> t, n |-> s.run[1].n]>>]

(* -- requests ------------------------------------------------------------ *)
Allowed(s, r) == r.auth = s.token

(* Adding a voucher begins an attempt at redeeming it, unless there is one  *)
(* or there is no need of one.                                              *)
Add(c, s, v, t) ==
    LET x == Known(c, s, v, t)
    IN  IF x.V[v].st = "pending" /\ v \notin Active(x) THEN Submit(c, x, v, t) ELSE x

(* If the database fails it may have been remembered nevertheless. *)
AddTrouble(c, s, v, t) == {s, Known(c, s, v, t), Add(c, s, v, t)}

Request(c, s, r, t) ==
    CASE ~Allowed(s, r) -> s
      [] r.what = "put" -> Add(c, s, r.v, t)
      [] r.what = "setup" -> [s EXCEPT !.repl = @ + 1]
      [] OTHER -> s

(* What the wallet says about a voucher. *)
Status(s, v) ==
    LET r == s.V[v]
        x == s.vol[v]
        z == [v |-> v, k |-> "", c |-> 0, at |-> 0, n |-> 0, d |-> "", cre |-> r.cre, exp |-> r.exp]
    IN  CASE r.st = "redeemed" -> [z EXCEPT !.k = "redeemed", !.at = r.fin, !.n = r.cnt]
          [] r.st = "double-spend" -> [z EXCEPT !.k = "double-spend", !.at = r.fin]
          [] x.k = "active" -> [z EXCEPT !.k = "redeeming", !.c = r.ctr, !.at = x.at]
          [] x.k = "unpaid" -> [z EXCEPT !.k = "unpaid", !.at = x.at]
          [] x.k = "error" -> [z EXCEPT !.k = "error", !.at = x.at, !.d = x.d]
          [] OTHER -> [z EXCEPT !.k = "pending", !.c = r.ctr]

(* The price of files of the given sizes.  A size is <<m, r>>: r bytes and  *)
(* m times as much as costs a milliard passes per share.  The price is      *)
(* <<milliards, rest>>.                                                     *)
Price(c, sizes) ==
    << Sum([i \in 1..Len(sizes) |-> c.shares * sizes[i][1]]),
       Sum([i \in 1..Len(sizes) |-> c.shares * Ceil(Ceil(sizes[i][2], c.needed), c.pass)]) >>

(* What is answered, if all is well. *)
Answer(c, s, r) ==
    LET z == [code |-> 200, vs |-> {}, n |-> 0, last |-> <<>>, price |-> <<0, 0>>]
    IN  CASE ~Allowed(s, r) -> [z EXCEPT !.code = 401]
          [] r.what = "get" -> IF r.v \in DOMAIN s.V THEN [z EXCEPT !.vs = {Status(s, r.v)}]
                               ELSE [z EXCEPT !.code = 404]
          [] r.what = "list" -> [z EXCEPT !.vs = {Status(s, v) : v \in DOMAIN s.V}]
          [] r.what = "maint" -> [z EXCEPT !.n = s.free, !.last = s.done]
          [] r.what = "price" -> [z EXCEPT !.price = Price(c, r.sizes)]
          [] r.what = "setup" -> [z EXCEPT !.code = 201]
          [] r.what = "ws" -> [z EXCEPT !.code = 101]
          [] r.what \in {"bad", "method"} -> [z EXCEPT !.code = 400]     \* or another client error
          [] r.what = "nopath" -> [z EXCEPT !.code = 404]
          [] OTHER -> z
=============================================================================
