------------------------------- MODULE Wallet -------------------------------
(***************************************************************************)
(* The client's wallet: vouchers, the random tokens generated for them, the *)
(* unblinded tokens redeemed for them, and the attempts of the payment      *)
(* controller at redeeming them.  (src/_zkapauthorizer/model.py,            *)
(* controller.py, spending.py)                                              *)
(*                                                                          *)
(* One state of the wallet is the record s:                                 *)
(*                                                                          *)
(*   persistent                                                             *)
(*     V      voucher |-> [st, exp, ctr, cnt, seq, fin, cre]                *)
(*     rnd    {[v, g, t]}       random tokens of group g of voucher v       *)
(*     tok    {[t, v, key, sp]} unblinded, unspent tokens                   *)
(*     inv    {t}               tokens set aside as invalid                 *)
(*   volatile                                                               *)
(*     up     is there a process                                            *)
(*     use    {t}               tokens handed out                           *)
(*     vol    voucher |-> [k, g, at, d]  the latest attempt                 *)
(*   history                                                                *)
(*     issued, spent  {t}       tokens ever accepted / spent                *)
(*     first  <<v, g>> |-> tokens of the first submission                   *)
(*     subs   {<<v, g>>}        what the latest operation submitted         *)
(*                                                                          *)
(* and the operations are functions on it:  Final(c, s, o, N) is the state  *)
(* after the whole of the operation o; Micros(c, s, o, N) are the states    *)
(* which the failure of a database statement, or the death of the process,  *)
(* somewhere during o may leave behind.  c is the configuration; N is a set *)
(* of [v, g, t, i]: the random tokens, numbered by i, that would be made for *)
(* group g of voucher v if there is need of them.                           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Empty == [x \in {} |-> x]

Boot0 == [ V |-> Empty, rnd |-> {}, tok |-> {}, inv |-> {},
           up |-> FALSE, use |-> {}, vol |-> Empty,
           issued |-> {}, spent |-> {}, first |-> Empty, subs |-> {} ]

Put(f, k, x) == (k :> x) @@ f

None == [k |-> "none", g |-> 0, at |-> 0, d |-> ""]

(* How many of a voucher's tokens belong to group g. *)
GroupSize(c, total, g) ==
    (total \div c.groups) + (IF g < total % c.groups THEN 1 ELSE 0)

Rnd(s, v, g) == {r.t : r \in {q \in s.rnd : q.v = v /\ q.g = g}}
Pending(s) == {v \in DOMAIN s.V : s.V[v].st = "pending"}
Active(s) == {v \in DOMAIN s.vol : s.vol[v].k = "active"}
Failed(s) == {v \in DOMAIN s.vol : s.vol[v].k \in {"unpaid", "error"}}
Spendable(s) == {x.t : x \in {y \in s.tok : y.sp}}
Avail(s) == Spendable(s) \ s.use

SetVol(s, v, x) == [s EXCEPT !.vol = Put(s.vol, v, x)]

(***************************************************************************)
(* The pieces.                                                              *)
(***************************************************************************)

(* One transaction: remember the voucher, and the random tokens for its     *)
(* next group unless there are some already.                                *)
Prepare(c, s, v, n, t, N) ==
    LET new == v \notin DOMAIN s.V
        s1 == IF new
              THEN [s EXCEPT !.V = Put(s.V, v, [st |-> "pending", exp |-> n,
                                                ctr |-> 0, cnt |-> 0, seq |-> 0,
                                                fin |-> 0, cre |-> t]),
                             !.vol = Put(s.vol, v, None)]
              ELSE s
        g == s1.V[v].ctr
    IN  IF Rnd(s1, v, g) # {}
        THEN s1
        ELSE [s1 EXCEPT !.rnd = s1.rnd \cup
                 {[v |-> v, g |-> g, t |-> x] :
                     x \in {p.t : p \in {q \in N : q.v = v /\ q.g = g
                                            /\ q.i <= GroupSize(c, s1.V[v].exp, g)}}}]

(* Send the random tokens of the current group to the issuer. *)
Submit(s, v, t) ==
    LET g == s.V[v].ctr
    IN  [SetVol(s, v, [k |-> "active", g |-> g, at |-> t, d |-> ""])
            EXCEPT !.subs = s.subs \cup {<<v, g>>},
                   !.first = IF <<v, g>> \in DOMAIN s.first THEN s.first
                             ELSE Put(s.first, <<v, g>>, Rnd(s, v, g))]

(* One transaction: the tokens of the current group have been redeemed. *)
Record(c, s, v, key, t) ==
    LET r == s.V[v]
        sp == key \in c.keys
        ts == Rnd(s, v, r.ctr)
        n == Cardinality(ts)
        last == r.ctr + 1 = c.groups
    IN  [s EXCEPT !.V[v] = [r EXCEPT !.ctr = r.ctr + 1,
                                     !.cnt = IF sp THEN r.cnt + n ELSE r.cnt,
                                     !.seq = IF sp THEN r.seq ELSE r.seq + n,
                                     !.st = IF last THEN "redeemed" ELSE "pending",
                                     !.fin = IF last THEN t ELSE r.fin],
                  !.vol[v] = None,
                  !.rnd = {x \in s.rnd : ~(x.v = v /\ x.g = r.ctr)},
                  !.tok = s.tok \cup {[t |-> x, v |-> v, key |-> key, sp |-> sp] : x \in ts},
                  !.issued = s.issued \cup ts]

RECURSIVE ResumeAll(_, _, _, _, _)
ResumeAll(c, s, S, t, N) ==
    IF S = {} THEN s
    ELSE LET v == CHOOSE x \in S : TRUE
         IN  ResumeAll(c, Submit(Prepare(c, s, v, 0, t, N), v, t), S \ {v}, t, N)

RECURSIVE PrepareAll(_, _, _, _, _)
PrepareAll(c, s, S, t, N) ==
    IF S = {} THEN s
    ELSE LET v == CHOOSE x \in S : TRUE
         IN  PrepareAll(c, Prepare(c, s, v, 0, t, N), S \ {v}, t, N)

Down(s) == [s EXCEPT !.up = FALSE, !.use = {}, !.subs = {},
                     !.vol = [v \in DOMAIN s.V |-> None]]

Without(s, toks) == {x \in s.tok : x.t \notin toks}

(***************************************************************************)
(* The operations.                                                          *)
(***************************************************************************)

Enabled(s, o) ==
    CASE o.op = "boot" -> ~s.up
      [] o.op = "ans" -> s.up /\ o.v \in Active(s)
      [] OTHER -> s.up

(* Will putting v, worth n tokens, begin an attempt?  A voucher worth fewer *)
(* tokens than there are groups is refused.                                 *)
Refused(c, s, v, n) == v \notin DOMAIN s.V /\ n < c.groups
PutStarts(c, s, v, n) ==
    IF v \in DOMAIN s.V THEN s.V[v].st = "pending" /\ v \notin Active(s)
    ELSE ~Refused(c, s, v, n)

Final0(c, s, o, N) ==
    CASE o.op = "boot" ->
           ResumeAll(c, [s EXCEPT !.up = TRUE], Pending(s), o.t, N)
      [] o.op = "stop" -> Down(s)
      [] o.op = "put" ->
           IF PutStarts(c, s, o.v, o.n)
           THEN Submit(Prepare(c, s, o.v, o.n, o.t, N), o.v, o.t)
           ELSE s
      [] o.op = "tick" -> ResumeAll(c, s, Failed(s), o.t, N)
      [] o.op = "ans" /\ o.kind = "ok" ->
           LET s1 == Record(c, s, o.v, o.key, o.t)
           IN  IF s1.V[o.v].st = "redeemed" THEN s1
               ELSE Submit(Prepare(c, s1, o.v, 0, o.t, N), o.v, o.t)
      [] o.op = "ans" /\ o.kind = "unpaid" ->
           SetVol(s, o.v, [k |-> "unpaid", g |-> 0, at |-> o.t, d |-> ""])
      [] o.op = "ans" /\ o.kind = "error" ->
           SetVol(s, o.v, [k |-> "error", g |-> 0, at |-> o.t, d |-> o.d])
      [] o.op = "ans" /\ o.kind = "spent" ->
           [SetVol(s, o.v, None) EXCEPT !.V[o.v].st = "double-spend",
                                        !.V[o.v].fin = o.t]
      [] o.op = "get" ->          \* toks: those the store chose
           [s EXCEPT !.use = s.use \cup o.toks]
      [] o.op = "spend" ->
           [s EXCEPT !.use = s.use \ o.toks, !.tok = Without(s, o.toks),
                     !.spent = s.spent \cup o.toks]
      [] o.op = "inval" ->
           [s EXCEPT !.use = s.use \ o.toks, !.tok = Without(s, o.toks),
                     !.inv = s.inv \cup o.toks]
      [] o.op = "reset" -> [s EXCEPT !.use = s.use \ o.toks]
      [] OTHER -> s

Final(c, s, o, N) == Final0(c, [s EXCEPT !.subs = {}], o, N)

Micros(c, s0, o, N) ==
    LET s == [s0 EXCEPT !.subs = {}]
    IN  CASE o.op = "boot" -> {PrepareAll(c, s, S, o.t, N) : S \in SUBSET Pending(s)}
          [] o.op = "tick" -> {s}
          [] o.op = "put" ->
               IF PutStarts(c, s, o.v, o.n)
               THEN {s, Prepare(c, s, o.v, o.n, o.t, N)}
               ELSE {s}
          [] o.op = "ans" /\ o.kind = "ok" ->
               LET s1 == Record(c, s, o.v, o.key, o.t)
               IN  {SetVol(s, o.v, None), s1} \cup
                   (IF s1.V[o.v].st = "redeemed" THEN {}
                    ELSE {Prepare(c, s1, o.v, 0, o.t, N)})
          [] o.op = "ans" -> {SetVol(s, o.v, None), Final(c, s, o, N)}
          [] OTHER -> {s}
        \cup (IF o.op \in {"spend", "inval", "reset", "get"} THEN {Final(c, s, o, N)} ELSE {})

(* What the wallet says about a voucher. *)
Status(s, v) ==
    LET r == s.V[v]
        x == IF v \in DOMAIN s.vol THEN s.vol[v] ELSE None
        z == [v |-> v, k |-> "", c |-> 0, at |-> 0, n |-> 0, d |-> "",
              cre |-> r.cre, exp |-> r.exp]
    IN  CASE r.st = "redeemed" -> [z EXCEPT !.k = "redeemed", !.at = r.fin, !.n = r.cnt]
          [] r.st = "double-spend" -> [z EXCEPT !.k = "double-spend", !.at = r.fin]
          [] x.k = "active" -> [z EXCEPT !.k = "redeeming", !.c = x.g, !.at = x.at]
          [] x.k = "unpaid" -> [z EXCEPT !.k = "unpaid", !.at = x.at]
          [] x.k = "error" -> [z EXCEPT !.k = "error", !.at = x.at, !.d = x.d]
          [] OTHER -> [z EXCEPT !.k = "pending", !.c = r.ctr]

(***************************************************************************)
(* What must be true of every state.                                        *)
(***************************************************************************)
TokenNames(s) == {x.t : x \in s.tok}

(* W01 *)
Conserved(s) ==
    /\ s.issued = TokenNames(s) \cup s.spent \cup s.inv
    /\ TokenNames(s) \cap s.spent = {}
    /\ TokenNames(s) \cap s.inv = {}
    /\ s.spent \cap s.inv = {}
    /\ \A x, y \in s.tok : x.t = y.t => x = y

(* W02 *)
Identical(s) ==
    /\ \A q \in DOMAIN s.first :
         s.V[q[1]].st = "pending" /\ s.V[q[1]].ctr = q[2]
             => Rnd(s, q[1], q[2]) = s.first[q]
    /\ \A x, y \in s.rnd : x.t = y.t => x = y
    /\ {x.t : x \in s.rnd} \cap s.issued = {}
    /\ \A p, q \in DOMAIN s.first : p # q => s.first[p] \cap s.first[q] = {}

RECURSIVE SumTo(_, _, _)
SumTo(c, total, n) == IF n = 0 THEN 0 ELSE GroupSize(c, total, n - 1) + SumTo(c, total, n - 1)

(* W03 *)
Grouped(c, s) ==
    \A v \in DOMAIN s.V :
        LET r == s.V[v]
        IN  /\ r.ctr \in 0..c.groups
            /\ r.cnt + r.seq = SumTo(c, r.exp, r.ctr)
            /\ r.st = "redeemed" <=> r.ctr = c.groups
            /\ r.st = "redeemed" => r.cnt + r.seq = r.exp
            /\ \A x \in s.rnd : x.v = v => x.g = r.ctr
            /\ \A g, h \in 0..(c.groups - 1) :
                 GroupSize(c, r.exp, g) - GroupSize(c, r.exp, h) \in -1..1

(* W05 *)
AttemptsOk(s) ==
    /\ \A v \in Active(s) : s.up /\ s.V[v].st = "pending" /\ s.vol[v].g = s.V[v].ctr
    /\ \A v \in Failed(s) : s.V[v].st = "pending"

(* W06, W07 *)
Exclusive(c, s) ==
    /\ s.use \subseteq Spendable(s)
    /\ \A x \in s.tok : x.sp <=> x.key \in c.keys
    /\ s.use \cap (s.spent \cup s.inv) = {}

(* And of every step. *)
StepOk(s, n) ==
    /\ \A v \in DOMAIN s.V :
         /\ v \in DOMAIN n.V
         /\ n.V[v].exp = s.V[v].exp /\ n.V[v].cre = s.V[v].cre
         /\ n.V[v].ctr \in {s.V[v].ctr, s.V[v].ctr + 1}
         /\ s.V[v].st # "pending" => n.V[v] = s.V[v]
    /\ \A q \in n.subs : s.up \/ n.up
    /\ \A q \in n.subs : q[1] \in DOMAIN s.V =>
         s.V[q[1]].st = "pending" /\ q[2] >= s.V[q[1]].ctr
    /\ TokenNames(s) \ TokenNames(n) \subseteq n.spent \cup n.inv
    /\ s.spent \subseteq n.spent /\ s.inv \subseteq n.inv
    /\ \A v \in DOMAIN s.V : \A g \in 0..100 :
         Rnd(s, v, g) # {} => Rnd(n, v, g) = Rnd(s, v, g) \/ n.V[v].ctr > g
=============================================================================
