------------------------------ MODULE Storage -------------------------------
(* Paying for storage: the storage server that demands passes, the storage   *)
(* client that presents them, and the network in between.  Purely functional: *)
(* StorageMC makes a state machine of it, StorageGen generates schedules from *)
(* it and StorageTrace checks what the real code did against it.              *)
(*                                                                            *)
(* Server: [now, pv, ro, sh, inc, spent, obs]                                 *)
(*   sh    <<storage index, share number>> -> share                           *)
(*         share: [k "imm"|"mut", sz, d (the bytes), we, ls (secret -> expiry)] *)
(*   inc   shares being uploaded: [sz, d, sec, exp, dl (abort deadline)]       *)
(*   spent how often each pass was recorded as spent; obs what the histogram saw *)
(* A pass: [n name, ok whether it has the server's signature and is bound to  *)
(* this operation at this storage index].                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Period == 2678400          \* 31 days
UploadTimeout == 1800
NoLength == -1
Empty == [x \in {} |-> 0]

Max2(a, b) == IF a > b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Rng(f) == {f[i] : i \in DOMAIN f}
Ceil(a, b) == (a + b - 1) \div b

RECURSIVE SumOver(_, _)
SumOver(f, S) ==
    IF S = {} THEN 0
    ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})

(* ------------------------------ prices -------------------------------- *)
Price(pv, sz) == Ceil(sz, pv)
\* What a user is told the storage of files of these sizes costs.
\* The size of a file is q times the data that one pass per share pays for, and
\* r more bytes: it may be more than TLC can count to.
FilePrice(needed, total, pv, size) ==
    total * (size[1] + Price(pv, Ceil(size[2], needed)))
FilesPrice(needed, total, pv, sizes) ==
    SumOver([i \in DOMAIN sizes |-> FilePrice(needed, total, pv, sizes[i])],
            DOMAIN sizes)

(* ------------------------------ shares -------------------------------- *)
KeysAt(f, si) == {k \in DOMAIN f : k[1] = si}
ShareNums(srv, si) == {k[2] : k \in KeysAt(srv.sh, si)}
Active(share, now) == \E s \in DOMAIN share.ls : share.ls[s] > now
LastExpiry(share) == IF DOMAIN share.ls = {} THEN 0 ELSE SetMax(Rng(share.ls))
Renewed(share, sec, until) ==
    [share EXCEPT !.ls =
        IF sec \in DOMAIN @ THEN [@ EXCEPT ![sec] = Max2(@, until)]
        ELSE (sec :> until) @@ @]

Zeros(n) == [i \in 1..n |-> 0]
\* Write bytes at an offset, filling a hole with zeros.
Write1(d, off, bytes) ==
    LET end == off + Len(bytes)
        len == Max2(Len(d), end)
    IN [i \in 1..len |->
            IF i > off /\ i <= end THEN bytes[i - off]
            ELSE IF i <= Len(d) THEN d[i] ELSE 0]
RECURSIVE WriteAll(_, _)
WriteAll(d, dv) ==
    IF dv = <<>> THEN d ELSE WriteAll(Write1(d, Head(dv)[1], Head(dv)[2]), Tail(dv))
Read1(d, off, len) ==
    LET end == IF off + len < Len(d) THEN off + len ELSE Len(d)
    IN IF end <= off THEN <<>> ELSE SubSeq(d, off + 1, end)

(* ------------------------- mutable writes ----------------------------- *)
(* tw: a sequence of [n share number, t test vector, d data vector, nl].    *)
Implied(dv) == IF dv = <<>> THEN 0
               ELSE SetMax({dv[i][1] + Len(dv[i][2]) : i \in DOMAIN dv})
Written(tw) == {tw[i].n : i \in {j \in DOMAIN tw : tw[j].d # <<>>}}
ImpliedSize(tw, n) ==
    LET S == {i \in DOMAIN tw : tw[i].n = n}
    IN IF S = {} THEN 0 ELSE Implied(tw[CHOOSE i \in S : TRUE].d)

\* st: share number -> [sz, exp], what is known of the shares there.
WritePrice(pv, st, now, tw) ==
    LET W == Written(tw)
        T == {n \in W : n \in DOMAIN st}
        Before(n) == IF n \in T /\ st[n].exp > now THEN Price(pv, st[n].sz) ELSE 0
        After(n) == Price(pv, Max2(IF n \in T THEN st[n].sz ELSE 0, ImpliedSize(tw, n)))
    IN SumOver([n \in W |-> After(n) - Before(n)], W)

StatOf(srv, si) ==
    [n \in ShareNums(srv, si) |->
        [sz |-> srv.sh[<<si, n>>].sz, exp |-> LastExpiry(srv.sh[<<si, n>>])]]

(* ------------------------------ passes -------------------------------- *)
Valid(ps) == SelectSeq(ps, LAMBDA p : p.ok)
Names(ps) == [i \in DOMAIN ps |-> ps[i].n]
Failed(ps) == {i - 1 : i \in {j \in DOMAIN ps : ~ps[j].ok}}

Refusal(ps, price) ==
    [k |-> "mpr", v |-> Len(Valid(ps)), r |-> price, f |-> Failed(ps)]
ErrorReply == [k |-> "error", v |-> 0, r |-> 0, f |-> {}]
OkReply == [k |-> "ok", v |-> 0, r |-> 0, f |-> {}]
Recorded(spent, S) ==
    [x \in DOMAIN spent \cup S |->
        (IF x \in DOMAIN spent THEN spent[x] ELSE 0) + (IF x \in S THEN 1 ELSE 0)]
Charge(srv, ps, n, price) ==
    [srv EXCEPT !.spent = Recorded(@, Rng(Names(SubSeq(Valid(ps), 1, n)))),
                !.obs = Append(@, price)]

(* --------------------------- the server ------------------------------- *)
(* Each operation gives [srv, rep], and what else it answers.               *)
IsMutable(srv, si) == \E k \in KeysAt(srv.sh, si) : srv.sh[k].k = "mut"
IsImmutable(srv, si) == \E k \in KeysAt(srv.sh, si) : srv.sh[k].k = "imm"

\* What an operation costs right now.
OpPrice(srv, a) ==
    CASE a.m = "alloc" -> Price(srv.pv, a.size) * Cardinality(Rng(a.shs))
      [] a.m = "lease" ->
            SumOver([k \in KeysAt(srv.sh, a.si) |-> Price(srv.pv, srv.sh[k].sz)],
                    KeysAt(srv.sh, a.si))
      [] a.m = "write" -> WritePrice(srv.pv, StatOf(srv, a.si), srv.now, a.tw)

Allocate(srv, a, ps) ==
    LET need == OpPrice(srv, a)
        new == IF srv.ro THEN {}
               ELSE {n \in Rng(a.shs) : <<a.si, n>> \notin DOMAIN srv.sh
                                     /\ <<a.si, n>> \notin DOMAIN srv.inc}
        cost == Price(srv.pv, a.size) * Cardinality(new)
        share == [sz |-> a.size, d |-> IF a.big THEN <<>> ELSE Zeros(a.size),
                  sec |-> a.sec, exp |-> srv.now + Period,
                  dl |-> srv.now + UploadTimeout]
        srv2 == [srv EXCEPT !.inc = [k \in {<<a.si, n>> : n \in new} |-> share] @@ @]
        none == [already |-> {}, new |-> {}, good |-> FALSE, reads |-> Empty]
    IN IF Len(Valid(ps)) < need THEN [srv |-> srv, rep |-> Refusal(ps, need)] @@ none
       ELSE IF IsMutable(srv, a.si) THEN [srv |-> srv, rep |-> ErrorReply] @@ none
       ELSE [srv |-> Charge(srv2, ps, cost, cost), rep |-> OkReply,
             already |-> ShareNums(srv, a.si), new |-> new,
             good |-> FALSE, reads |-> Empty]

AddLease(srv, a, ps) ==
    LET need == OpPrice(srv, a)
        n == Len(Valid(ps))
        srv2 == [srv EXCEPT !.sh =
                    [k \in DOMAIN @ |->
                        IF k[1] = a.si THEN Renewed(@[k], a.sec, srv.now + Period)
                        ELSE @[k]]]
        none == [already |-> {}, new |-> {}, good |-> FALSE, reads |-> Empty]
    IN IF n < need THEN [srv |-> srv, rep |-> Refusal(ps, need)] @@ none
       ELSE [srv |-> Charge(srv2, ps, n, n), rep |-> OkReply] @@ none

TestOk(srv, si, tw) ==
    \A i \in DOMAIN tw :
        LET k == <<si, tw[i].n>>
            d == IF k \in DOMAIN srv.sh THEN srv.sh[k].d ELSE <<>>
        IN \A j \in DOMAIN tw[i].t :
                LET t == tw[i].t[j] IN Read1(d, t[1], t[2]) = t[3]

ReadsOf(srv, si, rv) ==
    [n \in ShareNums(srv, si) |->
        [j \in DOMAIN rv |-> Read1(srv.sh[<<si, n>>].d, rv[j][1], rv[j][2])]]

WriteSlot(srv, a, ps) ==
    LET none == [already |-> {}, new |-> {}, good |-> FALSE, reads |-> Empty]
        need == OpPrice(srv, a)
        n == Len(Valid(ps))
        mine == KeysAt(srv.sh, a.si)
        good == TestOk(srv, a.si, a.tw)
        vec(x) == LET S == {i \in DOMAIN a.tw : a.tw[i].n = x}
                  IN IF S = {} THEN <<>> ELSE a.tw[CHOOSE i \in S : TRUE].d
        targets == {<<a.si, a.tw[i].n>> : i \in DOMAIN a.tw}
        fresh == [k |-> "mut", sz |-> 0, d |-> <<>>, we |-> a.we, ls |-> Empty]
        old(k) == IF k \in DOMAIN srv.sh THEN srv.sh[k] ELSE fresh
        new(k) == LET d == WriteAll(old(k).d, vec(k[2]))
                  IN [old(k) EXCEPT !.d = d, !.sz = Len(d)]
        sh2 == IF good THEN [k \in targets |-> new(k)] @@ srv.sh ELSE srv.sh
        due == {k \in DOMAIN sh2 : k[1] = a.si /\ k[2] \in Written(a.tw)
                                /\ ~Active(sh2[k], srv.now)}
        sh3 == [k \in DOMAIN sh2 |->
                    IF k \in due THEN Renewed(sh2[k], a.sec, srv.now + Period)
                    ELSE sh2[k]]
    IN IF \E i \in DOMAIN a.tw : a.tw[i].nl # NoLength
       THEN [srv |-> srv, rep |-> ErrorReply] @@ none
       ELSE IF n < need THEN [srv |-> srv, rep |-> Refusal(ps, need)] @@ none
       ELSE IF IsImmutable(srv, a.si) \/ (\E k \in mine : srv.sh[k].we # a.we)
       THEN [srv |-> srv, rep |-> ErrorReply] @@ none
       ELSE [srv |-> Charge([srv EXCEPT !.sh = sh3], ps, n, need), rep |-> OkReply,
             already |-> {}, new |-> {}, good |-> good,
             reads |-> ReadsOf(srv, a.si, a.rv)]

Serve(srv, a, ps) ==
    CASE a.m = "alloc" -> Allocate(srv, a, ps)
      [] a.m = "lease" -> AddLease(srv, a, ps)
      [] a.m = "write" -> WriteSlot(srv, a, ps)

\* Shares that are being uploaded.
Fill(srv, k, off, bytes) ==
    IF k \notin DOMAIN srv.inc THEN srv
    ELSE [srv EXCEPT !.inc[k].d = Write1(@, off, bytes),
                     !.inc[k].dl = srv.now + UploadTimeout]
Close(srv, k) ==
    IF k \notin DOMAIN srv.inc THEN srv
    ELSE LET u == srv.inc[k]
             share == [k |-> "imm", sz |-> u.sz, d |-> u.d, we |-> "",
                       ls |-> (u.sec :> u.exp)]
         IN [srv EXCEPT !.sh = (k :> share) @@ @,
                        !.inc = [j \in DOMAIN @ \ {k} |-> @[j]]]
Abort(srv, K) == [srv EXCEPT !.inc = [j \in DOMAIN @ \ K |-> @[j]]]
Tick(srv, dt) ==
    LET t == srv.now + dt
    IN [srv EXCEPT !.now = t,
                   !.inc = [j \in {i \in DOMAIN @ : @[i].dl > t} |-> @[j]]]

(* --------------------------- the client ------------------------------- *)
(* Wallet: [avail, use, inv, gone], sets of passes.                         *)
(* What the client does next is a plan: call m, with passes for n; or done. *)
PlanCall(m, n) == [do |-> "call", m |-> m, n |-> n, out |-> ""]
PlanDone(out) == [do |-> "done", m |-> "", n |-> 0, out |-> out]

Pay(wal, m, n) ==
    IF Cardinality(wal.avail) < n THEN PlanDone("NotEnoughTokens") ELSE PlanCall(m, n)

Begin(wal, pv, a) ==
    CASE a.m = "alloc" -> Pay(wal, "alloc", Price(pv, a.size) * Cardinality(Rng(a.shs)))
      [] a.m = "lease" -> PlanCall("sizes", 0)
      [] a.m = "write" -> IF Written(a.tw) = {} THEN Pay(wal, "write", 0)
                          ELSE PlanCall("stat", 0)

\* st: the answer to the free query.
AfterQuery(wal, pv, now, a, st) ==
    Pay(wal, a.m,
        IF a.m = "lease"
        THEN SumOver([n \in DOMAIN st |-> Price(pv, st[n].sz)], DOMAIN st)
        ELSE WritePrice(pv, st, now, a.tw))

\* How many of the passes of a successful operation were used up.
Used(pv, a, toks, answer) ==
    IF a.m = "alloc" THEN Price(pv, a.size) * Cardinality(answer.new) ELSE Len(toks)

Return(wal, T) == [wal EXCEPT !.avail = @ \cup T, !.use = @ \ T]
SpendPasses(wal, T) == [wal EXCEPT !.gone = @ \cup T, !.use = @ \ T]
Reject(wal, T) == [wal EXCEPT !.inv = @ \cup T, !.use = @ \ T]
Take(wal, T) == [wal EXCEPT !.avail = @ \ T, !.use = @ \cup T]

\* The wallet after the answer to a paid request, and what follows.  ``keep``
\* are the passes that remain in the group.
AfterPaid(wal, pv, a, toks, n, answer) ==
    LET r == answer.rep
        all == Rng(toks)
        bad == {toks[i] : i \in {j \in DOMAIN toks : (j - 1) \in r.f}}
        rest == SelectSeq(toks, LAMBDA t : t \notin bad)
        used == Used(pv, a, toks, answer)
        spent == Rng(SubSeq(toks, 1, used))
        w2 == Reject(wal, bad)
    IN CASE r.k = "ok" ->
                [wal |-> Return(SpendPasses(wal, spent), all \ spent), keep |-> <<>>,
                 plan |-> PlanDone("ok")]
         [] r.k = "mpr" /\ r.f # {} ->
                IF Cardinality(w2.avail) < n - Len(rest)
                THEN [wal |-> Return(w2, Rng(rest)), keep |-> <<>>,
                      plan |-> PlanDone("NotEnoughTokens")]
                ELSE [wal |-> w2, keep |-> rest, plan |-> PlanCall(a.m, n)]
         [] r.k = "mpr" /\ r.f = {} ->
                [wal |-> Return(wal, all), keep |-> <<>>,
                 plan |-> PlanDone("MorePassesRequired")]
         [] OTHER ->
                [wal |-> Return(wal, all), keep |-> <<>>, plan |-> PlanDone("error")]
=============================================================================
