------------------------------ MODULE WalletMC ------------------------------
(* Exhaustive exploration of Wallet with small constants. *)
EXTENDS Wallet
CONSTANTS Vouchers, Counts, Groups, Default, Good, Bad, MaxOps, Faulty, MaxGet
VARIABLES st, kind, n
vars == <<st, kind, n>>

C == [groups |-> Groups, default |-> Default, keys |-> Good]
Fresh == {[v |-> v, g |-> g, i |-> i, t |-> <<v, g, i>>] :
             v \in Vouchers, g \in 0..(Groups - 1), i \in 1..10}

(* With MaxOps = 0 time stands still and everything is explored; otherwise *)
(* time is the number of operations. *)
T == IF MaxOps = 0 THEN 0 ELSE n

Ops(s) ==
    {[op |-> "put", v |-> v, n |-> k, t |-> T] : v \in Vouchers, k \in Counts}
    \cup {[op |-> "tick", t |-> T]}
    \cup {[op |-> "ans", v |-> v, kind |-> k, key |-> "", d |-> "", t |-> T] :
              v \in Active(s), k \in {"unpaid", "error", "spent"}}
    \cup {[op |-> "ans", v |-> v, kind |-> "ok", key |-> k, d |-> "", t |-> T] :
              v \in Active(s), k \in Good \cup Bad}
    \cup UNION {{[op |-> "get", toks |-> S, t |-> T] :
                    S \in {X \in SUBSET Avail(s) : Cardinality(X) = k}} : k \in 1..MaxGet}
    \cup {[op |-> f, toks |-> S, t |-> T] :
              f \in {"spend", "inval", "reset"}, S \in (SUBSET s.use) \ {{}}}
    \cup {[op |-> "stop", t |-> T]}

KindOps(s) ==
    {o \in Ops(s) : \/ o.op = "tick"
                    \/ o.op = "ans" /\ o.kind = "ok"}

Init == st = Boot0 /\ kind = FALSE /\ n = 0

Tick1 == IF MaxOps = 0 THEN n' = n ELSE n < MaxOps /\ n' = n + 1

Operate ==
    /\ st.up
    /\ ~kind
    /\ \E o \in Ops(st) :
         /\ Enabled(st, o)
         /\ \/ st' = Final(C, st, o, Fresh)
            \/ Faulty /\ \E m \in Micros(C, st, o, Fresh) : st' = Down(m)
            \/ Faulty /\ o.op # "tick" /\ st' \in Micros(C, st, o, Fresh)
    /\ Tick1
    /\ UNCHANGED kind

BootOp == [op |-> "boot", t |-> T]
Start ==
    /\ ~st.up
    /\ \/ st' = Final(C, st, BootOp, Fresh)
       \/ Faulty /\ ~kind /\ \E m \in Micros(C, st, BootOp, Fresh) : st' = Down(m)
    /\ Tick1
    /\ UNCHANGED kind

(* From some time on the issuer is kind and nothing fails. *)
BeKind == ~kind /\ kind' = TRUE /\ UNCHANGED <<st, n>>
KindTick == kind /\ st.up /\ Tick1
            /\ st' = Final(C, st, [op |-> "tick", t |-> T], Fresh) /\ UNCHANGED kind
KindAnswer == /\ kind /\ st.up /\ Tick1 /\ UNCHANGED kind
              /\ \E v \in Active(st), k \in Good :
                   st' = Final(C, st, [op |-> "ans", v |-> v, kind |-> "ok", key |-> k,
                                       d |-> "", t |-> T], Fresh)

Next == Operate \/ Start
Spec == Init /\ [][Next]_vars

NextLive == Operate \/ Start \/ BeKind \/ KindTick \/ KindAnswer
Live == Init /\ [][NextLive]_vars /\ WF_vars(KindTick) /\ WF_vars(KindAnswer) /\ WF_vars(Start)

InvW01 == Conserved(st)
InvW02 == Identical(st)
InvW03 == Grouped(C, st)
InvW05 == AttemptsOk(st)
InvW06 == Exclusive(C, st)
Steps == [][StepOk(st, st')]_vars

(* W05: unresolved vouchers eventually get redeemed. *)
Resolves == \A v \in Vouchers :
    (kind /\ v \in Pending(st)) ~> (v \in DOMAIN st.V /\ st.V[v].st = "redeemed")
=============================================================================
