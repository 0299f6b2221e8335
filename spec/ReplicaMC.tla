----------------------------- MODULE ReplicaMC ------------------------------
EXTENDS Replica
CONSTANTS Events,    \* changes in a transaction
          Txs,       \* how many transactions
          Faults,    \* how many failures, crashes and restarts
          Disasters, \* how often the wallet is lost
          Large, Sizes, Stops
VARIABLES s, f, d

c == [large |-> Large]
Fresh(x) == [x EXCEPT !.out = <<>>]
Named(x) == IF x.cur.name = "?" THEN {[x EXCEPT !.cur.name = y, !.out = <<>>] : y \in x.cur.todo}
            ELSE {Fresh(x)}

Init == s = [Start EXCEPT !.up = TRUE, !.dir = "other" :> [t |-> "other"]] /\ f = 0 /\ d = 0

Tx == /\ s.up /\ s.k < Txs
      /\ \E i \in BOOLEAN, z \in Sizes, n \in Events :
           s' = Fresh(Transaction(c, s, [j \in 1..n |-> z], i, 0))
      /\ UNCHANGED <<f, d>>
TxFail == /\ s.up /\ s.k < Txs /\ f < Faults
          /\ \E i \in BOOLEAN : s' = Fresh(Transaction(c, s, <<0>>, i, 1))
          /\ f' = f + 1 /\ UNCHANGED d
Setup == /\ s.up /\ ~s.conf
         /\ s' = Fresh(Serve(s)) /\ UNCHANGED <<f, d>>
Good == /\ s.cur.j # "none"
        /\ \E p \in (IF s.cur.j = "consider" THEN BOOLEAN ELSE {FALSE}) :
             s' \in Named(Answer(c, s, "ok", p, "no"))
        /\ UNCHANGED <<f, d>>
Bad == /\ s.cur.j # "none" /\ f < Faults
       /\ \/ \E kind \in {"lost", "fail"} : s' \in Named(Answer(c, s, kind, FALSE, "no"))
          \/ \E tr \in {"here", "next", "after"} : s' \in Named(Answer(c, s, "ok", s.cur.j = "consider", tr))
       /\ f' = f + 1 /\ UNCHANGED d
Crash == /\ s.up /\ f < Faults
         /\ \E x \in {s, Effect(s)} : s' = Down(x)
         /\ f' = f + 1 /\ UNCHANGED d
Up == ~s.up /\ s' = Fresh(Boot(s)) /\ UNCHANGED <<f, d>>
Stop == Stops /\ s.up /\ s.svc /\ f < Faults /\ s' = Halt(s) /\ f' = f + 1 /\ UNCHANGED d
Lose == /\ HasSnapshot(s.dir) /\ d < Disasters
        /\ s' = Disaster(s) /\ d' = d + 1 /\ UNCHANGED f

Next == Tx \/ TxFail \/ Setup \/ Good \/ Bad \/ Crash \/ Up \/ Stop \/ Lose
Spec == Init /\ [][Next]_<<s, f, d>>
Fair == Spec /\ WF_<<s, f, d>>(Good) /\ WF_<<s, f, d>>(Up)

InvRecoverable == Recoverable(s)
InvLogged == Logged(s)
InvKept == Kept(s)
InvPromised == Promised(s)
InvNames == Names(s)
OthersStay == d = 0 => "other" \in DOMAIN s.dir

(* R04: a stream is removed only when the stored snapshot includes it. *)
Removals ==
    [][d' = d => \A x \in Streams(s.dir) : x \notin DOMAIN s'.dir =>
          HasSnapshot(s.dir) /\ s.dir["snapshot"].seq >= Max(s.dir[x].nums)]_<<s, f, d>>
(* R06: there never ceases to be a snapshot, and it never gets older. *)
Advances ==
    [][d' = d /\ HasSnapshot(s.dir) =>
          HasSnapshot(s'.dir) /\ s'.dir["snapshot"].seq >= s.dir["snapshot"].seq]_<<s, f, d>>
(* R05 *)
Prompt == (\E n \in s.log : s.imp[n] /\ s.svc) ~> (\A n \in s.log : ~s.imp[n])
=============================================================================
