------------------------------ MODULE ManageMC ------------------------------
(* All that may happen with few clients, replicas and vouchers.             *)
EXTENDS Manage
CONSTANTS Clients, MaxDirs, MaxRestarts, MaxAnswers
VARIABLES s, n, caps     \* caps: what the clients sent

c == [reps |-> [A |-> [kind |-> "good", has |-> {"a"}],
                N |-> [kind |-> "gone", has |-> {}],
                F |-> [kind |-> "unfit", has |-> {"f"}],
                C |-> [kind |-> "bad", has |-> {}]]]

Init == s = Boot(Start) /\ n = [r |-> 0, a |-> 0] /\ caps = Empty

Q == [s EXCEPT !.http = <<>>]
Next ==
    \/ /\ ~s.up /\ n.r < MaxRestarts /\ s' = Boot(s) /\ n' = [n EXCEPT !.r = @ + 1] /\ caps' = Empty
    \/ /\ s.up
       /\ \/ s' = Crash(Q) /\ UNCHANGED <<n, caps>>
          \/ s' = Put(Q, "v") /\ UNCHANGED <<n, caps>>
          \/ s' = Setup(Q) /\ UNCHANGED <<n, caps>>
          \/ \E k \in {"ok", "lost", "full", "fail", "again"} :
                s.busy /\ s.made < MaxDirs /\ s' = MadeDir(Q, k) /\ UNCHANGED <<n, caps>>
          \/ \E k \in Clients :
                \/ k \notin DOMAIN s.ws /\ s' = Open(Q, k) /\ UNCHANGED <<n, caps>>
                \/ k \in DOMAIN s.ws /\ s' = Gone(Q, k) /\ UNCHANGED <<n, caps>>
                \/ /\ k \in DOMAIN s.ws /\ s.ws[k].st = "open"
                   /\ \/ s' = Garbled(Q, k) /\ UNCHANGED <<n, caps>>
                      \/ \E x \in DOMAIN c.reps : s' = Send(Q, k, x) /\ UNCHANGED n /\ caps' = (k :> x) @@ caps
          \/ \E kind \in {"ok", "fail", "again"} :
                /\ s.rec.st = "busy" /\ n.a < MaxAnswers
                /\ s' \in Downloaded(c, Q, kind) /\ n' = [n EXCEPT !.a = @ + 1] /\ UNCHANGED caps

Spec == Init /\ [][Next]_<<s, n, caps>>

-----------------------------------------------------------------------------
Prefix(x, y) == Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x
Always(P) == [][P]_<<s, n, caps>>

(* R07 *)
Told == /\ s.conf <= s.made
        /\ \A i \in 1..Len(s.http) :
             s.http[i].code \in {"created", "conflict"} => s.http[i].dir = s.conf /\ s.conf # 0
        /\ ~s.up => ~s.busy
SetUpOnce == Always(/\ (s.conf # 0 => s'.conf = s.conf /\ s'.made = s.made)
                    /\ s'.conf # s.conf => \E i \in 1..Len(s'.http) : s'.http[i].code = "created")

(* R08 *)
OnlyIntoEmpty == Always(s'.w # s.w => (s.w = {} \/ s'.w = s.w \cup {"v"}))
Excluded == Always(
            /\ (s.rec.st = "busy" /\ s'.rec.st = "busy" => s'.w = s.w)
            /\ (s.rec.st = "busy" /\ s'.w # s.w =>
                 s'.rec.st = "done" /\ Last(s'.rec.ups) = "succeeded" /\ s'.w = c.reps[s'.rec.cap].has)
            /\ (s'.rec.st = "done" /\ s.rec.st = "busy" /\ Last(s'.rec.ups) # "succeeded") => s'.w = s.w
            /\ (~s'.up => s'.w = s.w))
AtMostOne == Always(s.rec.st # "no" /\ s'.up =>
                      /\ s'.rec.cap = s.rec.cap
                      /\ Prefix(s.rec.ups, s'.rec.ups)
                      /\ (s.rec.st = "done" => s'.rec = s.rec))
SameStory == \A k \in DOMAIN s.ws :
               /\ s.ws[k].got \in {<<>>, s.rec.ups}
               /\ s.ws[k].st = "watch" => caps[k] = s.rec.cap /\ s.rec.st = "busy"
               /\ s.ws[k].got # <<>> => caps[k] = s.rec.cap
               /\ s.ws[k].st = "closed" /\ s.ws[k].code = "normal" => Last(s.ws[k].got) \in Terminal
               /\ s.ws[k].code = "refused" => s.ws[k].got = <<>>
Ends == /\ s.rec.st = "done" <=> (s.rec.ups # <<>> /\ Last(s.rec.ups) \in Terminal)
        /\ \A i \in 1..Len(s.rec.ups) : s.rec.ups[i] \in Terminal => i = Len(s.rec.ups)
Truthful == Always(s'.rec.st = "done" /\ s.rec.st # "done" =>
              CASE Last(s'.rec.ups) = "succeeded" -> s.w = {} /\ s'.w = c.reps[s'.rec.cap].has
                [] OTHER -> s'.w = s.w)
=============================================================================
