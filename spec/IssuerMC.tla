------------------------------ MODULE IssuerMC ------------------------------
(* Every answer to every request of few vouchers.                           *)
EXTENDS Issuer
CONSTANTS Vouchers, Groups, Default, MaxTime, Pairs
VARIABLES s, t, last          \* last: the latest answer, to which voucher, and the batch it was to

c == [default |-> Default, groups |-> Groups, keys |-> {"K1"}]
NoAnswer == [v |-> "", a |-> Good("K1"), b |-> <<>>]

(* All answers that are wrong in at most two ways, or right. *)
Changes(a) ==
    {[a EXCEPT !.conn = x] : x \in Conns} \cup {[a EXCEPT !.code = x] : x \in {200, 400, 500}}
    \cup {[a EXCEPT !.body = x] : x \in Bodies} \cup {[a EXCEPT !.success = x] : x \in Successes}
    \cup {[a EXCEPT !.reason = x] : x \in Reasons} \cup {[a EXCEPT !.sigs = x] : x \in Sigs}
    \cup {[a EXCEPT !.proof = x] : x \in Proofs} \cup {[a EXCEPT !.key = x] : x \in KeysNamed}
Once1 == UNION {Changes(Good(k)) : k \in {"K1", "K2"}}
Answers == IF Pairs THEN UNION {Changes(a) : a \in Once1} ELSE Once1

Init == s = [Outset EXCEPT !.up = TRUE] /\ t = 0 /\ last = NoAnswer
Q == Quiet(s)
Next ==
    \/ t < MaxTime /\ t' = t + 1 /\ s' = Q /\ last' = NoAnswer
    \/ /\ UNCHANGED t
       /\ \/ \E v \in Vouchers : s' = Add(c, Q, v, t) /\ last' = NoAnswer
          \/ \E v \in Vouchers : v \in Active(s) /\ \E a \in Answers :
                s' \in Respond(c, Q, v, a, t) /\ last' = [v |-> v, a |-> a, b |-> Batch(c, s, v)]
          \/ s' = Tick(c, Q, t) /\ last' = NoAnswer
          \/ s' = Boot(c, Crash(s), t) /\ last' = NoAnswer
vars == <<s, t, last>>
View == <<Quiet(s), t>>
Spec == Init /\ [][Next]_vars
Always(P) == [][P]_vars
-----------------------------------------------------------------------------
(* W08 *)
\* what is stored is what was asked for, each once, and signed with one key per group
Genuine == \A x \in s.signed :
             /\ x[1][1] \in DOMAIN s.V /\ x[1][2] < s.V[x[1][1]].ctr
             /\ x[1][3] \in 1..GroupSize(c, s.V[x[1][1]].exp, x[1][2])
             /\ x[2] \in {"K1", "K2"}
             /\ \A y \in s.signed : y[1][1] = x[1][1] /\ y[1][2] = x[1][2] => y[2] = x[2]
\* and all of it
Complete == \A v \in DOMAIN s.V : \A g \in 0..(s.V[v].ctr - 1) :
              \A i \in 1..GroupSize(c, s.V[v].exp, g) : \E k \in {"K1", "K2"} : <<<<v, g, i>>, k>> \in s.signed
Tally == s.free + s.held = Cardinality(s.signed)
         /\ s.free = Cardinality({x \in s.signed : x[2] \in c.keys})
Mentioned == last'.v # ""
\* only an answer that is right in every respect makes tokens
Sound == Always(s'.signed # s.signed =>
           /\ Mentioned
           /\ LET a == last'.a
              IN  /\ Delivered(a) /\ Json(a) /\ a.success \notin {"false", "missing", "null", "zero", "nothing"}
                  /\ (a.proof = "right" \/ (Len(last'.b) = 1 /\ a.proof = "swapped")) /\ a.key = "by"
                  /\ (a.sigs = "all" \/ (Len(last'.b) = 1 /\ a.sigs \in {"swapped", "doubled"})))
\* the plain answer does, always
Accepted == Always(Mentioned /\ last'.a \in {Good("K1"), Good("K2")} => s'.signed # s.signed)
\* it is told apart why there are no tokens
TellsApart == Always(Mentioned =>
                LET x == Status(s', last'.v) a == last'.a
                IN  /\ (x.k = "double-spend" => a.reason = "double-spend" /\ Delivered(a) /\ Json(a) /\ a.success # "true")
                    /\ (x.k = "unpaid" => a.reason = "unpaid" /\ Delivered(a) /\ Json(a) /\ a.success # "true")
                    /\ (x.k = "error" => s'.V = s.V /\ s'.signed = s.signed)
                    /\ (a.success = "false" /\ Delivered(a) /\ Json(a) /\ a.code \in {200, 400} =>
                          x.k = CASE a.reason = "double-spend" -> "double-spend" [] a.reason = "unpaid" -> "unpaid" [] OTHER -> "error"))
\* and no one else is affected
Alone == Always(Mentioned => \A v \in DOMAIN s.V : v # last'.v => s'.V[v] = s.V[v] /\ s'.vol[v] = s.vol[v])
=============================================================================
