------------------------------- MODULE HttpMC -------------------------------
(* All that may happen with few vouchers, groups and tokens.                *)
EXTENDS Http
CONSTANTS Vouchers, Groups, MaxTime, MaxSpend
VARIABLES s, t, r, spent       \* r: the latest request and its answer

c == [default |-> 3, groups |-> Groups, keys |-> {"k"}, needed |-> 2, shares |-> 3, pass |-> 2, period |-> 9]
Req(auth, what, v) == [auth |-> auth, what |-> what, v |-> v, sizes |-> <<>>]
NoReq == [req |-> Req(0, "none", ""), ans |-> [code |-> 0, vs |-> {}, n |-> 0, last |-> <<>>, price |-> <<0, 0>>]]

Init == s = Boot(c, Start, 0) /\ t = 0 /\ r = NoReq /\ spent = 0
Q == Quiet(s)
Asked == \E a \in {0, 1, 2}, w \in {"put", "get", "list", "maint", "bad", "setup"}, v \in Vouchers :
            LET q == Req(a, w, v)
            IN  /\ s' = Request(c, Q, q, t)
                /\ (w = "setup" => s.repl = 0)
                /\ r' = [req |-> q, ans |-> Answer(c, s, q)]
Quietly == r' = NoReq
Next ==
    \/ t < MaxTime /\ t' = t + 1 /\ s' = Q /\ Quietly /\ UNCHANGED spent
    \/ /\ UNCHANGED t
       /\ \/ s.up /\ Asked /\ UNCHANGED spent
          \/ /\ Quietly
             /\ \/ s.up /\ s' = Crash(s) /\ UNCHANGED spent
                \/ ~s.up /\ s' = Boot(c, s, t) /\ UNCHANGED spent
                \/ /\ s.up
                   /\ \/ s' = Tick(c, Q, t) /\ UNCHANGED spent
                      \/ \E v \in Vouchers :
                           /\ UNCHANGED spent
                           /\ \/ \E k \in {"k", "x"} : s' = Redeem(c, Q, v, k, 1, t)
                              \/ \E k \in {"spent", "unpaid", "error"} : s' = Fail(Q, v, k, "d", t)
                              \/ s' \in AddTrouble(c, Q, v, t)
                      \/ s.free > 0 /\ s' = Take(Q, 1) /\ UNCHANGED spent
                      \/ s.used > 0 /\ spent < MaxSpend /\ s' = Spend(Q, 1) /\ spent' = spent + 1
                      \/ s.used > 0 /\ s' = GiveBack(Q, 1) /\ UNCHANGED spent
                      \/ s' = Maintain(Q, t) /\ UNCHANGED spent
                      \/ (s.run # <<>> /\ s.run[1].n < 2) /\ s' = Observe(c, Q, <<1>>) /\ UNCHANGED spent
                      \/ s' = Finish(Q, t) /\ UNCHANGED spent
                      \/ s.token = 1 /\ s' = [Q EXCEPT !.token = 2] /\ UNCHANGED spent

vars == <<s, t, r, spent>>
View == <<Quiet(s), t, spent>>
Spec == Init /\ [][Next]_vars
Always(P) == [][P]_vars
-----------------------------------------------------------------------------
(* H01 *)
Guarded == Always(r'.req.what # "none" /\ r'.req.auth # s.token => r'.ans.code = 401 /\ s' = Quiet(s))
Served == Always(r'.req.what \in {"put", "list", "maint"} /\ r'.req.auth = s.token => r'.ans.code = 200)

(* H02 *)
Harmless == Always(r'.req.what \in {"bad", "get", "list", "maint"} => s' = Quiet(s))
Once == Always(r'.req.what = "put" =>
                 /\ Len(s'.subs) <= 1
                 /\ (r'.ans.code = 200 => r'.req.v \in DOMAIN s'.V)
                 /\ \A v \in DOMAIN s.V : s'.V[v] = s.V[v])
OneAttempt == Always(\A i \in 1..Len(s'.subs) :
                       LET x == s'.subs[i]
                       IN  s'.V[x.v].st = "pending" /\ x.g = s'.V[x.v].ctr
                           /\ (x.v \in Active(s) => s.V[x.v].ctr < x.g))
Agree == \A v \in DOMAIN s.V :
            LET x == Status(s, v)
            IN  /\ x.k = "redeemed" => x.n <= x.exp /\ s.V[v].ctr = c.groups
                /\ x.k = "redeeming" => s.up /\ x.c = s.V[v].ctr
                /\ s.V[v].cnt <= x.exp
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET v == CHOOSE v \in S : TRUE IN s.V[v].cnt + Total(S \ {v})
\* what is not approved of is not counted, but not lost either
Counted == s.free + s.used + spent = Total(DOMAIN s.V)

(* M03 *)
Recorded == Always(s'.done # s.done => s.run # <<>> /\ s'.run = <<>> /\ s'.done[1] = [since |-> s.run[1].since, at |-> t, n |-> s.run[1].n])
=============================================================================
