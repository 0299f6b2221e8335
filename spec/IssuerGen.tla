------------------------------ MODULE IssuerGen ------------------------------
(* Random behaviours of Issuer, written out as schedules for the real       *)
(* redeemer and controller (harness/issuer.py).                             *)
EXTENDS Issuer, Json
CONSTANTS Depth
VARIABLES s, hist, theme, c

R(S) == RandomElement(S)
Themes == {"good", "single", "double", "proofs", "transport", "reasons", "crash"}
Vs == {"a", "b", "d", "e", "f"}

Log(x) == hist' = Append(hist, x)
Q == Quiet(s)
T == Len(hist) + 1
To(x, l) == s' = x /\ Log(l)

Change(a, k) ==
    CASE k = 1 -> [a EXCEPT !.conn = R(Conns)]
      [] k = 2 -> [a EXCEPT !.code = R({200, 201, 400, 404, 500, 503})]
      [] k = 3 -> [a EXCEPT !.body = R(Bodies)]
      [] k = 4 -> [a EXCEPT !.success = R(Successes)]
      [] k = 5 -> [a EXCEPT !.success = R({"false", "false", "false", "missing"}), !.reason = R(Reasons)]
      [] k \in {6, 7} -> [a EXCEPT !.sigs = R(Sigs)]
      [] k = 8 -> [a EXCEPT !.proof = R(Proofs)]
      [] OTHER -> [a EXCEPT !.key = R(KeysNamed)]

Fresh == Vs \ DOMAIN s.V
Putv == \E v \in {IF Fresh = {} \/ Cardinality(Active(s)) > 1 THEN R(Vs) ELSE R(Fresh)} : To(Add(c, Q, v, T), <<"put", v>>)
TickR == To(Tick(c, Q, T), <<"tick">>)
Restart == To(Boot(c, Crash(Q), T), <<"restart">>)
Prove == To(Q, <<"passes", R(1..4)>>)
Announce == To(Q, <<"announce", R(Announced)>>)

\* the specification may leave it open what happens: go on with one of the possibilities
Say(a) ==
    IF Active(s) = {} THEN IF Failed(s) # {} /\ R(1..3) > 1 THEN TickR ELSE Putv
    ELSE \E v \in {R(Active(s))} : \E x \in {R(Respond(c, Q, v, a, T))} : To(x, <<"answer", v, a>>)
Key == R({"K1", "K1", "K2"})
Plain == \E k \in {Key} : Say(Good(k))
One == \E k \in {Key}, n \in {R(1..9)} : \E a \in {Change(Good(k), n)} : Say(a)
Two == \E k \in {Key}, n \in {R(1..9)}, m \in {R(1..9)} : \E a \in {Change(Good(k), n)} : \E b \in {Change(a, m)} : Say(b)
Crypto == \E k \in {Key}, n \in {R(6..9)}, m \in {R(6..9)}, o \in {R(1..2)} :
             \E a \in {Change(Good(k), n)} : \E b \in {IF o = 1 THEN a ELSE Change(a, m)} : Say(b)
Transport == \E k \in {Key}, n \in {R(1..3)} : \E a \in {Change(Good(k), n)} : Say(a)
Refusal == \E k \in {Key}, n \in {R({1, 2, 5, 5, 5, 5})} : \E a \in {Change(Good(k), 5)} : \E b \in {Change(a, n)} : Say(b)

Pick ==
    \E k \in {R(1..20)} :
      CASE k = 1 -> Announce
        [] k = 2 -> Prove
        [] k = 3 -> Putv
        [] k \in {4, 5} /\ Failed(s) # {} -> TickR
        [] theme = "good" -> IF k <= 14 THEN Plain ELSE Prove
        [] theme = "single" -> IF k <= 10 THEN Plain ELSE One
        [] theme = "double" -> IF k <= 10 THEN Plain ELSE Two
        [] theme = "proofs" -> IF k <= 8 THEN Plain ELSE Crypto
        [] theme = "transport" -> IF k <= 9 THEN Plain ELSE Transport
        [] theme = "reasons" -> IF k <= 9 THEN Plain ELSE Refusal
        [] OTHER -> CASE k <= 9 -> Restart [] k <= 15 -> Plain [] OTHER -> One

Init == /\ c \in {[default |-> g * n + m, groups |-> g, keys |-> K] : g \in {1, 2, 3}, n \in {1, 2, 3}, m \in {0, 1},
                     K \in {{"K1"}, {"K1", "K2"}}}
        /\ s = [Outset EXCEPT !.up = TRUE] /\ hist = <<>> /\ theme \in Themes
Emit == Len(hist') = Depth => PrintT(ToJson([theme |-> theme, c |-> c, ops |-> hist']))
Next == Len(hist) < Depth /\ Pick /\ UNCHANGED <<theme, c>> /\ Emit
Spec == Init /\ [][Next]_<<s, hist, theme, c>>
=============================================================================
