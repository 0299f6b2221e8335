----------------------------- MODULE ReplicaGen -----------------------------
(* Random behaviours of Replica, written out as schedules for the real code *)
(* (harness/replica.py).  What the wallet does is told in its own terms; a  *)
(* transaction of the model stands for whatever becomes of it.              *)
EXTENDS Replica, Json
CONSTANTS Depth
VARIABLES s, hist, policy, theme

R(S) == RandomElement(S)
Themes == {"mix", "flow", "burst", "fail", "crash", "bulk", "compact", "late"}
Policies == {<<>>, <<200, 3, 10, 1>>, <<3000, 1, 2, 3>>, <<1000000, 3, 10, 2>>}

c == [large |-> 3]
Fresh(x) == [x EXCEPT !.out = <<>>]
Named(x) == IF x.cur.name = "?" THEN [x EXCEPT !.cur.name = CHOOSE y \in x.cur.todo : TRUE, !.out = <<>>]
            ELSE Fresh(x)

V == {"a", "b", "c"}
K == {0, 1, 2}

(* [name |-> what the driver is told, n |-> changes, z |-> their size, imp] *)
T(name, n, z, imp) == [name |-> name, n |-> n, z |-> z, imp |-> imp]
Adds == {T(<<"add", v, n>>, 2, 0, TRUE) : v \in V, n \in {1, 3}}
Quiet == {T(<<"redeem", v>>, 2, 0, FALSE) : v \in V}
         \cup {T(<<"get", n>>, 1, 0, FALSE) : n \in 1..2}
         \cup {T(<<f, n>>, 1, 0, FALSE) : f \in {"spend", "inval", "reset"}, n \in 1..2}
         \cup {T(<<"maint">>, 1, 0, FALSE)}
         \cup {T(<<"raw", x, FALSE>>, 2, 0, FALSE) : x \in {"many", "types", "delete", "order"}}
Loud == {T(<<"raw", x, TRUE>>, 2, 0, TRUE) : x \in {"many", "types", "delete", "order"}}
        \cup {T(<<"mixed", x, y>>, 2, 0, TRUE) : x \in {"types", "order"}, y \in {"first", "last"}}
Bulky == {T(<<"raw", "large", FALSE>>, 1, 1, FALSE)}
Void == {T(<<"add", v, 2, TRUE>>, 0, 0, FALSE) : v \in V}
        \cup {T(<<"raw", x, b, TRUE>>, 0, 0, FALSE) : x \in {"many", "types", "large"}, b \in BOOLEAN}
        \cup {T(<<"raw", "query", b>>, 0, 0, FALSE) : b \in BOOLEAN}
        \cup {T(<<"redeem", "a", FALSE>>, 0, 0, FALSE), T(<<"double", "c">>, 0, 0, FALSE)}

Apply1(x, trouble) == IF s.up THEN Fresh(Transaction(c, s, [i \in 1..x.n |-> x.z], x.imp, trouble))
                      ELSE Fresh(Boot(s))
Tx(S) == \E x \in {R(S)} : s' = Apply1(x, 0) /\ hist' = Append(hist, x.name)
Setup == s' = (IF ~s.up THEN Fresh(Boot(s)) ELSE IF s.conf THEN s ELSE Fresh(Serve(s)))
         /\ hist' = Append(hist, <<"setup">>)
AnsKind(kind) ==
    \E p \in {R(1..3) = 1} :
      /\ s' = CASE ~s.up -> Fresh(Boot(s))
                [] s.cur.j = "none" -> s
                [] OTHER -> Named(Answer(c, s, IF kind \in {"noservers", "notenough", "refused"} THEN "again"
                                               ELSE IF kind = "drop" THEN "fail" ELSE kind, p, "no"))
      /\ hist' = Append(hist, <<"ans", kind, p>>)
Good == AnsKind("ok")
Wrong == \E k \in {R({"lost", "lost", "fail", "drop", "refused", "noservers", "notenough"})} : AnsKind(k)
Crash == \E b \in {R(BOOLEAN)} :
            /\ s' = IF s.up THEN Down(IF b THEN Effect(s) ELSE s) ELSE Fresh(Boot(s))
            /\ hist' = Append(hist, <<"crash", b>>)
Halted == s' = (IF s.up THEN Halt(s) ELSE Fresh(Boot(s))) /\ hist' = Append(hist, <<"halt">>)
Lost == IF HasSnapshot(s.dir) THEN s' = Disaster(s) /\ hist' = Append(hist, <<"disaster">>)
        ELSE Good
(* The effect of the fault is left to the checker. *)
Faulty == \E k \in {R({"crash", "error", "error"})}, n \in {R(0..9)} :
           IF R(1..2) = 1 /\ s.cur.j # "none"
           THEN /\ s' = (IF k = "crash" THEN Down(Effect(s)) ELSE Named(Answer(c, s, "ok", FALSE, "here")))
                /\ hist' = Append(hist, <<"fault", k, n, "ans", "ok", TRUE>>)
           ELSE \E x \in {R(Adds \cup Quiet \cup Loud)} :
                /\ s' = (IF ~s.up THEN Fresh(Boot(s)) ELSE IF k = "crash" THEN Down(s) ELSE s)
                /\ hist' = Append(hist, <<"fault", k, n>> \o x.name)

Calls == Adds \cup Quiet \cup Loud
Pick ==
    \E k \in {R(1..20)} :
      IF ~s.conf /\ theme # "late" /\ k <= 12 THEN Setup
      ELSE CASE theme = "flow" ->
             CASE k <= 6 -> Tx(Calls) [] k <= 17 -> Good [] k <= 18 -> Tx(Void) [] k <= 19 -> Lost [] OTHER -> Crash
        [] theme = "burst" ->
             CASE k <= 12 -> Tx(Calls) [] k <= 18 -> Good [] k <= 19 -> Tx(Void) [] OTHER -> Faulty
        [] theme = "fail" ->
             CASE k <= 5 -> Tx(Calls) [] k <= 12 -> Good [] k <= 18 -> Wrong [] k <= 19 -> Faulty [] OTHER -> Halted
        [] theme = "crash" ->
             CASE k <= 5 -> Tx(Calls) [] k <= 12 -> Good [] k <= 16 -> Crash [] k <= 18 -> Faulty [] OTHER -> Wrong
        [] theme = "bulk" ->
             CASE k <= 8 -> Tx(Bulky) [] k <= 10 -> Tx(Quiet) [] k <= 11 -> Tx(Void) [] k <= 18 -> Good [] k <= 19 -> Crash [] OTHER -> Wrong
        [] theme = "compact" ->
             CASE k <= 4 -> Tx(Loud) [] k <= 17 -> Good [] k <= 18 -> Wrong [] k <= 19 -> Crash [] OTHER -> Tx(Quiet)
        [] theme = "late" ->
             CASE k <= 9 -> Tx(Calls) [] k <= 10 -> Tx(Void) [] k <= 12 -> Setup [] k <= 17 -> Good [] k <= 18 -> Wrong [] k <= 19 -> Crash [] OTHER -> Lost
        [] OTHER ->
             CASE k <= 7 -> Tx(Calls) [] k <= 14 -> Good [] k <= 15 -> Tx(Void \cup Bulky) [] k <= 16 -> Wrong
               [] k <= 17 -> Crash [] k <= 18 -> Faulty [] k <= 19 -> Lost [] OTHER -> Halted

Init == /\ s = Fresh(Boot(Start)) /\ hist = <<>>
        /\ policy \in Policies /\ theme \in Themes
Emit == Len(hist') = Depth =>
          PrintT(ToJson([policy |-> IF policy = <<>> THEN "say" ELSE policy, theme |-> theme, ops |-> hist']))
Next == Len(hist) < Depth /\ Pick /\ UNCHANGED <<policy, theme>> /\ Emit
Spec == Init /\ [][Next]_<<s, hist, policy, theme>>
=============================================================================
