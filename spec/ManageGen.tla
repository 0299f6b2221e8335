------------------------------ MODULE ManageGen ------------------------------
(* Random behaviours of Manage, written out as schedules for the real node  *)
(* (harness/manage.py).                                                     *)
EXTENDS Manage, Json
CONSTANTS Depth
VARIABLES s, hist, theme

R(S) == RandomElement(S)
Themes == {"setup", "recover", "watch", "full", "both", "trouble", "corrupt", "streams", "greet"}
Clients == {"p", "q", "r"}
Good == {"A", "B", "E"}
c == [reps |-> [x \in Good \cup {"N", "C", "V", "S", "F", "X"} |->
                 [kind |-> CASE x \in Good -> "good" [] x \in {"N", "X"} -> "gone" [] x = "F" -> "unfit" [] OTHER -> "bad",
                  has |-> CASE x = "A" -> {"a1", "a2", "a3"} [] x = "B" -> {"b1"} [] OTHER -> {}]]]
Garbage == {"notjson", "empty", "list", "extra", "missing", "number", "nocap", "writecap", "filecap"}
Fails == {"fail", "drop", "lost", "cut", "notenough", "refused", "noservers"}
Kind(k) == CASE k \in {"notenough", "refused", "noservers"} -> "again"
             [] k \in {"cut"} -> "lost"
             [] k \in {"drop", "garbage"} -> "fail"
             [] OTHER -> k

Log(x) == hist' = Append(hist, x)
Q == [s EXCEPT !.http = <<>>]
Same == s' = Q

PutV == \E v \in {R({"u", "v", "w"})} : s' = Put(Q, v) /\ Log(<<"put", v>>)
SetUp == s' = Setup(Q) /\ Log(<<"setup">>)
Dir(k) == s' = (IF s.busy THEN MadeDir(Q, Kind(k)) ELSE Q) /\ Log(<<"ans", "mkdir", k>>)
DirOk == Dir("ok")
DirBad == \E k \in {R(Fails \cup {"garbage", "full", "full"})} : Dir(k)
OpenC == \E k \in {R(Clients)} : s' = Open(Gone(Q, k), k) /\ Log(<<"open", k>>)
SendC(S) == \E k \in {R(Clients)}, x \in {R(S)} :
              /\ s' = (IF k \notin DOMAIN s.ws \/ s.ws[k].st # "open" THEN Q
                       ELSE IF x \in Garbage THEN Garbled(Q, k) ELSE Send(Q, k, x))
              /\ Log(<<"send", k, x>>)
(* Someone who has just connected says something. *)
Greet(S) ==
    LET K == {k \in DOMAIN s.ws : s.ws[k].st = "open"}
    IN  IF K = {} THEN OpenC
        ELSE \E k \in {R(K)}, x \in {R(S)} :
               /\ s' = (IF x \in Garbage THEN Garbled(Q, k) ELSE Send(Q, k, x))
               /\ Log(<<"send", k, x>>)
Again == Greet(IF s.rec.st = "no" THEN Good \cup {"F"} ELSE {s.rec.cap})
Leave == \E k \in {R(Clients)}, how \in {R({"close", "drop"})} : s' = Gone(Q, k) /\ Log(<<how, k>>)
Rec(k) == \E x \in {R(Downloaded(c, Q, Kind(k)))} : s' = x /\ Log(<<"ans", "rec", k>>)
RecOk == IF s.rec.st = "busy"
         THEN LET X == {x \in Downloaded(c, Q, "ok") : x.rec.st = "busy" \/ Len(hist) % 3 = 0}
              IN  \E x \in {R(IF X = {} THEN {Q} ELSE X)} : s' = x /\ Log(<<"ans", "rec", "ok">>)
         ELSE Again
RecBad == \E k \in {R(Fails)} : Rec(k)
Die == s' = Boot(Crash(Q)) /\ Log(<<"crash">>)
Look == Same /\ Log(<<"check">>)

Pick ==
    \E k \in {R(1..20)} :
      CASE theme = "setup" ->
             CASE k <= 5 -> SetUp [] k <= 10 -> DirOk [] k <= 13 -> DirBad [] k <= 16 -> PutV
               [] k <= 18 -> Die [] OTHER -> Look
        [] theme = "recover" ->
             CASE k <= 3 -> OpenC [] k <= 6 -> Greet(DOMAIN c.reps) [] k <= 14 -> RecOk [] k <= 15 -> RecBad
               [] k <= 16 -> PutV [] k <= 17 -> Die [] k <= 18 -> Leave [] k <= 19 -> Again [] OTHER -> SendC(Garbage)
        [] theme = "watch" ->
             CASE k <= 5 -> OpenC [] k <= 11 -> Again [] k <= 15 -> RecOk [] k <= 16 -> Greet(DOMAIN c.reps)
               [] k <= 17 -> Greet(Garbage) [] k <= 18 -> Leave [] k <= 19 -> PutV [] OTHER -> RecBad
        [] theme = "full" ->
             CASE k <= 5 -> PutV [] k <= 8 -> OpenC [] k <= 13 -> Greet(DOMAIN c.reps) [] k <= 16 -> RecOk
               [] k <= 18 -> Die [] OTHER -> SetUp
        [] theme = "both" ->
             CASE s.rec.st = "no" /\ s.conf = 0 /\ ~s.busy /\ k <= 10 -> Again
               [] s.rec.st = "busy" /\ k <= 17 -> RecOk
               [] s.rec.st = "done" /\ k <= 5 -> SetUp
               [] s.busy /\ k <= 10 -> DirOk
               [] k <= 14 -> PutV [] k <= 16 -> Die [] k <= 17 -> SetUp [] k <= 18 -> Again [] OTHER -> Look
        [] theme = "streams" ->
             CASE s.rec.st = "no" /\ k <= 16 -> Greet({"A"})
               [] s.rec.st = "busy" /\ k <= 13 -> RecOk [] s.rec.st = "busy" /\ k <= 15 -> RecBad
               [] k <= 16 -> PutV [] k <= 18 -> Die [] k <= 19 -> Again [] OTHER -> OpenC
        [] theme = "greet" ->
             CASE k <= 6 -> OpenC [] k <= 10 -> Greet(Garbage) [] k <= 12 -> SendC(Garbage) [] k <= 15 -> Again
               [] k <= 18 -> RecOk [] k <= 19 -> Greet(DOMAIN c.reps) [] OTHER -> Die
        [] theme = "corrupt" ->
             CASE s.rec.st = "no" /\ k <= 16 -> Greet({"C", "V", "S", "F"})
               [] s.rec.st = "busy" /\ k <= 14 -> RecOk
               [] k <= 15 -> PutV [] k <= 16 -> Die [] k <= 18 -> Again [] OTHER -> OpenC
        [] OTHER ->
             CASE k <= 3 -> SetUp [] k <= 5 -> DirBad [] k <= 6 -> DirOk [] k <= 9 -> OpenC [] k <= 12 -> Again
               [] k <= 14 -> RecBad [] k <= 17 -> RecOk [] k <= 18 -> PutV [] k <= 19 -> Die [] OTHER -> Leave

Init == /\ s = Boot(Start) /\ hist = <<>> /\ theme \in Themes
Emit == Len(hist') = Depth => PrintT(ToJson([theme |-> theme, ops |-> hist']))
Next == Len(hist) < Depth /\ Pick /\ UNCHANGED theme /\ Emit
Spec == Init /\ [][Next]_<<s, hist, theme>>
=============================================================================
