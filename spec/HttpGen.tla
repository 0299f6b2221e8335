------------------------------- MODULE HttpGen -------------------------------
(* Random behaviours of Http, written out as schedules for the real         *)
(* interface (harness/webapi.py).                                           *)
EXTENDS Http, Json
CONSTANTS Depth
VARIABLES s, hist, theme, c

R(S) == RandomElement(S)
Themes == {"redeem", "trouble", "auth", "nonsense", "tokens", "maint", "price", "restart", "faults"}
Vs == {"a", "b", "d"}
Configs == [default : {16, 17, 33, 40}, groups : {16}, keys : {{"AAAA"}, {"AAAA", "BBBB"}},
            needed : {1, 3, 7}, shares : {1, 2, 10}, pass : {1, 4, 1000}, period : {2678400}]
WrongAuth == {"none", "empty", "scheme", "bearer", "basic", "schemeonly", "longer", "prefixed", "shorter",
              "case", "twospaces", "quoted", "nospace", "query", "proxyheader", "otherheader", "base64", "extra", "comma", "old"}
BadPuts == {"notjson", "utf8", "list", "string", "number", "null", "nobody", "nokey", "extrakey", "wrongkey", "int", "vnull",
            "vlist", "vbool", "newline", "slash", "short", "long", "padding", "nonascii", "truncated", "nested", "vdict", "spaces"}
BadGets == {"g-short", "g-long", "g-padding", "g-utf8", "g-nonascii", "g-empty"}
BadPrices == {"p-notjson", "p-list", "p-negative", "p-float", "p-string", "p-null", "p-nosizes", "p-noversion", "p-version0",
              "p-version2", "p-versionstr", "p-nolist", "p-number", "p-type", "p-notype", "p-utf8"}
Methods == {"DELETE version", "POST version", "PUT version", "POST voucher", "DELETE voucher", "PATCH voucher",
            "PUT voucher/a", "DELETE voucher/a", "POST voucher/a", "PUT lease-maintenance", "POST lease-maintenance",
            "DELETE lease-maintenance", "GET calculate-price", "PUT calculate-price", "GET replicate", "PUT replicate",
            "DELETE replicate", "BREW version", "OPTIONS voucher", "POST recover"}
Paths == {"GET x", "GET voucher/a/x", "GET version/x", "GET lease-maintenance/x", "PUT vouchers", "POST x", "GET storage-plugins"}
AnyPath == {"GET version", "GET voucher", "PUT voucher", "GET voucher/a", "GET lease-maintenance", "POST calculate-price",
            "POST replicate", "HEAD voucher", "OPTIONS voucher", "DELETE voucher", "GET x", "GET ", "GET voucher/a/x",
            "GET %76oucher", "GET voucher/%61", "GET recover", "BREW voucher", "GET voucher?x=1", "PUT /voucher", "GET ../voucher"}
Sizes == {0, 1, 2, 3, 4, 7, 8, 999, 1000, 1001, 3000, 3001, 7000, 65535, 65536, 123456}

Log(x) == hist' = Append(hist, x)
Q == Quiet(s)
T == Len(hist) + 1
To(x, l) == s' = x /\ Log(l)
Req(what, v) == [auth |-> s.token, what |-> what, v |-> v, sizes |-> <<>>]

PutV == \E v \in {R(Vs)} : To(Add(c, Q, v, T), <<"put", v>>)
Get == \E v \in {R(Vs)} : To(Q, <<"get", v>>)
List == To(Q, <<"list">>)
Maint == To(Q, <<"maint">>)
Look == \E k \in {R(1..4)} : CASE k = 1 -> Get [] k = 4 -> Maint [] OTHER -> List
Unauth == \E a \in {R(WrongAuth)}, p \in {R(AnyPath)} : To(Q, <<"unauth", a, p>>)
UnauthPut == \E a \in {R(WrongAuth)}, v \in {R(Vs)} : To(Q, <<"unauthput", a, v>>)
UnauthWs == \E a \in {R(WrongAuth)} : To(Q, <<"unauthws", a>>)
Ws == To(Q, <<"ws">>)
BadPut == \E x \in {R(BadPuts)} : To(Q, <<"bad", x>>)
Bad == \E x \in {R(BadPuts \cup BadGets \cup BadPrices)} : To(Q, <<"bad", x>>)
Method == \E x \in {R(Methods)} : To(Q, <<"method", x>>)
Path == \E x \in {R(Paths)} : To(Q, <<"nopath", x>>)
SetUp == To([Q EXCEPT !.repl = @ + 1], <<"setup">>)
Rotate == To([Q EXCEPT !.token = @ + 1], <<"rotate">>)
PriceR == \E n \in {R(0..3)} :
            \E x \in {[i \in 1..n |-> <<R({0, 0, 0, 1, 2, 17}), R(Sizes)>>]} : To(Q, <<"price", x>>)
Version == To(Q, <<"version">>)
Big == \E v \in {R(Vs)} : To(Add(c, Q, v, T), <<"bigput", v>>)

Ans(K) ==
    IF Active(s) = {} THEN PutV
    ELSE \E v \in {R(Active(s))}, k \in {R(K)}, n \in {R({1, 2, 5, 15, 16, 16})}, key \in {R({"AAAA", "AAAA", "BBBB"})} :
           IF k = "ok" THEN To(Redeem(c, Q, v, key, n, T), <<"ok", v, key, n>>)
           ELSE To(Fail(Q, v, k, "e", T), <<"fail", v, k>>)
Good == Ans({"ok"})
Mixed == Ans({"ok", "unpaid", "error", "spent"})
Wrong == Ans({"unpaid", "error"})
TickR == To(Tick(c, Q, T), <<"tick">>)
Restart == To(Boot(c, Crash(Q), T), <<"restart">>)
TakeR == \E n \in {R({1, 2, 5, 16, 50})} : To(Take(Q, n), <<"take", n>>)
SpendR == IF s.used = 0 THEN TakeR ELSE \E n \in {R(1..s.used)} : To(Spend(Q, n), <<"spend", n>>)
BackR == IF s.used = 0 THEN TakeR ELSE \E n \in {R(1..s.used)} : To(GiveBack(Q, n), <<"back", n>>)
Begin == To(Maintain(Q, T), <<"begin">>)
Obs == IF s.run = <<>> THEN Begin
       ELSE \E n \in {R(0..4)} : \E x \in {[i \in 1..n |-> R(Sizes)]} : To(Observe(c, Q, x), <<"observe", x>>)
Fin == IF s.run = <<>> THEN Begin ELSE To(Finish(Q, T), <<"finish">>)
Fault == \E v \in {R(Vs)}, n \in {R(0..12)} : To(Add(c, Q, v, T), <<"fault", n, v>>)

Pick ==
    \E k \in {R(1..20)} :
      CASE theme = "redeem" ->
             CASE k <= 4 -> PutV [] k <= 11 -> Good [] k <= 18 -> Look [] k <= 19 -> TickR [] OTHER -> Version
        [] theme = "trouble" ->
             CASE k <= 3 -> PutV [] k <= 8 -> Mixed [] k <= 11 -> Wrong [] k <= 14 -> TickR [] k <= 19 -> Look [] OTHER -> Restart
        [] theme = "auth" ->
             CASE k <= 6 -> Unauth [] k <= 9 -> UnauthPut [] k <= 11 -> UnauthWs [] k <= 12 -> Rotate [] k <= 14 -> PutV
               [] k <= 16 -> List [] k <= 17 -> SetUp [] k <= 18 -> Ws [] k <= 19 -> Good [] OTHER -> Restart
        [] theme = "nonsense" ->
             CASE k <= 4 -> BadPut [] k <= 11 -> Bad [] k <= 13 -> Method [] k <= 14 -> Path [] k <= 16 -> PutV
               [] k <= 17 -> Good [] k <= 18 -> Big [] OTHER -> Look
        [] theme = "tokens" ->
             CASE k <= 3 -> PutV [] k <= 7 -> Good [] k <= 10 -> TakeR [] k <= 12 -> SpendR [] k <= 14 -> BackR
               [] k <= 19 -> Maint [] OTHER -> Restart
        [] theme = "maint" ->
             CASE k <= 4 -> Begin [] k <= 9 -> Obs [] k <= 12 -> Fin [] k <= 17 -> Maint [] k <= 18 -> Restart [] k <= 19 -> PutV
               [] OTHER -> Good
        [] theme = "price" ->
             CASE k <= 14 -> PriceR [] k <= 18 -> Bad [] OTHER -> Method
        [] theme = "restart" ->
             CASE k <= 3 -> PutV [] k <= 7 -> Mixed [] k <= 10 -> Restart [] k <= 12 -> TickR [] k <= 18 -> Look [] OTHER -> SetUp
        [] OTHER ->
             CASE k <= 8 -> Fault [] k <= 11 -> Mixed [] k <= 16 -> Look [] k <= 17 -> TickR [] k <= 18 -> Restart [] OTHER -> PutV

Init == /\ c \in {[default |-> d, groups |-> 16, keys |-> {"AAAA"}, needed |-> 3, shares |-> 10, pass |-> p, period |-> 2678400]
                    : d \in {16, 40}, p \in {4, 1000}}
              \cup {[default |-> 17, groups |-> 16, keys |-> {"AAAA", "BBBB"}, needed |-> n, shares |-> 7, pass |-> p, period |-> 2678000]
                    : n \in {1, 7}, p \in {1, 333}}
        /\ s = Boot(c, Start, 0) /\ hist = <<>> /\ theme \in Themes
Emit == Len(hist') = Depth => PrintT(ToJson([theme |-> theme, c |-> c, ops |-> hist']))
Next == Len(hist) < Depth /\ Pick /\ UNCHANGED <<theme, c>> /\ Emit
Spec == Init /\ [][Next]_<<s, hist, theme, c>>
=============================================================================
