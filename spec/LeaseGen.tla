------------------------------ MODULE LeaseGen ------------------------------
(* Random behaviours of Lease, written out as schedules for the real        *)
(* maintenance service (harness/maintain.py).                               *)
EXTENDS Lease, Json
CONSTANTS Depth
VARIABLES s, hist, theme, c

R(S) == RandomElement(S)
Themes == {"graph", "leases", "times", "trouble", "stop"}
Servers == {"x", "y", "z"}
DirNames == {"d0", "d1", "d2", "d3", "d4"}
FileNames == {"f0", "f1", "f2", "f3"}
Kind == [n \in DirNames |-> "dir"] @@ [n \in FileNames |-> "file"]
        @@ [n \in {"k0", "k1"} |-> "litdir"] @@ [n \in {"l0", "u0"} |-> "lit"]
AllNodes == DOMAIN Kind
Conf(lo, hi, min, pass, on) ==
    [enabled |-> on, lo |-> lo, hi |-> hi, min |-> min, period |-> 2678400, pass |-> pass,
     servers |-> Servers, kind |-> Kind]

Log(x) == hist' = Append(hist, x)
To(x, l) == s' = x /\ Log(l)
One(S) == R(S)

WaitR == \E d \in {R({1, 10, 100, 300, 500, 799, 800, 801, 1200, 1300, 2500, 86700})} :
           \E b \in {R(BOOLEAN)} :
             LET T == Max(s.t, IF s.win = <<>> THEN s.t + d
                               ELSE IF s.t + d < s.win[1] THEN s.t + d
                               ELSE IF b THEN s.win[1] ELSE s.win[2])
             IN  \E x \in {One(Wait(c, s, T))} : To(x, <<"wait", d>>)
\* The next run, please.
Due == IF s.win = <<>> THEN WaitR
       ELSE \E x \in {One(Begin(c, [s EXCEPT !.t = s.win[2]]))} : To(x, <<"due">>)
Ok1 == \E x \in {One(Ok(c, s))} : To(x, <<"ok", 1>>)
RECURSIVE Oks(_, _)
Oks(x, n) == IF n = 0 \/ ~Busy(x) THEN x ELSE Oks(One(Ok(c, x)), n - 1)
OkN == \E n \in {R({2, 3, 5, 50})} : \E x \in {Oks(s, n)} : To(x, <<"ok", n>>)
All == \E x \in {Oks(s, 50)} : To(x, <<"ok", 50>>)
FailR == \E x \in {One(Fail(c, s))} : To(x, <<"fail">>)
FailFullR == \E x \in {One(FailFull(c, s))} : To(x, <<"failfull">>)
LostR == \E x \in {One(Lost(c, s))} : To(x, <<"lost">>)
StopR == IF s.on THEN To(Stop(s), <<"stop">>) ELSE IF Busy(s) THEN Ok1 ELSE To(Boot(c, s), <<"boot">>)
CrashR == To(Boot(c, Crash(s)), <<"crash">>)
Down == To(Crash(s), <<"down">>)

RootR == \E n \in {R(AllNodes \cup {"d0", "d1", "k0"})} :
           \E y \in {R(1..8)} :
             LET r == IF y = 1 THEN {} ELSE {n} IN To([s EXCEPT !.root = r], <<"root", r>>)
\* Literal directories only contain things that were there before.
Kid == \E d \in {R(DirNames \cup {"k0", "k1"})}, n \in {R(AllNodes)} :
          IF c.kind[d] = "litdir" /\ c.kind[n] = "litdir" THEN UNCHANGED s /\ Log(<<"wait", 0>>)
          ELSE To([s EXCEPT !.kids[d] = IF n \in @ THEN @ \ {n} ELSE @ \cup {n}], <<"kid", d, n>>)
\* The driver's time is another one.
Rel(h) == [i \in DOMAIN h |-> IF h[i].exp = 0 THEN <<h[i].size>> ELSE <<h[i].size, h[i].exp - s.t>>]
Share == \E x \in {R(Servers)}, n \in {R(Stored(c))}, k \in {R(0..3)} :
           \E h \in {[i \in 1..k |->
                        [size |-> R({0, 1, 999, 1000, 1001, 5000}),
                         exp |-> R({0, s.t - 1, s.t + 1, s.t + c.min, s.t + c.min + 500, s.t + c.lo + c.min,
                                    s.t + c.hi + c.min, s.t + 100000, s.t + 100000, s.t + 100000})]]} :
             To([s EXCEPT !.hold[x][n] = h], <<"share", x, n, Rel(h)>>)
\* Leases that are at the limit
Edge == IF s.run.phase # "stat" THEN Share
        ELSE \E n \in {R(s.run.found)}, k \in {R(1..3)} :
               \E h \in {[i \in 1..k |-> [size |-> R({1, 1000, 3001}),
                                          exp |-> s.t + c.min + R({-1, 0, 1, 1})]]} :
                 To([s EXCEPT !.hold[s.run.srv][n] = h], <<"share", s.run.srv, n, Rel(h)>>)
Conn == \E x \in {R(Servers)} : To([s EXCEPT !.conn = IF x \in @ THEN @ \ {x} ELSE @ \cup {x}], <<"conn", x>>)

Pick ==
    \E k \in {R(1..20)} :
      CASE Len(hist) < 8 -> CASE k <= 2 -> Conn [] k <= 3 -> RootR [] k <= 10 -> Share [] OTHER -> Kid
        [] theme = "graph" ->
             CASE k <= 3 -> Due [] k <= 10 -> Ok1 [] k <= 13 -> Kid [] k <= 15 -> OkN [] k <= 16 -> RootR
               [] k <= 17 -> Share [] k <= 18 -> Conn [] k <= 19 -> All [] OTHER -> WaitR
        [] theme = "leases" ->
             CASE k <= 3 -> Due [] k <= 6 -> Ok1 [] k <= 11 -> Edge [] k <= 13 -> OkN [] k <= 14 -> Share
               [] k <= 15 -> Conn [] k <= 17 -> WaitR [] OTHER -> All
        [] theme = "times" ->
             CASE k <= 8 -> WaitR [] k <= 9 -> Due [] k <= 12 -> Ok1 [] k <= 14 -> All [] k <= 15 -> CrashR
               [] k <= 16 -> Down [] k <= 17 -> StopR [] k <= 18 -> FailFullR [] k <= 19 -> FailR [] OTHER -> OkN
        [] theme = "trouble" ->
             CASE k <= 4 -> Due [] k <= 8 -> Ok1 [] k <= 11 -> FailR [] k <= 12 -> LostR [] k <= 14 -> OkN
               [] k <= 15 -> Share [] k <= 16 -> Kid [] k <= 17 -> CrashR [] k <= 18 -> WaitR [] OTHER -> All
        [] OTHER ->
             CASE k <= 4 -> Due [] k <= 8 -> StopR [] k <= 11 -> Ok1 [] k <= 12 -> Down [] k <= 14 -> WaitR
               [] k <= 15 -> FailR [] k <= 17 -> All [] k <= 18 -> Conn [] OTHER -> Share

FirstKids == [d0 |-> {"d1", "f0"}, d1 |-> {"d0", "d2", "f1", "l0"}, d2 |-> {"k0"}, k0 |-> {"d3", "f2"}]
Init == /\ c \in {Conf(800, 1200, 500, 1000, TRUE), Conf(800, 1200, 0, 1000, TRUE), Conf(1000, 1000, 500, 1000, TRUE),
                  Conf(10, 1990, 5000, 300, TRUE), Conf(800, 1200, 500, 1000, FALSE)}
        /\ theme \in Themes
        /\ (c.enabled \/ theme = "stop")
        /\ s = Boot(c, [Start(c) EXCEPT !.root = {"d0"}, !.conn = {"x", "y"},
                                        !.kids = [d \in Dirs(c) |-> IF d \in DOMAIN FirstKids THEN FirstKids[d] ELSE {}]])
        /\ hist = <<>>
Emit == Len(hist') = Depth => PrintT(ToJson([theme |-> theme, c |-> c, kids |-> FirstKids, ops |-> hist']))
Next == Len(hist) < Depth /\ Pick /\ UNCHANGED <<theme, c>> /\ Emit
Spec == Init /\ [][Next]_<<s, hist, theme, c>>
=============================================================================
