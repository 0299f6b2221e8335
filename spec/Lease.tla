------------------------------- MODULE Lease --------------------------------
(* Lease maintenance on a client node: when it runs, what it looks at, what *)
(* it renews, and what it remembers.                                        *)
(*                                                                          *)
(* c : [lo, hi |-> shortest and longest time between runs,                  *)
(*      enabled |-> whether the plugin is,                                  *)
(*      min |-> time that should be left of a lease,                        *)
(*      period |-> time that a renewed lease lasts,                         *)
(*      pass |-> bytes per pass,                                            *)
(*      kind |-> node |-> "dir", "file", "litdir" or "lit",                 *)
(*      servers |-> names]                                                  *)
(* Nodes of kinds "dir" and "file" are stored on servers, the others are    *)
(* contained in what refers to them.                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Empty == [x \in {} |-> 0]
Dirs(c) == {n \in DOMAIN c.kind : c.kind[n] \in {"dir", "litdir"}}
Stored(c) == {n \in DOMAIN c.kind : c.kind[n] \in {"dir", "file"}}

(* A run:                                                                   *)
(*   phase |-> "list" (a directory), "stat" (everything, on a server),      *)
(*             "add" (a lease to something, on a server)                    *)
(*   found |-> what was found so far, listed |-> directories already listed *)
(*   at |-> what is being listed or renewed, srv |-> the server             *)
(*   todo |-> servers still to be visited, need |-> what is to be renewed   *)
(*   since |-> when the visit of the server began, n |-> passes counted     *)
NoRun == [phase |-> "none", found |-> {}, listed |-> {}, at |-> "", srv |-> "",
          todo |-> {}, need |-> {}, since |-> 0, n |-> 0]

Start(c) ==
    [t |-> 0, on |-> FALSE,
     win |-> <<>>,         \* between when and when the next run begins
     last |-> <<>>,        \* when the latest run ended, if there was one
     done |-> <<>>,        \* what the latest run that succeeded counted
     run |-> NoRun,
     root |-> {},
     kids |-> [d \in Dirs(c) |-> {}],
     conn |-> {},          \* connected servers
     \* what servers hold: the sizes and lease expirations of shares
     hold |-> [x \in c.servers |-> [n \in Stored(c) |-> <<>>]]]

Busy(s) == s.run.phase # "none"
Max(a, b) == IF a > b THEN a ELSE b
Ceil(a, b) == (a + b - 1) \div b

(* Directories that are contained in others need not be asked for. *)
RECURSIVE Within(_, _, _)
Within(c, s, S) ==
    LET T == S \cup UNION {s.kids[d] : d \in {x \in S : c.kind[x] = "litdir"}}
    IN  IF T = S THEN S ELSE Within(c, s, T)

(* -- how a run proceeds: all the possible ways to the next request ------- *)
Ended(c, s) ==
    [s EXCEPT !.run = NoRun, !.last = <<s.t>>,
              !.win = IF s.on THEN <<s.t + c.lo, s.t + c.hi>> ELSE <<>>]
Succeeded(c, s) == Ended(c, [s EXCEPT !.done = <<s.run.n>>])

Unlisted(c, r) == {d \in r.found \ r.listed : c.kind[d] = "dir"}
Visit(c, s) ==        \* the next server, if there is one
    IF s.run.todo = {} THEN {Succeeded(c, s)}
    ELSE {[s EXCEPT !.run.phase = "stat", !.run.srv = x, !.run.todo = @ \ {x}, !.run.since = s.t]
            : x \in s.run.todo}
Explore(c, s) ==      \* the next directory, or the servers
    LET D == Unlisted(c, s.run)
        S == {n \in s.run.found : c.kind[n] \in {"dir", "file"}}
        x == [s EXCEPT !.run.found = S, !.run.todo = s.conn]
    IN  IF D # {} THEN {[s EXCEPT !.run.phase = "list", !.run.at = d] : d \in D}
        ELSE IF S = {} THEN {Succeeded(c, x)}
        ELSE Visit(c, x)
Renew(c, s) ==        \* the next lease to renew, or the next server
    IF s.run.need = {} THEN Visit(c, s)
    ELSE {[s EXCEPT !.run.phase = "add", !.run.at = n, !.run.need = @ \ {n}] : n \in s.run.need}
Begin(c, s) ==
    Explore(c, [s EXCEPT !.win = <<>>,
                         !.run = [NoRun EXCEPT !.found = Within(c, s, s.root)]])

Expiring(c, s, x, now) == {n \in s.run.found : \E i \in 1..Len(s.hold[x][n]) : s.hold[x][n][i].exp - now < c.min}
RECURSIVE Sum(_)
Sum(x) == IF x = <<>> THEN 0 ELSE Head(x) + Sum(Tail(x))
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET n == CHOOSE n \in S : TRUE IN f[n] + SumOver(f, S \ {n})
Cost(c, x) == Sum([i \in 1..Len(x) |-> Ceil(x[i].size, c.pass)])
Count(c, s, x) == SumOver([n \in Stored(c) |-> Cost(c, s.hold[x][n])], s.run.found)

\* The request that is going on is answered.
Answer(c, s) ==
    LET r == s.run
    IN  CASE r.phase = "list" ->
               Explore(c, [s EXCEPT !.run.listed = @ \cup {r.at},
                                    !.run.found = @ \cup Within(c, s, s.kids[r.at])])
          [] r.phase = "stat" ->
               UNION {Renew(c, [s EXCEPT !.run.need = Expiring(c, s, r.srv, now),
                                         !.run.n = @ + Count(c, s, r.srv)])
                        : now \in {r.since, s.t}}
          [] r.phase = "add" -> Renew(c, s)
          [] OTHER -> {s}
\* A lease lasts for one period from when it is renewed.
Leased(c, s) ==
    IF s.run.phase # "add" THEN s
    ELSE [s EXCEPT !.hold[s.run.srv][s.run.at] = [i \in DOMAIN @ |-> [@[i] EXCEPT !.exp = s.t + c.period]]]

(* -- what may happen ----------------------------------------------------- *)
Ok(c, s) == Answer(c, Leased(c, s))
Fail(c, s) == IF Busy(s) THEN {Ended(c, s)} ELSE {s}
Lost(c, s) == Fail(c, Leased(c, s))      \* it happened, but the answer got lost
\* The disk is full, too: when the run ended can not be written down.
FailFull(c, s) == {[x EXCEPT !.last = s.last] : x \in Fail(c, s)}

Boot(c, s) ==
    LET lo == IF s.last = <<>> THEN c.lo ELSE Max(0, c.lo - (s.t - s.last[1]))
        hi == IF s.last = <<>> THEN c.hi ELSE Max(0, c.hi - (s.t - s.last[1]))
    IN  [s EXCEPT !.on = TRUE, !.win = IF c.enabled THEN <<s.t + lo, s.t + hi>> ELSE <<>>]
Stop(s) == [s EXCEPT !.on = FALSE, !.win = <<>>]
Crash(s) == [Stop(s) EXCEPT !.run = NoRun]

\* Time passes.  A run begins in between, if it is time.
Wait(c, s, t) ==
    LET x == [s EXCEPT !.t = t]
    IN  IF s.win = <<>> THEN {x}
        ELSE (IF t < s.win[2] THEN {x} ELSE {})
             \cup (IF t >= s.win[1] /\ t <= s.win[2] THEN Begin(c, x) ELSE {})
=============================================================================
