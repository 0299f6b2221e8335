------------------------------ MODULE LeaseMC -------------------------------
(* All that may happen to a few files and directories.                      *)
EXTENDS Lease
CONSTANTS MaxTime, Servers, MaxFail
VARIABLES s,
          g            \* what the run did so far, and how many things failed

c == [enabled |-> TRUE, lo |-> 2, hi |-> 3, min |-> 2, period |-> 4, pass |-> 2, servers |-> Servers,
      kind |-> [d |-> "dir", e |-> "dir", k |-> "litdir", f |-> "file", l |-> "lit"]]
Graphs == {[d |-> {"e", "f"}, e |-> {"d"}, k |-> {}],            \* a cycle
           [d |-> {"k", "l"}, e |-> {}, k |-> {"f", "e"}],       \* something hidden
           [d |-> {}, e |-> {"f"}, k |-> {"l"}]}
Roots == {{}, {"d"}, {"k"}, {"f"}}
NoRunYet == [asked |-> {}, renewed |-> {}, listed |-> {}, twice |-> FALSE, t0 |-> 0]

Init ==
    /\ \E r \in Roots, k \in Graphs, C \in SUBSET Servers :
         s = [Start(c) EXCEPT !.root = r, !.kids = k, !.conn = C,
                \* a lease that is soon over, one that is not and something without shares
                !.hold = [x \in Servers |-> [d |-> <<[size |-> 3, exp |-> 2]>>, e |-> <<>>,
                                             f |-> <<[size |-> 1, exp |-> 5], [size |-> 2, exp |-> 3]>>]]]
    /\ g = [run |-> NoRunYet, fails |-> 0, old |-> <<>>]

\* What the run asks for is written down.
Note(h, x) ==
    LET r == x.run
        f == IF ~Busy(x) THEN h
             ELSE CASE r.phase = "list" -> [h EXCEPT !.twice = @ \/ r.at \in h.listed, !.listed = @ \cup {r.at}]
                    [] r.phase = "stat" -> [h EXCEPT !.twice = @ \/ r.srv \in h.asked, !.asked = @ \cup {r.srv}]
                    [] r.phase = "add" -> [h EXCEPT !.twice = @ \/ <<r.srv, r.at>> \in h.renewed,
                                                    !.renewed = @ \cup {<<r.srv, r.at>>}]
    IN  f
To(x) == s' = x /\ g' = [g EXCEPT !.run = Note(@, x)]
Same == UNCHANGED g
Next ==
    \/ s.t < MaxTime /\ \E x \in Wait(c, s, s.t + 1) :
         /\ s' = x
         /\ IF Busy(x) /\ ~Busy(s) THEN g' = [g EXCEPT !.run = Note([NoRunYet EXCEPT !.t0 = x.t], x), !.old = s.done]
            ELSE Same
    \/ Busy(s) /\ \E x \in Ok(c, s) : To(x)
    \/ Busy(s) /\ g.fails < MaxFail /\ \E x \in Fail(c, s) \cup Lost(c, s) \cup FailFull(c, s) :
         s' = x /\ g' = [g EXCEPT !.fails = @ + 1]
    \/ ~s.on /\ ~Busy(s) /\ s' = Boot(c, s) /\ Same
    \/ s.on /\ s' = Stop(s) /\ Same
    \/ s.on /\ s' = Crash(s) /\ Same
vars == <<s, g>>
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(s.t < MaxTime /\ \E x \in Wait(c, s, s.t + 1) : s' = x /\ Same)
Always(P) == [][P]_vars
-----------------------------------------------------------------------------
(* What can be reached at all. *)
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {s.kids[d] : d \in S \cap Dirs(c)} IN IF T = S THEN S ELSE Reach(T)
Things == Reach(s.root) \cap Stored(c)

(* M01 *)
Once == ~g.run.twice
OnlyReachable == Busy(s) => s.run.found \cap Stored(c) \subseteq Things
\* A run that has reached the servers has found everything.
Complete == s.run.phase \in {"stat", "add"} => s.run.found = Things
OnlyNeeded == Always(s'.hold # s.hold =>
                /\ s.run.phase = "add"
                /\ \A x \in Servers, n \in Stored(c) :
                     s'.hold[x][n] # s.hold[x][n] =>
                        /\ <<x, n>> = <<s.run.srv, s.run.at>>
                        /\ \E i \in 1..Len(s.hold[x][n]) : s.hold[x][n][i].exp - s.t < c.min)
\* When a run has succeeded nothing is left that was about to expire when it began.
Done == Always(s.run.phase # "none" /\ s'.run.phase = "none" /\ s'.done # s.done /\ s'.t = s.t =>
                 \A x \in s.conn, n \in Things :
                   \A i \in 1..Len(s'.hold[x][n]) : s'.hold[x][n][i].exp - g.run.t0 >= c.min)
(* M02 *)
InTime == /\ (s.win # <<>> => s.on /\ ~Busy(s) /\ s.t <= s.win[2])
          /\ (s.on /\ ~Busy(s) => s.win # <<>>)
Begins == Always(Busy(s') /\ ~Busy(s) =>
                   /\ s.on /\ s.win # <<>>
                   /\ (s.last = <<>> \/ s'.t - s.last[1] >= c.lo))
(* M03 *)
Recorded == Always(s'.done # s.done => ~Busy(s') /\ s'.last = <<s'.t>>)
=============================================================================
