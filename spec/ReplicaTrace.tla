---------------------------- MODULE ReplicaTrace ----------------------------
(* Is what the real replication and recovery did (harness/replica.py) what  *)
(* Replica does?                                                            *)
EXTENDS Replica, Verdict
VARIABLES l, c, st, bad,
          ids      \* number |-> the statement of that change, as executed

(* -- what was observed -- *)
Sizes(e) == [i \in 1..Len(e.stmts) |-> e.stmts[i].size]
LogNums(e) == {x.n : x \in Seqs(e.log)}
DirNames(e) == {x.name : x \in Seqs(e.dir)}
Entry(e, n) == CHOOSE x \in Seqs(e.dir) : x.name = n

(* Is what is stored what the model says? *)
SameObj(m, o) ==
    CASE m.t = "snapshot" -> /\ o.t = "snapshot" /\ m.k \in Seqs(o.ks)
                             /\ o.seq = m.seq /\ Seqs(o.log) = m.log
      [] m.t = "events" -> o.t = "events" /\ Seqs(o.nums) = m.nums
      [] OTHER -> o.t = m.t
SameDir(m, e) == /\ DOMAIN m.dir = DirNames(e)
                 /\ \A n \in DOMAIN m.dir : SameObj(m.dir[n], Entry(e, n).obj)

(* The request for an object to be removed says which one it is. *)
Choices(m, r) ==
    IF m.cur.name # "?" THEN {m}
    ELSE LET X == {x.name : x \in {y \in Seqs(r) : y.kind = "unlink"}} \cap m.cur.todo
         IN  IF X = {} THEN {m}
             ELSE {[m EXCEPT !.cur.name = x,
                             !.out = [i \in 1..Len(@) |-> IF @[i].name = "?" THEN [@[i] EXCEPT !.name = x]
                                                          ELSE @[i]]] : x \in X}

SameReq(m, r) == m.kind = r.kind /\ m.name = r.name /\ SameObj(m.obj, r.obj)
SameReqs(m, e) == /\ Len(m.out) = Len(e.reqs)
                  /\ \A i \in 1..Len(e.reqs) : SameReq(m.out[i], e.reqs[i])

Local(m, e) == m.k \in Seqs(e.ks) /\ m.log = LogNums(e) /\ Len(e.log) = Cardinality(m.log)
Persisted(m, e) == Local(m, e) /\ SameDir(m, e)
Matches(m, e) == Persisted(m, e) /\ m.up = e.alive /\ SameReqs(m, e)

(* -- the operations -- *)
Kind(k) == CASE k \in {"noservers", "notenough", "refused"} -> "again"
             [] k = "drop" -> "fail"
             [] OTHER -> k
Pol(e) == IF Len(e.pols) = 0 THEN FALSE ELSE e.pols[1].ans
Fresh(m) == [m EXCEPT !.out = <<>>]

(* What may come of the operation. *)
Outcomes(s0, e) ==
    LET s == Fresh(s0)
        T(tr) == Transaction(c, s, Sizes(e), e.imp, tr)
        A(tr) == Answer(c, s, Kind(e.kind), Pol(e), tr)
    IN  CASE e.op = "boot" -> {Boot(s)}
          [] e.op = "tx" ->
               CASE e.fault = "none" -> {IF e.out = "ok" THEN T(0) ELSE s}
                 [] e.fault = "crash" -> {Down(s), Down(Commit(s, Sizes(e), e.imp))}
                 [] OTHER -> {s, T(0), T(1), T(2)}
          [] e.op = "setup" -> {Serve(s)}
          [] e.op = "ans" ->
               IF s.cur.j = "none" THEN {s}
               ELSE CASE e.fault = "none" -> {A("no")}
                      [] e.fault = "crash" -> {Down(Effect(s)), Down(A("no"))}
                      [] OTHER -> {A("no"), A("here"), A("next"), A("after")}
          [] e.op = "halt" -> {Halt(s)}
          [] e.op = "crash" -> {Down(IF e.effect THEN Effect(s) ELSE s)}
          [] e.op = "disaster" -> {IF e.out = "ok" /\ HasSnapshot(s.dir)
                                   THEN [Disaster(s) EXCEPT !.dir = c.others]
                                   ELSE Down(s)}
          [] OTHER -> {s}

Candidates(s, e) == UNION {Choices(m, e.reqs) : m \in Outcomes(s, e)}

Chosen(s, e) ==
    LET M == Candidates(s, e)
        A == {m \in M : Matches(m, e)}
        B == {m \in M : Persisted(m, e)}
        D == {m \in M : Local(m, e)}
        W == IF A # {} THEN A ELSE IF B # {} THEN B ELSE IF D # {} THEN D ELSE M
    IN  CHOOSE m \in W : \A n \in W : n.k <= m.k

(* The statements of the new changes. *)
Ids(s, m, e) ==
    IF e.op # "tx" \/ m.last = s.last THEN ids
    ELSE [n \in (s.last + 1)..m.last |->
            IF n - s.last <= Len(e.stmts) THEN e.stmts[n - s.last].id ELSE "?"] @@ ids

(* -- the clauses -- *)
(* Is this what would follow if no request was made? *)
Changes(s, m, e, I) ==
    LET new == LogNums(e) \ s.log
        old == s.log \ LogNums(e)
        kept == m.log \ LogNums(e)
    IN  Check(m.k \in Seqs(e.ks), "R01,R03 the contents of the wallet")
        \cup Check(new \subseteq m.log \/ ~\E n \in new \ m.log : n > s.last,
                   "R03 something recorded that was not a committed change")
        \cup Check({n \in new \ m.log : n <= s.last} = {}, "R03,R02 a change recorded again")
        \cup Check({n \in kept : n > s.last} = {}, "R03 a committed change was not recorded")
        \cup Check({n \in kept : n <= s.last} = {}, "R04,R03 a change was discarded too early")
        \cup Check({n \in s.log \cap LogNums(e) : n \notin m.log} = {}, "R04,R02 a replicated change was not discarded")
        \cup Check(Cardinality(LogNums(e)) = Len(e.log), "R03 two changes with one number")
        \cup Check(\A x \in Seqs(e.log) : x.n \in m.log => x.id = I[x.n],
                   "R03 the statement recorded for a change")
        \cup Check(\A x \in Seqs(e.log) : x.n \in m.log => x.imp = m.imp[x.n],
                   "R03,R05 the importance recorded for a change")

Directory(s, m, e) ==
    LET have == DirNames(e)
        want == DOMAIN m.dir
        Was(n) == n \in DOMAIN s.dir
    IN  UNION {IF ~Was(n) THEN {"R01,R02,R05 an upload was not stored in the replica"}
               ELSE IF s.dir[n].t = "events" THEN {"R04,R02 a stream was removed from the replica"}
               ELSE IF s.dir[n].t = "snapshot" THEN {"R06,R01 the snapshot was removed from the replica"}
               ELSE {"R06 something unrelated was removed from the replica's directory"}
               : n \in want \ have}
        \cup UNION {IF Was(n) THEN {"R06,R02 something was not removed from the replica"}
                    ELSE {"R06,R02 something unexpected was stored in the replica"}
                    : n \in have \ want}
        \cup UNION {IF m.dir[n].t = "snapshot"
                    THEN Check(SameObj(m.dir[n], Entry(e, n).obj), "R01,R02 the snapshot stored")
                    ELSE IF m.dir[n].t = "events"
                    THEN Check(SameObj(m.dir[n], Entry(e, n).obj), "R01,R02 the stream stored")
                    ELSE Check(SameObj(m.dir[n], Entry(e, n).obj), "R06 something unrelated was overwritten")
                    : n \in want \cap have}

Content(m, o, I) ==
    IF o.t = "bad" THEN {"R01 an object that makes no sense was uploaded"}
    ELSE IF o.t # "events" THEN {}
    ELSE Check(\A i, j \in 1..Len(o.nums) : i < j => o.nums[i] < o.nums[j],
               "R01,R03 changes uploaded in the wrong order")
         \cup Check(\A i \in 1..Len(o.nums) : o.nums[i] \in DOMAIN I => o.ids[i] = I[o.nums[i]],
                    "R01,R03 the statement uploaded for a change")
         \cup Check(\A i \in 1..Len(o.nums) : o.nums[i] \in DOMAIN m.imp => o.imps[i] = m.imp[o.nums[i]],
                    "R03,R05 the importance uploaded for a change")

(* What is the matter with a request? *)
Wrong(x, r) ==
    CASE x.kind # r.kind -> {}
      [] x.name # r.name ->
           IF x.kind = "link" THEN {"R02,R06 the name an upload is stored under"}
           ELSE {"R04,R06 the entry to be removed"}
      [] SameObj(x.obj, r.obj) -> {}
      [] x.obj.t = "snapshot" /\ r.obj.t = "snapshot" ->
           {"R01,R02 the contents of a snapshot"}
      [] x.obj.t = "events" /\ r.obj.t = "events" ->
           IF x.obj.nums \subseteq Seqs(r.obj.nums) THEN {"R03,R02 a change uploaded that was not recorded"}
           ELSE {"R05,R04 a recorded change was not uploaded with the others"}
      [] x.kind = "upload" -> {"R05,R06 the kind of upload made"}
      [] OTHER -> {"R02,R06 the object linked"}

About(x) ==
    CASE x.kind = "list" -> "R06"
      [] x.kind = "upload" /\ x.obj.t = "events" -> "R05"
      [] x.kind = "upload" -> "R06,R05"
      [] x.kind = "link" -> "R02,R05,R06"
      [] OTHER -> "R06,R02"

Requests(s, m, e, I) ==
    UNION {Content(m, r.obj, I) : r \in Seqs(e.reqs)}
    \cup UNION {IF i > Len(e.reqs)
                THEN {About(m.out[i]) \o " a request is missing: " \o m.out[i].kind \o " " \o m.out[i].obj.t}
                ELSE IF m.out[i].kind # e.reqs[i].kind
                THEN {About(m.out[i]) \o " not the request expected: " \o m.out[i].kind \o " " \o m.out[i].obj.t}
                ELSE Wrong(m.out[i], e.reqs[i]) : i \in 1..Len(m.out)}
    \cup UNION {LET r == e.reqs[i]
                IN  CASE r.kind = "unlink" /\ r.name \in DOMAIN s.dir /\ s.dir[r.name].t = "other" ->
                           {"R06 removing something unrelated"}
                      [] r.kind = "unlink" -> {"R04,R06 an unexpected removal"}
                      [] r.kind = "upload" /\ r.obj.t = "snapshot" -> {"R06 an unexpected snapshot"}
                      [] r.kind = "upload" -> {"R05 an unexpected upload"}
                      [] OTHER -> {"R05,R06 an unexpected request: " \o r.kind}
                : i \in {j \in 1..Len(e.reqs) : j > Len(m.out)}}

Ceil(a, b) == (a + b - 1) \div b
Cost(x) == Ceil(Ceil(x, c.cost[2]), c.cost[1]) * c.cost[3]
RECURSIVE SumCost(_)
SumCost(x) == IF x = <<>> THEN 0 ELSE Cost(Head(x)) + SumCost(Tail(x))

Policy(s, m, e) ==
    LET consulted == /\ e.op = "ans" /\ s.cur.j = "consider" /\ e.kind = "ok"
        p == e.pols[1]
        \* as it was listed
        real == {x \in Seqs(e.dir) : x.obj.t \in {"snapshot", "events"}}
        sizes == {x.size : x \in real}
        Count(z) == Cardinality({x \in real : x.size = z})
    IN  Check(Len(e.pols) = (IF consulted THEN 1 ELSE 0) \/ e.fault # "none",
              "R06 the policy was not consulted when it should be")
        \cup (IF Len(e.pols) = 0 THEN {}
              ELSE Check(p.snap \in Seqs(p.true), "R06 the size of a new snapshot")
                   \cup Check(/\ Seqs(p.sizes) = sizes
                              /\ \A z \in sizes :
                                   Cardinality({i \in 1..Len(p.sizes) : p.sizes[i] = z}) = Count(z),
                              "R06 the sizes of the objects in the replica")
                   \cup Check(c.say \/ p.ans = (Cost(p.snap) * c.cost[4] < SumCost(p.sizes)),
                              "R06 the decision whether to make a snapshot"))

Recovery(m, e) ==
    IF ~e.rec.tried \/ ~HasSnapshot(m.dir) THEN {}
    ELSE IF ~e.rec.ok THEN {"R01,R02 recovery failed"}
    ELSE Check(e.rec.ks # <<>>, "R01,R02 recovery led to a state the wallet never had")
         \cup Check(e.rec.ks = <<>> \/ \E k \in Seqs(e.rec.ks) : k >= m.safe,
                    "R01 recovery lost something that had been uploaded")
         \cup Check(e.rec.ks = <<>> \/ Recovered(m) \in Seqs(e.rec.ks),
                    "R02,R01 recovery led to another state than it should")
         \cup Check(e.rec.avail = e.rec.spendable, "R01 tokens are reserved after recovery")

Outcome(s, m, e) ==
    Check(e.alive = m.up, "R01,R02,R03 the process did not start")
    \cup Check(e.fault # "none" \/ e.out \in {"ok", "nope", "NotEnoughTokens"}
               \/ e.op = "disaster", "R01,R03,R05 an operation failed: " \o e.out)
    \cup Check(e.op # "disaster" \/ ~HasSnapshot(s.dir) \/ e.out = "ok", "R01,R02 recovery failed")
    \cup Check(e.op # "tx" \/ e.out = "ok" \/ e.fault # "none" \/ Local(m, e),
               "R03 a failed transaction left something behind")
    \cup Check(e.fault = "none" \/ \E x \in Candidates(s, e) : Local(x, e),
               "R03,R02 an interrupted operation was partly carried out")

AtTheEnd(m, e) ==
    IF e.op # "end" \/ ~m.conf THEN {}
    ELSE Check(m.svc => \A x \in Seqs(e.log) : ~x.imp, "R05 an important change was never uploaded")
         \cup Check(m.svc => HasSnapshot(m.dir), "R06 the replica has no snapshot")

Clauses(s, m, e, I) ==
    Changes(s, m, e, I) \cup Directory(s, m, e) \cup Requests(s, m, e, I)
    \cup Policy(s, m, e) \cup Recovery(m, e) \cup Outcome(s, m, e) \cup AtTheEnd(m, e)

Others(e) == [n \in {"notes", "my-event-stream-3", "snapshot.old", "snapshots", "sub"} |-> [t |-> "other"]]

Init == l = 1 /\ c = [large |-> 0] /\ st = Start /\ bad = 0 /\ ids = Empty

Open(e) ==
    /\ c' = [large |-> e.large, cost |-> e.cost, say |-> e.say, others |-> Others(e)]
    /\ st' = [Start EXCEPT !.dir = Others(e)]
    /\ ids' = Empty
    /\ UNCHANGED bad

(* After a violation the rest of the schedule says nothing more. *)
Skip == [Start EXCEPT !.k = -1]

Step(e) ==
    IF st.k = -1 THEN UNCHANGED <<st, c, bad, ids>>
    ELSE
    LET m == Chosen(st, e)
        I == Ids(st, m, e)
        B == Clauses(st, m, e, I)
    IN  /\ Report(l, B)
        /\ bad' = IF B = {} THEN bad ELSE bad + 1
        /\ st' = IF B = {} THEN m ELSE Skip
        /\ ids' = I
        /\ UNCHANGED c

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF Unforeseen(Trace[l]) THEN ReportUnforeseen(l) /\ bad' = bad + 1 /\ UNCHANGED <<st, c, ids>>
       ELSE IF Trace[l].op = "init" THEN Open(Trace[l]) ELSE Step(Trace[l])
    /\ Finished(l, bad')

Spec == Init /\ [][Next]_<<l, c, st, bad, ids>>
=============================================================================
