------------------------------ MODULE Replica -------------------------------
(***************************************************************************)
(* Replication of the wallet's database to a directory on the grid, and     *)
(* recovery from it.  (src/_zkapauthorizer/replicate.py, recover.py,        *)
(* tahoe.py)                                                                *)
(*                                                                          *)
(* The contents of the wallet is the number k of transactions committed     *)
(* since the database was made: which ones does not matter here.  While     *)
(* replication is on, each transaction also adds its changes, numbered, to  *)
(* the log in the same database.                                            *)
(*                                                                          *)
(*   persistent, local                                                      *)
(*     k      the number of transactions committed                          *)
(*     last   the highest number given to a change                          *)
(*     log    the numbers of the changes in the log                         *)
(*     tx     number |-> the transaction it belongs to                      *)
(*     imp    number |-> was it important                                   *)
(*     size   number |-> its size                                           *)
(*     conf   has a replica been set up                                     *)
(*   persistent, on the grid                                                *)
(*     dir    name |-> object; an object is a snapshot [t, k, seq, log], a  *)
(*            stream of changes [t, nums] or something else                 *)
(*   volatile                                                               *)
(*     up     is there a process                                            *)
(*     svc    is the replication service running                            *)
(*     acc    [imp, size] the changes since an upload was last asked for    *)
(*     q      the jobs waiting                                              *)
(*     failed the jobs that failed and will be done again                   *)
(*     cur    the job in progress, waiting for a request to be answered     *)
(*     out    the requests made by the latest operation                     *)
(*   history                                                                *)
(*     safe   the transactions that a completed upload covers               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Empty == [x \in {} |-> x]
Put(f, x, v) == (x :> v) @@ f
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
MaxOf(a, b) == IF a > b THEN a ELSE b

Idle == [j |-> "none", step |-> "", obj |-> [t |-> "none"], name |-> "", todo |-> {}]
NoAcc == [imp |-> FALSE, size |-> 0]

Start == [ k |-> 0, last |-> 0, log |-> {}, tx |-> Empty, imp |-> Empty,
           size |-> Empty, conf |-> FALSE, dir |-> Empty,
           up |-> FALSE, svc |-> FALSE, acc |-> NoAcc, q |-> <<>>,
           failed |-> <<>>, cur |-> Idle, out |-> <<>>, safe |-> -1 ]

(* c.large is how much must accumulate to be worth an upload. *)
Due(c, acc) == acc.imp \/ acc.size >= c.large

RECURSIVE SumSize(_, _)
SumSize(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumSize(f, S \ {x})
Left(s) == [imp |-> \E n \in s.log : s.imp[n], size |-> SumSize(s.size, s.log)]

Streams(dir) == {x \in DOMAIN dir : dir[x].t = "events"}
Stored(dir) == UNION {dir[x].nums : x \in Streams(dir)}
HasSnapshot(dir) == "snapshot" \in DOMAIN dir /\ dir["snapshot"].t = "snapshot"
StreamName(n) == "event-stream-" \o ToString(n)

(***************************************************************************)
(* The jobs.                                                                *)
(***************************************************************************)
In(x, q) == \E i \in 1..Len(q) : q[i] = x
Ask(s, kind, name, obj) ==
    [s EXCEPT !.out = Append(@, [kind |-> kind, name |-> name, obj |-> obj])]
NoObj == [t |-> "none"]

Fail(s) == [s EXCEPT !.failed = IF In(s.cur.j, @) THEN @ ELSE Append(@, s.cur.j),
                     !.cur = Idle]
(* The current job is over. *)
Done(s) == [s EXCEPT !.cur = Idle]

(* Begin the first waiting job.  trouble: the database fails meanwhile. *)
Begin(s, trouble) ==
    LET j == Head(s.q)
        s1 == [s EXCEPT !.q = Tail(@), !.cur = [Idle EXCEPT !.j = j]]
    IN  CASE j = "startup" -> Ask([s1 EXCEPT !.cur.step = "list"], "list", "", NoObj)
          [] trouble -> Fail(s1)
          [] j = "events" /\ s.log = {} -> Done(s1)
          [] j = "events" ->
               LET o == [t |-> "events", nums |-> s.log]
               IN  Ask([s1 EXCEPT !.cur.step = "upload", !.cur.obj = o,
                                  !.cur.name = StreamName(Max(s.log))],
                       "upload", "", o)
          [] j = "snapshot" ->
               LET o == [t |-> "snapshot", k |-> s.k, seq |-> s.last, log |-> s.log]
               IN  Ask([s1 EXCEPT !.cur.step = "upload", !.cur.obj = o,
                                  !.cur.name = "snapshot"], "upload", "", o)
          [] j = "consider" -> Ask([s1 EXCEPT !.cur.step = "list"], "list", "", NoObj)

(* trouble: the database fails during the how manyth job, if not 0. *)
RECURSIVE Run(_, _)
Run(s, trouble) ==
    IF ~s.up \/ ~s.svc \/ s.cur.j # "none" \/ s.q = <<>> THEN s
    ELSE Run(Begin(s, trouble = 1), IF trouble > 0 THEN trouble - 1 ELSE 0)

(* Queue jobs one after the other, unless they are waiting already; an idle *)
(* service begins the first at once.                                        *)
RECURSIVE Enqueue(_, _, _)
Enqueue(s, js, trouble) ==
    IF js = <<>> THEN s
    ELSE LET s1 == IF In(Head(js), s.q) THEN s ELSE [s EXCEPT !.q = Append(@, Head(js))]
         IN  Enqueue(Run(s1, trouble), Tail(js), 0)
Queue(s, j, trouble) ==
    Enqueue([s EXCEPT !.failed = <<>>], Append(s.failed, j), trouble)
(* The same, from within a job. *)
QueueHere(s, j) ==
    LET js == IF In(j, s.failed) THEN s.failed ELSE Append(s.failed, j)
    IN  [s EXCEPT !.failed = <<>>,
                  !.q = @ \o SelectSeq(js, LAMBDA x : ~In(x, s.q))]

(* What the grid does with the request of the current job. *)
Effect(s) ==
    CASE s.cur.step = "link" -> [s EXCEPT !.dir = Put(s.dir, s.cur.name, s.cur.obj),
                                          !.safe = IF s.cur.obj.t = "snapshot"
                                                   THEN MaxOf(@, s.cur.obj.k)
                                                   ELSE IF HasSnapshot(s.dir)
                                                   THEN MaxOf(@, s.tx[Max(s.cur.obj.nums)])
                                                   ELSE @]
      [] s.cur.step = "unlink" -> [s EXCEPT !.dir = Drop(@, s.cur.name)]
      [] OTHER -> s

Prune(s, n) == [s EXCEPT !.log = {x \in @ : x > n}]
Old(s, n) == {x \in Streams(s.dir) : Max(s.dir[x].nums) <= n}

NextUnlink(s) ==
    IF s.cur.todo = {} THEN Done(s)
    ELSE \* any order will do: the request says which it was
         Ask([s EXCEPT !.cur.step = "unlink", !.cur.name = "?"], "unlink", "?", NoObj)

(* The answer to the request of the current job has arrived.  tr: the        *)
(* database fails "here", in what is left of the job, or in the "next" one   *)
(* or the one "after" that.                                                  *)
Later(tr) == CASE tr = "next" -> 1 [] tr = "after" -> 2 [] OTHER -> 0
Advance(c, s, pol, tr) ==
    LET j == s.cur.j
        st == s.cur.step
    IN  CASE j = "startup" ->
               Run(Done(IF "snapshot" \notin DOMAIN s.dir THEN QueueHere(s, "snapshot")
                        ELSE IF Due(c, s.acc) THEN QueueHere(s, "events")
                        ELSE s), Later(tr))
          [] j = "consider" ->
               Run(Done(IF pol THEN QueueHere(s, "snapshot") ELSE s), Later(tr))
          [] st = "upload" ->
               Ask([s EXCEPT !.cur.step = "link"], "link", s.cur.name, s.cur.obj)
          [] j = "events" /\ st = "link" ->
               IF tr = "here" THEN Run(Fail(s), 0)
               ELSE Run(Done(QueueHere(Prune(s, Max(s.cur.obj.nums)), "consider")), Later(tr))
          [] j = "snapshot" /\ st = "link" ->
               IF tr = "here" THEN Run(Fail(s), 0)
               ELSE Ask([Prune(s, s.cur.obj.seq) EXCEPT !.cur.step = "listold"],
                        "list", "", NoObj)
          [] st = "listold" ->
               Run(NextUnlink([s EXCEPT !.cur.todo = Old(s, s.cur.obj.seq)]), Later(tr))
          [] st = "unlink" ->
               Run(NextUnlink([s EXCEPT !.cur.todo = @ \ {s.cur.name}]), Later(tr))

(* Asking for something that is already gone is an error. *)
Refused(s) == s.cur.step = "unlink" /\ s.cur.name \notin DOMAIN s.dir

Again(s) == [s EXCEPT !.out = <<[kind |-> IF s.cur.step = "listold" THEN "list" ELSE s.cur.step,
                                 name |-> IF s.cur.step \in {"link", "unlink"} THEN s.cur.name ELSE "",
                                 obj |-> IF s.cur.step \in {"link", "upload"} THEN s.cur.obj ELSE NoObj]>>]

Answer(c, s, kind, pol, tr) ==
    CASE kind = "again" -> Again(s)
      [] kind = "fail" -> Run(Fail(s), Later(tr))
      [] kind = "lost" -> Run(Fail(Effect(s)), Later(tr))
      [] Refused(s) -> Run(Fail(s), Later(tr))
      [] OTHER -> Advance(c, Effect(s), pol, tr)

(***************************************************************************)
(* The wallet.                                                              *)
(***************************************************************************)
(* A transaction with changes of these sizes commits. *)
Commit(s, sizes, imp) ==
    LET n == Len(sizes)
        new == (s.last + 1)..(s.last + n)
    IN  IF n = 0 THEN s
        ELSE IF ~s.up \/ ~s.conf THEN [s EXCEPT !.k = @ + 1]
        ELSE [s EXCEPT !.k = @ + 1, !.last = @ + n, !.log = @ \cup new,
                       !.tx = [x \in new |-> s.k + 1] @@ @,
                       !.imp = [x \in new |-> imp] @@ @,
                       !.size = [x \in new |-> sizes[x - s.last]] @@ @]

RECURSIVE SeqSum(_)
SeqSum(x) == IF x = <<>> THEN 0 ELSE Head(x) + SeqSum(Tail(x))

Notice(c, s, sizes, imp, trouble) ==
    IF ~s.conf \/ sizes = <<>> THEN s
    ELSE LET acc == [imp |-> s.acc.imp \/ imp, size |-> s.acc.size + SeqSum(sizes)]
         IN  IF Due(c, acc) THEN [Queue(s, "events", trouble) EXCEPT !.acc = NoAcc]
             ELSE [s EXCEPT !.acc = acc]

Transaction(c, s, sizes, imp, trouble) ==
    Notice(c, Commit(s, sizes, imp), sizes, imp, trouble)

(***************************************************************************)
(* The process.                                                             *)
(***************************************************************************)
Serve(s) == Queue([s EXCEPT !.conf = TRUE, !.svc = TRUE, !.acc = Left(s),
                            !.q = <<>>, !.failed = <<>>, !.cur = Idle], "startup", 0)
Boot(s) == IF s.conf THEN Serve([s EXCEPT !.up = TRUE]) ELSE [s EXCEPT !.up = TRUE]
Down(s) == [s EXCEPT !.up = FALSE, !.svc = FALSE, !.acc = NoAcc, !.q = <<>>,
                     !.failed = <<>>, !.cur = Idle, !.out = <<>>]
Halt(s) == [s EXCEPT !.svc = FALSE, !.cur = Idle]

(***************************************************************************)
(* Recovery.                                                                *)
(***************************************************************************)
(* The changes that get applied on top of the snapshot, in order. *)
RECURSIVE Apply(_, _, _)
Apply(dir, names, applied) ==
    IF names = {} THEN <<>>
    ELSE LET x == CHOOSE y \in names :
                     \A z \in names : Max(dir[y].nums) <= Max(dir[z].nums)
             new == {n \in dir[x].nums : n > applied}
             f == [i \in 1..Cardinality(new) |->
                     CHOOSE n \in new : Cardinality({m \in new : m < n}) = i - 1]
         IN  f \o Apply(dir, names \ {x}, MaxOf(applied, Max(dir[x].nums)))
Replayed(dir) == Apply(dir, Streams(dir), dir["snapshot"].seq)

(* Does the replica lead to a state that the wallet was in? *)
Consistent(s) ==
    HasSnapshot(s.dir) =>
        LET r == Replayed(s.dir)
            b == s.dir["snapshot"].seq
        IN  /\ \A i \in 1..Len(r) : r[i] = b + i
            /\ r # <<>> => /\ s.tx[r[1]] = s.dir["snapshot"].k + 1
                           /\ LET m == r[Len(r)]
                              IN  m = s.last \/ s.tx[m + 1] > s.tx[m]

Recovered(s) ==
    LET r == Replayed(s.dir)
    IN  IF r = <<>> THEN s.dir["snapshot"].k ELSE s.tx[r[Len(r)]]

(* The wallet is lost, and begun anew from the replica. *)
Disaster(s) ==
    LET o == s.dir["snapshot"]
    IN  [Start EXCEPT !.last = o.seq, !.log = o.log,
                      !.tx = [n \in o.log |-> 0],
                      !.imp = [n \in o.log |-> s.imp[n]],
                      !.size = [n \in o.log |-> s.size[n]],
                      !.safe = -1]

(***************************************************************************)
(* What must be true.                                                       *)
(***************************************************************************)
(* R01, R02 *)
Recoverable(s) ==
    HasSnapshot(s.dir) => Consistent(s) /\ Recovered(s) >= s.safe
(* R03 *)
Logged(s) ==
    /\ s.log \subseteq 1..s.last
    /\ \A n \in s.log : n \in DOMAIN s.tx /\ s.tx[n] <= s.k
    /\ \A m, n \in s.log : m < n => s.tx[m] <= s.tx[n]
(* R04: whatever is not in the log any more is in the replica. *)
Kept(s) ==
    \A n \in DOMAIN s.tx : s.tx[n] > 0 /\ n \notin s.log =>
        \/ n \in Stored(s.dir)
        \/ HasSnapshot(s.dir) /\ s.dir["snapshot"].seq >= n
(* R05: an important change is in the replica, or will be. *)
Promised(s) ==
    s.up /\ s.svc /\ (\E n \in s.log : s.imp[n]) =>
            \/ s.cur.j \in {"startup", "snapshot", "events"}
            \/ \E j \in {"startup", "snapshot", "events"} : In(j, s.q) \/ In(j, s.failed)
            \/ s.acc.imp
(* R06 *)
Names(s) ==
    \A x \in DOMAIN s.dir :
        CASE s.dir[x].t = "events" -> x = StreamName(Max(s.dir[x].nums))
          [] s.dir[x].t = "snapshot" -> x = "snapshot"
          [] OTHER -> TRUE
=============================================================================
