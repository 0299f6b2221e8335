------------------------------- MODULE Manage -------------------------------
(* Setting up replication, and recovering from a replica, through the       *)
(* management interface of a node.                                          *)
(*                                                                          *)
(* A constant c of the environment says what there is to recover from:      *)
(*   c.reps : name |-> [kind |-> "good" | "bad" | "gone", has |-> vouchers] *)
(* "bad" replicas can be downloaded but not imported, what "unfit" ones     *)
(* hold can not be committed, and "gone" ones can not be downloaded.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Empty == [x \in {} |-> 0]
Idle == [st |-> "no", cap |-> "-", ups |-> <<>>]
Start == [up    |-> FALSE,   \* is the node running?
          w     |-> {},      \* the vouchers in the wallet
          free  |-> FALSE,   \* is the wallet in no particular state?
          made  |-> 0,       \* directories made for replicas
          conf  |-> 0,       \* the one that is the replica, if any
          busy  |-> FALSE,   \* is a directory being made?
          mixed |-> FALSE,   \* was there a recovery with replication on?
          rec   |-> Idle,    \* the recovery since the start of the node
          ws    |-> Empty,   \* the clients that watch or watched it
          http  |-> <<>>]    \* the answers to requests for a replica

Last(x) == x[Len(x)]
Terminal == {"succeeded", "download_failed", "import_failed"}
Client(st, code, got) == [st |-> st, code |-> code, got |-> got]

(* -- the node ------------------------------------------------------------ *)
Boot(s) == [s EXCEPT !.up = TRUE, !.rec = Idle, !.ws = Empty, !.busy = FALSE, !.http = <<>>]
\* An unfinished recovery leaves nothing behind.
Crash(s) == [s EXCEPT !.up = FALSE, !.rec = Idle, !.ws = Empty, !.busy = FALSE, !.http = <<>>]

(* While a recovery is going on nothing else happens to the wallet. *)
Put(s, v) == IF s.rec.st = "busy" THEN s ELSE [s EXCEPT !.w = @ \cup {v}]

(* -- setting up replication ---------------------------------------------- *)
Answer(code, dir) == [code |-> code, dir |-> dir]
Setup(s) ==
    CASE s.conf # 0 -> [s EXCEPT !.http = <<Answer("conflict", s.conf)>>]
      [] s.busy -> [s EXCEPT !.http = <<Answer("error", 0)>>]
      [] OTHER -> [s EXCEPT !.busy = TRUE]

(* The answer to the request for a directory.  "lost": it was made, but it  *)
(* is not known; "full": it can not be stored which one it is; "again": the *)
(* request is repeated.                                                     *)
MadeDir(s, kind) ==
    CASE kind = "ok" -> [s EXCEPT !.made = @ + 1, !.conf = s.made + 1, !.busy = FALSE,
                                  !.mixed = @ \/ s.rec.st = "busy",
                                  !.http = <<Answer("created", s.made + 1)>>]
      [] kind = "again" -> s
      [] OTHER -> [s EXCEPT !.made = IF kind \in {"lost", "full"} THEN @ + 1 ELSE @,
                            !.busy = FALSE, !.http = <<Answer("error", 0)>>]

(* -- recovery ------------------------------------------------------------ *)
Watching(s) == {k \in DOMAIN s.ws : s.ws[k].st = "watch"}

(* Everyone who watches learns of the new stages, and of the end. *)
Tell(s, stages, end) ==
    [s EXCEPT !.rec.ups = @ \o stages,
              !.rec.st = IF end THEN "done" ELSE "busy",
              !.ws = [k \in DOMAIN s.ws |->
                        IF s.ws[k].st # "watch" THEN s.ws[k]
                        ELSE Client(IF end THEN "closed" ELSE "watch", "normal", s.ws[k].got \o stages)]]

Open(s, k) == [s EXCEPT !.ws = (k :> Client("open", "none", <<>>)) @@ @]
Gone(s, k) == [s EXCEPT !.ws = [j \in DOMAIN s.ws \ {k} |-> s.ws[j]]]
Refuse(s, k) == [s EXCEPT !.ws[k] = Client("closed", "refused", <<>>)]

Garbled(s, k) == Refuse(s, k)
Send(s, k, cap) ==
    LET x == [s EXCEPT !.ws[k] = Client("watch", "normal", s.rec.ups)]
    IN  CASE s.rec.st = "no" ->
               LET y == [x EXCEPT !.rec = [st |-> "busy", cap |-> cap, ups |-> <<>>],
                                  !.mixed = @ \/ s.conf # 0]
               IN  IF s.w # {} THEN Tell(y, <<"import_failed">>, TRUE)
                   ELSE Tell(y, <<"started", "inspect_replica">>, FALSE)
          [] s.rec.cap # cap -> Refuse(s, k)
          [] s.rec.st = "busy" -> x
          [] OTHER -> [x EXCEPT !.ws[k].st = "closed"]

Finish(c, s, stages, how) ==
    LET y == Tell(s, stages \o <<how>>, TRUE)
    IN  CASE how = "succeeded" -> [y EXCEPT !.w = c.reps[s.rec.cap].has]
          [] how = "import_failed" /\ c.reps[s.rec.cap].kind = "bad" -> [y EXCEPT !.free = TRUE]
          [] OTHER -> y

(* The stages there may be on the way.  How often the grid has to be asked  *)
(* is the node's business.                                                  *)
Moves(s) ==
    IF Last(s.rec.ups) = "inspect_replica"
    THEN {<<>>, <<"downloading">>}
    ELSE {<<>>}
Importing == {<<>>, <<"importing">>}

(* What may come of the answer to a request that the recovery made. *)
Downloaded(c, s, kind) ==
    LET good == c.reps[s.rec.cap].kind
        On == {Tell(s, x, FALSE) : x \in Moves(s)}
        Failed == {Finish(c, s, x, "download_failed") : x \in {<<>>}}
        Over == {Finish(c, s, x \o y, IF good = "good" THEN "succeeded" ELSE "import_failed")
                    : x \in Moves(s), y \in Importing}
        Through == {z \in Over : \E i \in 1..Len(z.rec.ups) : z.rec.ups[i] = "downloading"}
    IN  CASE s.rec.st # "busy" -> {s}
          [] kind = "ok" /\ good = "gone" ->
               On \cup {Finish(c, s, x, "download_failed") : x \in Moves(s)}
          [] kind = "ok" -> On \cup Through
          [] kind = "again" -> {s} \cup Failed
          [] OTHER -> Failed
=============================================================================
