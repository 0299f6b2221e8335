------------------------------- MODULE Issuer -------------------------------
(* What a wallet makes of the answers of an issuer: which tokens it stores, *)
(* and what becomes of the voucher.                                         *)
(*                                                                          *)
(* The algebra of blind signatures is explicit.  A request carries a batch  *)
(* of blinded tokens <<voucher, group, i>>; a signature is [t, k], a token  *)
(* and the key it was signed with; a proof [k, b, s] shows that the         *)
(* signatures s are those of the batch b with the key k - if they are.      *)
EXTENDS Http

Outset == Start @@ [signed |-> {}]       \* what is stored: <<token, key>>

Batch(c, s, v) == LET g == s.V[v].ctr IN [i \in 1..GroupSize(c, s.V[v].exp, g) |-> <<v, g, i>>]
Signed(b, k) == [i \in 1..Len(b) |-> [t |-> b[i], k |-> k]]
Nonsense == [t |-> <<"?", 0, 0>>, k |-> "?"]
Else(b) == [i \in 1..Len(b) |-> <<"?", 0, i>>]      \* tokens of another request
Other(k) == IF k = "K1" THEN "K2" ELSE "K1"

(* -- an answer ------------------------------------------------------------ *)
(* a : [conn |-> how it is delivered, code |-> of HTTP, body |-> how it is   *)
(*      encoded, success, reason |-> what it says,                           *)
(*      sigs, proof, key |-> what is wrong with it, by |-> who signs]        *)
Good(by) == [conn |-> "ok", code |-> 200, body |-> "json", success |-> "true", reason |-> "missing",
             sigs |-> "all", proof |-> "right", key |-> "by", by |-> by]

Conns == {"ok", "pieces", "chunked", "close", "reset", "truncated", "truncchunk", "garbage", "refused"}
Delivered(a) == a.conn \in {"ok", "pieces", "chunked", "close"}
Bodies == {"json", "spaces", "extra", "text", "html", "empty", "utf8", "half", "list", "null", "number", "string", "twice"}
Json(a) == a.body \in {"json", "spaces", "extra"}
Successes == {"true", "false", "missing", "null", "zero", "nothing", "one", "yes", "no"}
Reasons == {"missing", "double-spend", "unpaid", "other", "null", "list", "case", "dict", "prefix", "zero"}
Wrong == {"missing", "null", "number", "garbage", "empty"}        \* instead of anything that can be decoded
Sigs == {"all", "fewer", "more", "none", "swapped", "doubled", "otherkey", "onekey", "elsewhere", "oneelse",
         "onenull", "onegarbage", "oneshort", "object", "nested"} \cup Wrong
Proofs == {"right", "otherkey", "elsewhere", "swapped", "short", "long", "list"} \cup Wrong
KeysNamed == {"by", "other", "third", "short", "long", "list"} \cup Wrong

\* The signatures sent for batch b, or nothing.
SigsOf(a, b) ==
    LET g == Signed(b, a.by)
        n == Len(b)
    IN  CASE a.sigs = "all" -> g
          [] a.sigs = "fewer" -> SubSeq(g, 1, n - 1)
          [] a.sigs = "more" -> Append(g, [t |-> <<"?", 0, 0>>, k |-> a.by])
          [] a.sigs = "none" -> <<>>
          [] a.sigs = "swapped" -> [i \in 1..n |-> IF n > 1 /\ i <= 2 THEN g[3 - i] ELSE g[i]]
          [] a.sigs = "doubled" -> [i \in 1..n |-> IF i = n THEN g[1] ELSE g[i]]
          [] a.sigs = "otherkey" -> Signed(b, Other(a.by))
          [] a.sigs = "onekey" -> [i \in 1..n |-> IF i = n THEN [t |-> b[i], k |-> Other(a.by)] ELSE g[i]]
          [] a.sigs = "elsewhere" -> Signed(Else(b), a.by)
          [] a.sigs = "oneelse" -> [i \in 1..n |-> IF i = n THEN [t |-> <<"?", 0, i>>, k |-> a.by] ELSE g[i]]
          [] OTHER -> <<Nonsense>>

\* The proof sent, of whatever.
ProofOf(a, b) ==
    LET sg == SigsOf(a, b)
        n == Len(b)
        sw == [i \in 1..n |-> IF n > 1 /\ i <= 2 THEN b[3 - i] ELSE b[i]]
    IN  CASE a.proof = "right" -> [k |-> a.by, b |-> b, s |-> sg]
          [] a.proof = "otherkey" -> [k |-> Other(a.by), b |-> b, s |-> sg]
          [] a.proof = "elsewhere" -> [k |-> a.by, b |-> Else(b), s |-> Signed(Else(b), a.by)]
          [] a.proof = "swapped" -> [k |-> a.by, b |-> sw, s |-> sg]
          [] OTHER -> [k |-> "?", b |-> <<>>, s |-> <<>>]
KeyOf(a) ==
    CASE a.key = "by" -> a.by
      [] a.key = "other" -> Other(a.by)
      [] a.key = "third" -> "K3"
      [] OTHER -> "?"

\* Are the signatures those of the batch with that key?
Verifies(b, sg, p, k) ==
    /\ Len(b) = Len(sg) /\ Len(b) > 0
    /\ p = [k |-> k, b |-> b, s |-> sg]
    /\ sg = Signed(b, k)

Valid(a, b) == Verifies(b, SigsOf(a, b), ProofOf(a, b), KeyOf(a))

Told(a) == CASE a.reason = "double-spend" -> "spent"
             [] a.reason = "unpaid" -> "unpaid"
             [] OTHER -> "error"

(* What may be made of it: "redeemed", "spent", "unpaid", "error".           *)
Verdicts(a, b) ==
    IF ~Delivered(a) \/ ~Json(a) THEN {"error"}
    ELSE CASE a.success = "true" ->
                IF ~Valid(a, b) THEN {"error"}
                ELSE IF a.code = 200 /\ a.reason = "missing" THEN {"redeemed"}
                ELSE {"redeemed", "error"}         \* it contradicts itself
           [] a.success \in {"one", "yes", "no"} -> IF Valid(a, b) THEN {"redeemed", "error"} ELSE {"error"}
           [] a.success = "false" -> IF a.code \in {200, 400} THEN {Told(a)} ELSE {Told(a), "error"}
           [] OTHER -> {Told(a), "error"}

(* The answer to the request that is open for voucher v. *)
Respond(c, s, v, a, t) ==
    IF v \notin Active(s) THEN {s}
    ELSE LET b == Batch(c, s, v)
         IN  {IF x = "redeemed"
              THEN [Redeem(c, s, v, KeyOf(a), 1, t) EXCEPT !.signed = @ \cup {<<SigsOf(a, b)[i].t, KeyOf(a)>> : i \in 1..Len(b)}]
              ELSE Fail(s, v, x, "", t)
                : x \in Verdicts(a, b)}

(* A server that announces an issuer other than the configured one is of no use. *)
Announced == {"same", "host", "scheme", "port", "path", "longer", "missing", "empty", "null"}
Usable(x) == x = "same"
=============================================================================
