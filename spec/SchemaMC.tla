------------------------------ MODULE SchemaMC ------------------------------
(* Upgrades of small databases, interrupted anywhere and begun again.       *)
EXTENDS Schema
CONSTANTS Vouchers, MaxDeaths
VARIABLES disk,      \* what is durable
          mem,       \* what the process that has the database open sees
          first,     \* what there was in the beginning
          deaths
vars == <<disk, mem, first, deaths>>

Some == {[st |-> "pending", fin |-> 0, ctr |-> 0], [st |-> "pending", fin |-> 5, ctr |-> 1],
         [st |-> "redeemed", fin |-> 6, ctr |-> 1], [st |-> "double-spend", fin |-> 7, ctr |-> 0]}
Voucher(x, ver, old) ==
    [st |-> x.st, cre |-> At(1, ver >= 8), fin |-> At(x.fin, ver >= 10 \/ (ver >= 8 /\ ~old)),
     cnt |-> IF x.st = "redeemed" THEN 2 ELSE 0, key |-> "k", ctr |-> IF ver < 3 /\ x.st = "pending" THEN 0 ELSE x.ctr, exp |-> 4]
DB(ver, f, T, old) ==
    LET V == [v \in Vouchers |-> Voucher(f[v], ver, old)]
        B == {v \in Vouchers : V[v].st = "redeemed" \/ V[v].ctr > 0}
        \* there are no tokens unless something was redeemed
        tok == IF B = {} THEN {} ELSE {[t |-> t, gr |-> IF ver < 6 THEN 0 ELSE t] : t \in T}
    IN  [ver |-> ver, V |-> V,
         rnd |-> {[v |-> v, g |-> V[v].ctr, t |-> 7] : v \in {x \in Vouchers : V[x].st = "pending"}},
         tok |-> tok, inv |-> {[t |-> 9, why |-> "x"]},
         G |-> [g \in {1, 2} |-> [v |-> CHOOSE v \in Vouchers : TRUE, key |-> "k", sp |-> g = 2]],
         lm |-> <<[s |-> At(2, ver >= 8), f |-> At(3, ver >= 8), n |-> 1], [s |-> At(4, ver >= 8), f |-> At(0, ver >= 8), n |-> 1]>>,
         ev |-> <<[n |-> 1, stmt |-> "a", imp |-> TRUE, args |-> <<1>>]>>]
Nothing == [ver |-> 0]
Init == /\ \E ver \in 1..Latest, f \in [Vouchers -> Some], T \in SUBSET {1, 2}, old \in BOOLEAN : first = DB(ver, f, T, old)
        /\ disk = first /\ mem = Nothing /\ deaths = 0
\* Everything happens in one transaction.
Open == mem = Nothing /\ mem' = disk /\ UNCHANGED <<disk, first, deaths>>
Step == mem # Nothing /\ mem.ver < Latest /\ mem' = Upgrade(mem) /\ UNCHANGED <<disk, first, deaths>>
Commit == mem # Nothing /\ mem.ver = Latest /\ disk' = mem /\ UNCHANGED <<mem, first, deaths>>
Die == mem # Nothing /\ deaths < MaxDeaths /\ mem' = Nothing /\ deaths' = deaths + 1 /\ UNCHANGED <<disk, first>>
Next == Open \/ Step \/ Commit \/ Die
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(Open) /\ WF_vars(Step) /\ WF_vars(Commit)

Intact == Value(disk) = Value(first) /\ (mem # Nothing => Value(mem) = Value(first))
Whole == disk.ver \in {first.ver, Latest}
Sensible == disk.ver = Latest => Clear(disk)
Idle == [][disk.ver = Latest => disk' = disk]_vars
Finally == <>[](disk.ver = Latest)
=============================================================================
