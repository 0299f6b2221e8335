"""Writes /verif/properties.jsonl (kept as a program so that it is easy to edit)."""
import json, os
M = "src/_zkapauthorizer/model.py"
C = "src/_zkapauthorizer/controller.py"
SS = "src/_zkapauthorizer/_storage_server.py"
SC = "src/_zkapauthorizer/_storage_client.py"
CM = "src/_zkapauthorizer/storage_common.py"
SP = "src/_zkapauthorizer/spending.py"
RP = "src/_zkapauthorizer/replicate.py"
RC = "src/_zkapauthorizer/recover.py"
RS = "src/_zkapauthorizer/resource.py"
LM = "src/_zkapauthorizer/lease_maintenance.py"
SCH = "src/_zkapauthorizer/schema.py"
PC = "src/_zkapauthorizer/pricecalculator.py"
PR = "src/_zkapauthorizer/private.py"
TA = "src/_zkapauthorizer/tahoe.py"
PL = "src/_zkapauthorizer/_plugin.py"

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

# ---------------------------------------------------------------- wallet
prop("W01", "Redeemed value is conserved",
 """Every token the issuer hands out for a voucher group is, from the moment the wallet has accepted that answer,
 in exactly one of: available, held for inspection, handed out to an operation, spent, or rejected - and it leaves the
 wallet's persistent state only by being spent or rejected. A crash or database error at any point of any wallet
 operation leaves the persistent state either entirely before or entirely after that operation, so no token is lost,
 duplicated or invented and the number of unspent tokens always equals redeemed minus spent minus rejected.""",
 ["histories", "crash_points", "schedules"],
 "all interleavings of redemption answers, spends, rejections, resets, restarts, and crashes at every database statement",
 "the tests run single operations on fresh stores; they never crash between statements nor interleave redemption with spending over a long history",
 [M, C], [("insert_unblinded_tokens_for_voucher", M), ("with_cursor transaction", M), ("discard/invalidate/reset", M)],
 [("unblinded-tokens", "tokens not yet spent", M), ("in-use", "tokens handed out", M), ("invalid-unblinded-tokens", "rejected tokens", M)],
 ["VoucherStore API", "SQLite file"])
prop("W02", "Redemption retries submit the identical, already durable random tokens",
 """The random tokens submitted to the issuer for one group of a voucher are in the persistent store before they are
 first submitted, and every later submission for that group - after errors, non-payment, restarts or crashes - submits
 exactly the same tokens in the same order. They are kept until that group has been redeemed, and no token is ever used for two groups or
 two vouchers.""",
 ["histories", "crash_points", "fault_sequences"],
 "every sequence of issuer outcomes, re-submissions of the same voucher, restarts and crashes",
 "tests retry once within one process with a canned redeemer; loss of identity shows only across restarts or particular failure sequences",
 [C, M], [("get_tokens_for_voucher / add", C + " / " + M), ("_delete_corresponding_tokens", M)],
 [("tokens", "random tokens of unfinished groups", M)], ["the redeemer's submissions", "SQLite file at submission time"])
prop("W03", "A voucher is redeemed group by group, in order, each group once",
 """A voucher's tokens are requested in consecutively numbered groups, starting with the first group that is not yet
 recorded as redeemed; a group that has been recorded is never submitted again and the next is not submitted before the
 previous is recorded. Group sizes differ by at most one, all are requested, and together they give exactly the number of
 tokens the voucher is expected to be worth - a number fixed when the voucher is first added (a voucher worth fewer tokens than there are groups is refused).""",
 ["histories", "crash_points", "fault_sequences", "configurations"],
 "all numbers of groups and tokens, all failure points, restarts, and re-additions of the voucher with a different token count",
 "tests use a few group counts and at most one failure in one process",
 [C, M], [("_perform_redeem loop, token_count_for_group", C), ("counter column", M)],
 [("counter", "next group to redeem", M)], ["the redeemer's submissions", "SQLite file"])
prop("W04", "Voucher status is durable, final once terminal, and honest",
 """A voucher is pending until the issuer says it was already spent or its last group is recorded; from then on its
 reported state, finish time and token count never change again, whatever happens later, including restarts and crashes.
 While it is unresolved the status shown is the outcome of the most recent attempt: redeeming with the right progress
 while an attempt is in progress, otherwise unpaid or error as the issuer last answered, otherwise pending with the
 recorded progress.""",
 ["histories", "crash_points", "schedules"],
 "all orders of attempts, outcomes, repeated additions, restarts and crashes, over several vouchers",
 "tests look at the status after a single outcome; a stale or regressing status needs a sequence of outcomes",
 [C, M], [("incorporate_transient_state", C), ("Voucher.from_row", M)],
 [("_active/_unpaid/_error", "transient state", C), ("state", "persistent state", M)], ["get_voucher", "list"])
prop("W05", "Unresolved vouchers are retried until resolved",
 """Every voucher that is neither redeemed nor already spent is submitted again, at the latest one retry interval after the issuer or the network failed its
 last attempt, and immediately after a restart, and resumes with the first unrecorded group; so if the issuer
 eventually answers every request positively then every voucher becomes redeemed. A resolved voucher is never submitted again, and there is never
 more than one attempt in progress for a voucher.""",
 ["histories", "fault_sequences", "schedules"],
 "all sequences of failures, timings and restarts, over several vouchers",
 "tests drive one retry for one voucher; liveness over sequences of failures in different groups is not exercised",
 [C], [("_retry_redemption, LoopingCall", C), ("_check_pending_vouchers", C)],
 [("_active", "redemptions in progress", C)], ["the redeemer's submissions"])
prop("W06", "Tokens signed with an unapproved key are never spendable",
 """Tokens redeemed with an issuer key that is not in the configured set of approved keys are kept but are never handed out for
 spending and never counted as available, before and after restarts, while those redeemed with approved keys are - even when both kinds
 occur among the groups of one voucher.""",
 ["histories", "configurations"],
 "all assignments of approved and unapproved keys to groups and vouchers, restarts in between",
 "tests check one voucher redeemed with one key",
 [C, M], [("spendable flag", M), ("allowed_public_keys", C)], [("redemption-groups", "key and spendability per group", M)],
 ["get_unblinded_tokens", "count_unblinded_tokens", "sequestered count"])
prop("W07", "Tokens are handed out exclusively and all-or-nothing",
 """A request for tokens yields exactly the number asked for, all of them available, or fails without taking any; it fails only if fewer are
 available. A token handed out is not handed out again until it is returned or the process restarts, and a token reported spent or rejected
 is never handed out again, ever; returning tokens, and restarting, make precisely the handed-out tokens available again.""",
 ["histories", "schedules", "crash_points"],
 "all sequences of requests, spends, rejections, returns, redemptions and restarts",
 "tests follow each token through one transition; reuse needs interleaved histories",
 [M, SP], [("in-use temp table", M), ("to-discard, to-reset", M)], [("in-use", "handed-out tokens", M)], ["get/discard/invalidate/reset"])
prop("W08", "Issuer answers are verified before their tokens are accepted",
 """Tokens are stored only if the issuer's answer is a success answer, for the submitted voucher and group, with one valid signature for every submitted token and a batch
 proof that verifies against the key the answer names; anything else leaves the store without new tokens and the voucher
 unresolved, except an explicit already-spent answer. Non-payment, already-spent and other failures are told apart as the issuer
 reports them. The tokens submitted are those remembered for the voucher and group, the same at every attempt. Passes made of stored
 tokens verify with the issuer's key for the message they were made for and no other, and none are made for a storage server that
 announces another issuer than the one configured.""",
 ["inputs", "fault_sequences"],
 "all issuer answers: every combination of status, reason, and corrupted field",
 "tests give a few canned good and bad answers",
 [C], [("RistrettoRedeemer.redeemWithCounter", C)], [], ["VoucherStore after redemption", "voucher status"])

# ---------------------------------------------------------------- storage
prop("S01", "Client pass accounting is exact after every outcome",
 """After each paid storage operation, passes the server accepted are spent, passes the server said are invalid are set aside and never used
 again, and all others are available again - for every outcome: success, refusal for too few or for invalid passes (with retries), lack of replacement
 passes, and any other failure, after which the passes may be reused. No pass remains reserved once an operation has finished, and no pass is in two of those states.""",
 ["histories", "fault_sequences", "inputs"],
 "all sequences of operations and server answers including invalid-signature subsets, retries and connection failures",
 "tests cover single outcomes with a canned server",
 [SC, SP], [("call_with_passes", SC), ("PassGroup", SP)], [("PassGroup", "passes used by one operation", SP)], ["the wallet's token state"])
prop("S02", "A pass only pays for the operation and object it was made for",
 """The server counts a pass only if it was signed with its own key and bound to exactly the operation kind and storage index of the request
 it accompanies; a pass bound to another operation, another storage index, or signed with another key never counts, and no mixture of such
 passes with valid ones changes how many valid ones are counted.""",
 ["inputs"], "all operations, bindings, keys, and mixtures of passes",
 "tests check a few invalid mixtures for a few operations",
 [SS, CM], [("_ValidationResult.validate_passes", SS), ("message makers", CM)], [], ["remote operations of the storage server"])
prop("S03", "Storage time is never given without enough valid passes",
 """An operation that creates share storage, adds or renews leases, or enlarges stored data is carried out only if it came with at least as many valid passes as its price at
 that moment; otherwise it is refused with the true number of valid passes received, the true number required, and precisely
 the positions of the passes whose signatures are wrong.""",
 ["inputs", "histories"], "all server states (existing shares, sizes, lease expirations), operations and pass mixtures",
 "tests check fresh servers with one operation each",
 [SS], [("check_pass_quantity*", SS), ("get_writev_price", SS)], [], ["remote operations of the storage server"])
prop("S04", "A refused or free operation changes nothing and spends nothing",
 """When the server refuses a paid operation - too few passes, invalid passes, or an unsupported request - no share, share content, lease, spending
 record or spending statistic changes; the same holds for all free operations, apart from corruption advisories.""",
 ["inputs", "histories"], "all operations in all server states",
 "tests compare share contents for some refusals, not leases and records",
 [SS], [("price check precedes mutation", SS)], [], ["share files", "leases", "spender", "metrics"])
prop("S05", "Client and server agree on the price of every operation",
 """Against an honest server whose state does not change meanwhile, a client with enough passes performs every paid operation with the passes of a single attempt
 and exactly the server's price: it never sends more than required and is never asked for more.""",
 ["inputs", "histories"], "all share sizes, numbers, existing shares, lease states and write vectors",
 "tests compare one or two operations against a fresh server",
 [SC, SS, CM], [("price computation in client", SC), ("price computation in server", SS), ("shared formula", CM)], [], ["passes sent", "server refusals"])
prop("S06", "Leases are granted exactly as paid for",
 """A successful allocation gives each newly allocated share one lease period from now, a lease addition or renewal gives every share at the storage index one period from now, and a mutable write
 gives one period from now to exactly those written shares that are new or have no unexpired lease; no other lease is created, extended
 or removed by any operation.""",
 ["inputs", "histories"], "all operations in all states of shares and leases over time",
 "tests check single shares at single times",
 [SS], [("add_lease_for_writev", SS), ("renew_leases=False", SS)], [], ["lease expiration of each share"])
prop("S07", "Prices follow the published formula",
 """The price of storing shares for one period is, for each share, its size divided by the value of a pass rounded up, summed over the shares; a mutable write costs the
 difference between that price after and before, where shares whose lease has expired count nothing before and their full size after. The price
 calculation offered to users gives, for any list of file sizes, the sum over files of the price of all their encoded shares.""",
 ["inputs"], "all pass values, encodings, sizes around every rounding boundary",
 "tests sample the formula with an equivalent re-implementation for some inputs",
 [CM, PC], [("required_passes", CM), ("get_required_new_passes_for_mutable_write", CM), ("PriceCalculator.calculate", PC)], [], ["price required by the server", "price calculator"])
prop("S08", "Spending records and statistics equal what was charged",
 """The valid passes used up by a successful paid operation - all of them, or for an allocation as many as the newly allocated shares cost - are each recorded as spent once, under the right key;
 nothing is recorded for operations that fail. The spending statistic counts exactly the successful paid operations, each with the number of passes charged.""",
 ["histories", "fault_sequences"], "all sequences of successful, refused and failing operations",
 "tests check one operation at a time",
 [SS], [("mark_as_spent", SS), ("metrics", SS)], [], ["spender", "prometheus metrics"])
prop("S09", "Reading and inspecting is free, truthful, and unmodified",
 """Reads, version, share size and share status queries never need passes and report exactly the stored data: each
 share's true data size and its latest lease expiration, for immutable and mutable shares, for all shares present.""",
 ["inputs", "histories"], "all stored shares, sizes and lease states",
 "tests check a few toy shares",
 [SS, SC], [("stat_shares / share_sizes", SS)], [], ["share_sizes", "stat_shares", "slot_readv"])

# ---------------------------------------------------------------- replication / recovery
prop("R01", "Recovery restores the wallet as of some moment no older than the last upload",
 """From the first completed snapshot upload on, recovering from the replica as it is on the grid at any moment succeeds and reproduces exactly the wallet state as it
 was after some committed transaction; that transaction is no older than the newest one covered by the most recently completed upload of the
 replication. Nothing that was handed out but not spent is lost and nothing stays reserved after recovery.""",
 ["histories", "schedules", "crash_points"], "all interleavings of wallet transactions, upload steps and crashes, recovering at every moment, within one version of the database schema",
 "tests recover from one hand-made snapshot with streams; they do not interleave changes with uploads, prunes and crashes",
 [RP, RC], [("_do_one_snapshot_upload", RP), ("_do_one_event_upload", RP), ("recover", RC)],
 [("event-stream", "changes not yet uploaded", RP), ("replica directory", "snapshot and event stream objects", RP)], ["recovered database compared with history"])
prop("R02", "Interrupted replication never makes a replica unrecoverable or wrong",
 """A crash, restart or failed request between any two steps of an upload, link, local clean-up or remote clean-up leaves a
 replica from which recovery still applies each change exactly once and in order; stale or overlapping objects left behind are ignored and later cleaned up.""",
 ["crash_points", "fault_sequences", "schedules"], "a crash or failure at every remote and local step of replication",
 "tests never interrupt replication between steps",
 [RP, RC], [("sequence numbers", RP), ("recover skips applied changes", RC)], [], ["replica directory", "recovered database"])
prop("R03", "The change log holds exactly the committed changes, in order",
 """While replication is on, every committed change to the wallet - and nothing that was rolled back - is recorded, with its exact
 statement and arguments, atomically with the change itself and in commit order with increasing numbers; queries are not recorded.""",
 ["histories", "crash_points", "inputs"], "all sequences of transactions, rollbacks, failures and crashes at each statement",
 "tests record single statements without failures",
 [RP], [("_ReplicationCapableConnection.__exit__", RP), ("observed_event / add_events", RP)], [("event-stream", "recorded changes", RP)], ["SQLite file"])
prop("R04", "Recorded changes are discarded only once safely replicated",
 """A recorded change is removed from the local log only after an object containing it, or a snapshot taken after it, has been
 completely stored and linked in the replica; and an event object is removed from the replica only if a stored snapshot includes all of it.""",
 ["schedules", "crash_points", "fault_sequences"], "all interleavings of changes with upload steps, and failures of each step",
 "tests use instantaneous uploads so nothing changes while one is in progress",
 [RP], [("prune_events_to", RP), ("is_old_eventstream", RP)], [], ["local log", "replica directory"])
prop("R05", "Important changes are uploaded promptly, even after failures",
 """As soon as an important change is committed, an upload that includes it begins once earlier uploads are finished; less important changes wait until enough has accumulated and are then uploaded
 in the same way. Changes left over from a previous run that are due are uploaded at start-up, and a failed upload stops neither later ones nor
 loses its changes: they are included in the next.""",
 ["schedules", "fault_sequences", "histories"], "all timings of changes relative to uploads and failures",
 "tests check one upload for one change",
 [RP], [("queue_job / wait_for_uploads", RP), ("should_upload_eventstream", RP)], [("_jobs", "queued uploads", RP)], ["uploads made"])
prop("R06", "The replica always has a snapshot and is compacted when it pays off",
 """At start-up a replica without a snapshot gets one; after each event upload a new snapshot is made exactly if the compaction policy, given the true size of a new snapshot and of the objects
 in the replica, calls for it, and it removes exactly the event objects it includes. Nothing else is ever removed from or overwritten in the replica directory.""",
 ["histories", "configurations"], "all sizes, policies and directory contents, including unrelated entries",
 "tests check the policy for a few values",
 [RP, PL], [("_do_startup", RP), ("_do_consider_snapshot", RP), ("prune", RP)], [], ["replica directory"])
prop("R07", "A replica is set up at most once and never exposes write access",
 """Setting up replication creates one replica directory and stores its write capability; however often, concurrently or after interruption it is requested, the stored capability is never
 replaced and an already configured replica is reported as such with its read-only capability. From then on, also after restarts, the wallet is replicated into that directory. No answer ever contains the write capability.""",
 ["schedules", "fault_sequences", "histories"], "all interleavings and failures of concurrent set-up requests",
 "tests check two sequential requests with fakes",
 [RP, RS], [("setup_tahoe_lafs_replication lock", RP), ("_setup_replication", RS)], [("replica rwcap file", "configured replica", RP)], ["HTTP answer", "private directory"])
prop("R08", "Recovery only ever runs once, into an empty wallet, and reports truthfully",
 """Recovery changes the wallet only if it held no vouchers, no wallet change can slip in while it runs, and at most one recovery is attempted; a wallet with
 vouchers is never modified by a recovery attempt. All watching clients see the same sequence of stages ending in success exactly if the
 wallet was restored, otherwise in failure with a reason, and are then disconnected; a request for a different replica is refused.""",
 ["schedules", "fault_sequences", "histories"], "all interleavings of clients, wallet changes, download steps and failures",
 "tests check each ending once with one or two clients and canned downloads",
 [RS, RC, M], [("RecoverFactory.initiate_recovery", RS), ("StatefulRecoverer", RC), ("call_if_empty", M)], [], ["WebSocket messages", "wallet database"])

# ---------------------------------------------------------------- maintenance etc
prop("M01", "Lease maintenance renews exactly the reachable leases that are about to expire",
 """A maintenance run checks every object reachable from the roots once on every connected server, whatever the shape of the graph - shared objects, cycles, literal objects -
 and renews exactly those having, on that server, a share whose remaining lease time is below the configured minimum.""",
 ["inputs", "configurations"], "all graphs, share placements, lease times and clocks",
 "tests use trees and single nodes",
 [LM], [("visit_storage_indexes", LM), ("renew_leases_on_server", LM)], [], ["storage server calls"])
prop("M02", "Maintenance keeps running on schedule until stopped",
 """After each run, successful or failed, the next starts after an interval drawn from the configured range, measured from the end of that run, and runs never overlap; after a restart the first run takes the recorded time of the previous one
 into account and is never scheduled in the past. Stopping the service, at any moment, prevents all further runs.""",
 ["histories", "schedules", "fault_sequences"], "all durations and failures of runs, restarts and stops",
 "tests check the first interval and one repetition",
 [LM], [("_FuzzyTimerService", LM), ("calculate_initial_interval", LM)], [], ["times of runs", "last-run file"])
prop("M03", "The maintenance spending record is accurate",
 """The reported record of the latest finished maintenance run has its start and finish time and the number of passes that renewing all shares it encountered would cost; an unfinished
 run is never reported, and a run that fails or is interrupted does not disturb the earlier record.""",
 ["histories", "crash_points"], "all sequences of complete and interrupted runs with restarts",
 "tests check a single run",
 [M, LM], [("LeaseMaintenance", M), ("get_latest_lease_maintenance_activity", M)], [], ["get_latest_lease_maintenance_activity"])
prop("D01", "Upgrading the wallet database preserves its value and history",
 """Opening a wallet database written by any earlier version brings it to the current version with all vouchers, their states, times and counts, all random
 tokens and all unspent tokens intact and usable; opening it again changes nothing. An upgrade that is interrupted at any point
 loses nothing and is completed by opening the database again.""",
 ["histories", "inputs", "crash_points"], "every earlier version, all wallet contents expressible in it and every point of interruption",
 "tests upgrade empty databases and one column",
 [SCH, M], [("_UPGRADES", SCH), ("initialize_database", M)], [], ["VoucherStore API after opening"])
prop("H01", "No API request is served without the right token",
 """Every request to the client's management interface, for any path and method, is refused with no effect unless it carries exactly the configured
 authorization token; with it, it is served.""",
 ["inputs"], "all paths, methods and authorization headers including near misses",
 "tests sample a few wrong headers on few paths",
 [PR, RS], [("create_private_tree", PR)], [], ["HTTP answers", "wallet state"])
prop("H02", "The management interface is faithful; malformed requests have no effect",
 """A well-formed request reports and changes exactly the wallet state it names: adding a voucher starts its redemption once, listing and
 fetching show the same state as the wallet, and token counts and lease spending agree with it. A malformed request gets a client error and changes nothing.""",
 ["inputs", "histories"], "all request bodies and sequences of requests and wallet events",
 "tests sample some malformed bodies and single requests",
 [RS], [("_VoucherCollection", RS), ("_LeaseRecovery...", RS)], [], ["HTTP answers", "wallet state"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
