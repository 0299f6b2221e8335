"""
Which configurations of which specification, and which schedules, decide which
property.
"""
import random
import zlib

from .runner import generate, maximal


def rng_for(prop, seed, what=""):
    return random.Random(zlib.crc32(f"{prop}/{seed}/{what}".encode()))


def sample(rng, xs, n):
    xs = list(xs)
    if len(xs) <= n:
        return xs
    return rng.sample(xs, n)


class Wallet:
    technique = "TLA+ model checking (TLC); spec-generated schedules with crash/fault injection replayed on the real store and controller, traces validated against the spec"
    level_note = (
        "The TLA+ specification satisfies the property exhaustively within small "
        "constants. Every generated schedule (all short ones, sampled, and random "
        "long ones), with process death or database error at any statement, run on "
        "the real code is a behaviour of the specification, compared at every step. "
        "Trusts SQLite, Twisted's Clock and the fake issuer of the driver."
    )
    properties = ["W01", "W02", "W03", "W04", "W05", "W06", "W07"]
    assumptions = [
        "SQLite transactions are atomic and durable; the death of the process "
        "is simulated at every database statement and commit",
        "a fake issuer answers when the schedule says so",
    ]

    def mc(self, prop, tier):
        r = [("WalletMC", "WalletMC.cfg"), ("WalletMC", "WalletTimed.cfg")]
        if prop == "W05":
            r.append(("WalletMC", "WalletLive.cfg"))
        if tier == "thorough":
            r.append(("WalletMC", "WalletMC2.cfg"))
        return r

    def batches(self, prop, tier, seed, work):
        rng = rng_for(prop, seed)
        quick = tier == "quick"
        bfs = generate(work, "WalletGen", "WalletGenBfs.cfg", seed)
        plain = [s for s in bfs if not any(o[0] == "fault" for o in s["ops"])]
        faulty = [s for s in bfs if any(o[0] == "fault" for o in s["ops"])]
        sim = generate(
            work,
            "WalletGen",
            "WalletGenSim.cfg",
            rng.randrange(1, 2**31),
            num=480 if quick else 9000,
            depth=17,
        )
        chosen = (
            sample(rng, maximal(plain), 140 if quick else 4000)
            + sample(rng, faulty, 160 if quick else 6000)
            + sample(rng, sim, 480 if quick else 9000)
        )
        for s in chosen:
            s["end"] = rng.choice([0, 0, 1])
            s["replicate"] = rng.random() < 0.2
        rng.shuffle(chosen)
        return [
            dict(driver="wallet.py", trace_module="WalletTrace", schedules=chosen)
        ]


class Storage:
    technique = "TLA+ model checking (TLC); spec-generated histories with lost, corrupted and false answers replayed on the real storage client, wallet and server, traces validated against the spec"
    level_note = (
        "The TLA+ specification of server, client and wallet satisfies the property "
        "exhaustively within small constants. Random long histories generated from it "
        "- concurrent operations, lost requests and answers, lying servers, raw requests "
        "with mixtures of passes, time, uploads, expired leases - run on the real code "
        "are behaviours of the specification, compared share by share and pass by pass. "
        "Trusts Tahoe-LAFS's share files, the ristretto library and Twisted's Clock."
    )
    properties = ["S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08", "S09"]
    assumptions = [
        "Tahoe-LAFS storage server and share containers are trusted",
        "the network between client and server is a driver that delivers, loses "
        "or falsifies what the schedule tells it to",
    ]

    def mc(self, prop, tier):
        r = [("StorageMC", "StorageMC.cfg")]
        if tier == "thorough":
            r += [("StorageMC", "StorageMC2.cfg"), ("StorageMC", "StorageMC3.cfg")]
        return r

    def batches(self, prop, tier, seed, work):
        rng = rng_for(prop, seed)
        sim = generate(
            work,
            "StorageGen",
            "StorageGen.cfg",
            rng.randrange(1, 2**31),
            num=900 if tier == "quick" else 15000,
            depth=40,
        )
        return [
            dict(driver="storage.py", trace_module="StorageTrace", schedules=sim)
        ]


class Replica:
    technique = "TLA+ model checking (TLC); spec-generated schedules with failing requests, crashes and database errors replayed on the real replication service, Tahoe-LAFS bindings and recovery, traces validated against the spec"
    level_note = (
        "The TLA+ specification of wallet log, replication jobs, grid directory and "
        "recovery satisfies the property exhaustively within small constants. Random "
        "behaviours generated from it - wallet transactions of every kind at every "
        "moment of an upload, failing and lost requests, crashes, database errors at "
        "any statement, recovery after every change of the replica - run on the real "
        "code are behaviours of the specification. Trusts SQLite, cbor2 and the "
        "driver's stand-in for the Tahoe-LAFS web API."
    )
    properties = ["R01", "R02", "R03", "R04", "R05", "R06"]
    assumptions = [
        "a fake Tahoe-LAFS web API answers when and how the schedule says",
        "SQLite transactions are atomic and durable; the death of the process "
        "is simulated at every database statement, commit and remote request",
    ]

    def mc(self, prop, tier):
        r = [("ReplicaMC", "ReplicaMC.cfg"), ("ReplicaMC", "ReplicaMC2.cfg")]
        if prop == "R05":
            r.append(("ReplicaMC", "ReplicaLive.cfg"))
        if tier == "thorough":
            r.append(("ReplicaMC", "ReplicaMC3.cfg"))
        return r

    def batches(self, prop, tier, seed, work):
        rng = rng_for(prop, seed)
        sim = generate(
            work,
            "ReplicaGen",
            "ReplicaGen.cfg",
            rng.randrange(1, 2**31),
            num=400 if tier == "quick" else 6000,
            depth=27,
        )
        return [
            dict(driver="replica.py", trace_module="ReplicaTrace", schedules=sim)
        ]


class Manage:
    technique = "TLA+ model checking (TLC); spec-generated schedules of HTTP and WebSocket requests, grid answers and crashes replayed on the real plugin's resource tree, traces validated against the spec"
    level_note = (
        "The TLA+ specification of replication set-up and recovery satisfies the "
        "property exhaustively within small constants. Random behaviours generated "
        "from it - interleaved set-up and recovery requests of several clients, "
        "grid answers of every kind at every moment, clients that go away, restarts, "
        "good, incomplete and corrupt replicas - run on the real plugin through its "
        "HTTP and WebSocket interface are behaviours of the specification. Trusts "
        "Twisted's web server, autobahn, SQLite and the driver's stand-in for the "
        "Tahoe-LAFS web API."
    )
    properties = ["R07", "R08"]
    assumptions = [
        "a fake Tahoe-LAFS web API answers when and how the schedule says",
        "SQLite transactions are atomic and durable",
    ]

    def mc(self, prop, tier):
        return [("ManageMC", "ManageMC.cfg")]

    def batches(self, prop, tier, seed, work):
        rng = rng_for(prop, seed)
        sim = generate(
            work,
            "ManageGen",
            "ManageGen.cfg",
            rng.randrange(1, 2**31),
            num=900 if tier == "quick" else 12000,
            depth=25,
        )
        return [
            dict(driver="manage.py", trace_module="ManageTrace", schedules=sim)
        ]


class Http:
    technique = "TLA+ model checking (TLC); spec-generated schedules of HTTP requests, wallet events, database errors and restarts replayed on the real resource tree, traces validated against the spec"
    level_note = (
        "The TLA+ specification of the management interface satisfies the property "
        "exhaustively within small constants. Random behaviours generated from it - "
        "well-formed, malformed, unauthorized and misdirected requests between "
        "redemption answers, token use, maintenance runs, token rotation, database "
        "errors and restarts - run on the real resource tree through HTTP are "
        "behaviours of the specification: every answer and everything in the "
        "database is compared at every step. Trusts Twisted's web server and SQLite."
    )
    properties = ["H01", "H02", "M03"]
    assumptions = [
        "requests are bytes on a connection to a twisted.web site; Tahoe-LAFS's "
        "own web server in front of it is not part of this",
        "a fake issuer answers when the schedule says so",
    ]

    def mc(self, prop, tier):
        return [("HttpMC", "HttpMC.cfg"), ("HttpMC", "HttpMC2.cfg")]

    def batches(self, prop, tier, seed, work):
        rng = rng_for(prop, seed)
        sim = generate(
            work,
            "HttpGen",
            "HttpGen.cfg",
            rng.randrange(1, 2**31),
            num=800 if tier == "quick" else 12000,
            depth=27,
        )
        r = [dict(driver="webapi.py", trace_module="HttpTrace", schedules=sim)]
        if prop == "M03":
            r.append(lease_batch(prop, seed, work, 600 if tier == "quick" else 10000))
        return r


class Lease:
    technique = "TLA+ model checking (TLC); spec-generated schedules of graphs, leases, clock advances, failures, stops and restarts replayed on the real maintenance service, traces validated against the spec"
    level_note = (
        "The TLA+ specification of lease maintenance satisfies the property "
        "exhaustively within small constants. Random behaviours generated from it - "
        "any graph of directories, files and literals, leases around the limit, "
        "answers that come late, not at all or with an error, changes in between, "
        "stops, crashes and restarts - run on the service that the plugin attaches "
        "to a client node are behaviours of the specification: every request, when "
        "runs begin and what is remembered are compared at every step. Trusts "
        "Twisted's Clock and SQLite."
    )
    properties = ["M01", "M02"]
    assumptions = [
        "the grid (nodes, storage servers' remote interface) is a stand-in; the "
        "source of random intervals is a seeded one that prefers the extremes",
        "the clock does not go backwards",
    ]

    def mc(self, prop, tier):
        return [("LeaseMC", "LeaseMC.cfg"), ("LeaseMC", "LeaseMC2.cfg")]

    def batches(self, prop, tier, seed, work):
        return [lease_batch(prop, seed, work, 1200 if tier == "quick" else 20000)]


def lease_batch(prop, seed, work, num):
    sim = generate(
        work,
        "LeaseGen",
        "LeaseGen.cfg",
        rng_for(prop, seed, "lease").randrange(1, 2**31),
        num=num,
        depth=41,
    )
    return dict(driver="maintain.py", trace_module="LeaseTrace", schedules=sim)


class Schema:
    technique = "TLA+ model checking (TLC); spec-generated databases of every earlier version opened by the real code with crashes and errors at every statement, results validated against the spec"
    level_note = (
        "The TLA+ specification of the schema's versions shows that every step of an "
        "upgrade preserves what a wallet is worth, exhaustively for small wallets, and "
        "that interrupted upgrades are completed. Random wallets of every earlier "
        "version, generated from it and written with the schema of their time, are "
        "opened - with process death or an error at any statement - and used by the "
        "real code: everything observable is compared with the specification. Trusts "
        "SQLite and the record of earlier schemas in the driver."
    )
    properties = ["D01"]
    assumptions = [
        "SQLite transactions are atomic and durable; the death of the process "
        "is simulated at every database statement and commit",
        "times of earlier versions are in the time zone the node still runs in, "
        "and not in an hour that a change of clocks makes ambiguous",
    ]

    def mc(self, prop, tier):
        return [("SchemaMC", "SchemaMC.cfg"), ("SchemaMC", "SchemaMC2.cfg")]

    def batches(self, prop, tier, seed, work):
        sim = generate(
            work,
            "SchemaGen",
            "SchemaGen.cfg",
            rng_for(prop, seed).randrange(1, 2**31),
            num=1500 if tier == "quick" else 20000,
            depth=11,
        )
        return [dict(driver="upgrade.py", trace_module="SchemaTrace", schedules=sim)]


class Issuer:
    technique = "TLA+ model checking (TLC) with an algebra of blind signatures; spec-generated issuer answers, wrong in any field, given over HTTP to the real redeemer, results validated against the spec"
    level_note = (
        "The TLA+ specification, with blinded tokens, signatures and batch proofs as "
        "explicit terms, stores tokens only for answers right in every respect, "
        "exhaustively for answers wrong in up to two ways. Random behaviours of several "
        "vouchers generated from it - answers corrupted in delivery, encoding, status, "
        "reason, signatures, proof and key, restarts, retries - run on the real redeemer "
        "and its cryptography, controller and store; every stored token is compared with "
        "what was submitted and signed. Trusts challenge-bypass-ristretto and twisted.web."
    )
    properties = ["W08"]
    assumptions = [
        "signatures and proofs cannot be forged: an answer is wrong in one of the "
        "ways enumerated",
        "the issuer is at the other end of an in-memory transport",
    ]

    def mc(self, prop, tier):
        return [("IssuerMC", "IssuerMC.cfg"), ("IssuerMC", "IssuerMC2.cfg")]

    def batches(self, prop, tier, seed, work):
        sim = generate(
            work,
            "IssuerGen",
            "IssuerGen.cfg",
            rng_for(prop, seed).randrange(1, 2**31),
            num=800 if tier == "quick" else 12000,
            depth=27,
        )
        return [dict(driver="issuer.py", trace_module="IssuerTrace", schedules=sim)]


DOMAINS = [Wallet(), Storage(), Replica(), Manage(), Http(), Lease(), Schema(), Issuer()]
BY_PROPERTY = {p: d for d in DOMAINS for p in d.properties}
