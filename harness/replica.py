"""
Drive the real replication service and recovery, through the real Tahoe-LAFS
API bindings, against a grid that answers when and how the schedule says.

usage: replica.py SCHEDULES.ndjson TRACE.ndjson

Each schedule is {"policy": "say" | [bytes per pass, needed, total, factor],
"ops": [[op, args...], ...]}.
"""
import hashlib
import os
import re
import shutil
import sqlite3
from datetime import datetime, timedelta
from functools import partial
from io import BytesIO
from zlib import crc32

from common import EPOCH, Crash, Faults, drive, faulty_connect, hard_close, rmtree, scratch
from grid import Agent, Grid, NodeConfig, tahoe

import cbor2
from tahoe_capabilities import (
    readonly_directory_from_string,
    writeable_directory_from_string,
)
from twisted.internet.defer import Deferred
from twisted.internet.task import Clock  # noqa: F401
from wallet import tnum, unblind, vnum

from _zkapauthorizer._plugin import _CostBasedPolicy
from _zkapauthorizer.model import (
    NotEnoughTokens,
    RandomToken,
    VoucherStore,
    open_database,
)
from _zkapauthorizer.recover import (
    RecoveryStages,
    StatefulRecoverer,
    get_tahoe_lafs_downloader,
)
from _zkapauthorizer.replicate import (
    get_tahoe_lafs_direntry_replica,
    replication_service,
    with_replication,
)
from _zkapauthorizer.tahoe import ShareEncoding

MUTATES = re.compile(
    r"^\s*(--[^\n]*\n\s*)*(INSERT|UPDATE|DELETE|REPLACE|CREATE|DROP|ALTER|WITH\b.*\bINSERT)\b",
    re.I | re.S,
)
PAD = "p" * 200000


class Nope(Exception):
    """An application error in a transaction."""


def plain(x):
    if isinstance(x, datetime):
        return "@" + x.isoformat()
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x


def ident(sql, args):
    return "%08x" % crc32(repr((sql, plain(args))).encode("utf-8", "surrogatepass"))


def query(conn, sql, args=()):
    cur = conn.cursor()
    cur.execute(sql, args)
    rows = cur.fetchall()
    cur.close()
    return rows


def digest(conn):
    """
    Identify the contents of the database, apart from the log.
    """
    h = hashlib.sha256()
    tables = sorted(
        name
        for (name,) in query(conn, "SELECT name FROM sqlite_master WHERE type = 'table'")
        if not name.startswith("sqlite_") and name != "event-stream"
    )
    for t in tables:
        h.update(repr((t, query(conn, f"PRAGMA table_info([{t}])"))).encode())
        h.update(
            repr(sorted(map(repr, query(conn, f"SELECT * FROM [{t}]")))).encode(
                "utf-8", "surrogatepass"
            )
        )
    return h.hexdigest()


_template = None


def fresh_database(path):
    """
    A new, empty wallet.
    """
    global _template
    if _template is None:
        d = scratch("vp-template-")
        p = os.path.join(d, "db")
        conn = open_database(partial(sqlite3.connect, p))
        VoucherStore.from_connection(1, lambda: EPOCH, with_replication(conn, False))
        conn.close()
        with open(p, "rb") as f:
            _template = f.read()
        rmtree(d)
    with open(path, "wb") as f:
        f.write(_template)


class Policy:
    def __init__(self, world):
        self.w = world
        p = world.params["policy"]
        self.real = None
        if p != "say":
            self.real = _CostBasedPolicy(p[0], ShareEncoding(p[1], p[2]), p[3])

    def should_snapshot(self, snapshot_size, replica_sizes):
        w = self.w
        replica_sizes = list(replica_sizes)
        ans = w.say
        if self.real is not None:
            ans = self.real.should_snapshot(snapshot_size, replica_sizes)
        w.pols.append(
            dict(
                snap=snapshot_size,
                sizes=sorted(replica_sizes),
                ans=bool(ans),
                true=w.true_sizes + [w.snapshot_size()],
            )
        )
        return ans


class World:
    def __init__(self, params, out):
        self.params = params
        self.out = out
        self.dir = scratch("vp-replica-")
        self.parsed = {}
        self.reader = None
        self.conn = None
        self.wallets = 0
        self.tokens = 0
        self.t = 0
        self.say = False
        self.true_sizes = []
        p = params["policy"]
        out.event(
            dict(
                op="init",
                large=570000,
                cost=[0, 0, 0, 0] if p == "say" else p,
                say=p == "say",
            )
        )
        self.reqs = []
        self.pols = []
        self.rw = None
        self.new_wallet()

    def new_wallet(self):
        """
        A wallet and a place for its replica.
        """
        if self.reader is not None:
            self.reader.close()
            self.reader = None
        self.wallets += 1
        self.base = os.path.join(self.dir, f"w{self.wallets}")
        self.path = os.path.join(self.base, "db.sqlite3")
        self.config = NodeConfig(self.base)
        self.conf = False
        self.grid = Grid()
        self.rw = self.grid.mkdir()
        d = self.grid.dirs[self.rw]
        for name in ("notes", "my-event-stream-3", "snapshot.old", "snapshots"):
            d[name] = self.grid.upload(b"something else")
        d["sub"] = self.grid.mkdir()
        self.others = dict(d)
        fresh_database(self.path)
        self.states = [self.digest_now()]
        self.top = 0
        self.held = []
        self.random = {}

    def now(self):
        return EPOCH + timedelta(seconds=self.t)

    def read(self):
        if self.reader is None:
            self.reader = sqlite3.connect(self.path)
        return self.reader

    def digest_now(self):
        return digest(self.read())

    def snapshot_size(self):
        return len(
            cbor2.dumps(dict(version=1, statements=list(self.read().iterdump())))
        )

    # -- the process -------------------------------------------------
    def start(self):
        self.faults = Faults()
        self.agent = Agent(self.grid, on_request=self.on_request)
        self.svc = None
        self.held = []
        self.m = None
        self.conn = open_database(faulty_connect(self.path, self.faults))
        self.rconn = with_replication(self.conn, self.conf)
        self.store = VoucherStore.from_connection(1000, self.now, self.rconn)
        if self.conf:
            self.serve()

    def serve(self):
        self.conf = True
        client = tahoe(self.agent, self.config)
        replica = get_tahoe_lafs_direntry_replica(
            client, writeable_directory_from_string(self.rw)
        )
        self.svc = replication_service(self.rconn, replica, Policy(self))
        self.svc.startService()

    def kill(self):
        self.faults.dead = True
        self.agent.dead = True
        self.agent.waiting = []
        if self.conn is not None:
            hard_close(self.conn)
            self.conn = None
        self.graveyard = getattr(self, "graveyard", [])
        self.graveyard.append((self.svc, self.store, self.rconn))
        self.svc = self.store = self.rconn = None

    def close(self):
        self.kill()
        if self.reader is not None:
            self.reader.close()
        rmtree(self.dir)

    # -- observation -------------------------------------------------
    def on_request(self, r):
        e = dict(kind=r.kind, name="", obj=dict(t="none"))
        if r.kind in ("list", "link", "unlink"):
            cap = r.cap if r.kind != "list" else self.grid.readers.get(r.cap, r.cap)
            if cap != self.rw:
                e["kind"] += "-elsewhere"
        if r.kind != "list":
            self.true_sizes = []
        else:
            self.true_sizes.append(self.snapshot_size())
        if r.kind in ("link", "unlink"):
            e["name"] = r.name
        if r.kind == "upload":
            e["obj"] = self.parse(r.body)
        if r.kind == "link":
            e["obj"] = self.object(r.body.decode("ascii", "replace"))
        if r.kind == "?":
            e["kind"] = "? " + r.name[:100]
        self.reqs.append(e)

    def object(self, cap):
        if cap in self.grid.files:
            return self.parse(self.grid.files[cap])
        return dict(t="other")

    def parse(self, data):
        """
        Make sense of a stored object, without the help of the code.
        """
        key = hashlib.sha256(data).digest()
        if key not in self.parsed:
            self.parsed[key] = self._parse(data)
        return dict(self.parsed[key])

    def resolve(self, o):
        """
        Find out which state of the wallet a snapshot is of.
        """
        if o["t"] == "snapshot":
            o["ks"] = [k for k, d in enumerate(self.states) if d == o["digest"]]

    def _parse(self, data):
        try:
            x = cbor2.loads(data)
            if "statements" in x:
                conn = sqlite3.connect(":memory:")
                conn.executescript("\n".join(x["statements"]))
                seq = 0
                for (n,) in query(
                    conn, "SELECT seq FROM sqlite_sequence WHERE name = 'event-stream'"
                ):
                    seq = n
                r = dict(
                    t="snapshot",
                    digest=digest(conn),
                    seq=seq,
                    log=[n for (n,) in query(conn, "SELECT [sequence-number] FROM [event-stream]")],
                )
                conn.close()
                if x["version"] != 1:
                    r["t"] = "bad"
                return r
            if x["version"] == 1:
                return dict(
                    t="events",
                    nums=[e[0] for e in x["events"]],
                    ids=[ident(e[1], e[2]) for e in x["events"]],
                    imps=[bool(e[3]) for e in x["events"]],
                )
        except Exception:
            pass
        return dict(t="bad" if len(data) > 40 else "other")

    def observe_log(self):
        return [
            dict(n=n, id=ident(s, cbor2.loads(a)), imp=bool(i))
            for n, s, a, i in query(
                self.read(),
                "SELECT [sequence-number], [statement], [serialized_arguments], [important] FROM [event-stream]",
            )
        ]

    def observe_dir(self):
        r = []
        for name, cap in self.grid.dirs[self.rw].items():
            if self.others.get(name) == cap:
                o = dict(t="other")
            else:
                o = self.object(cap)
            r.append(
                dict(name=name, size=len(self.grid.files.get(cap, b"")), obj=o)
            )
        return r

    def recover_into(self, base):
        """
        Recover, like the owner of the read capability would, with a new wallet.
        """
        config = NodeConfig(base)
        path = os.path.join(base, "db.sqlite3")
        fresh_database(path)
        conn = open_database(partial(sqlite3.connect, path))
        store = VoucherStore.from_connection(
            1000, self.now, with_replication(conn, False)
        )
        client = tahoe(Agent(self.grid, auto=True), config)
        download = get_tahoe_lafs_downloader(client)(
            readonly_directory_from_string(self.grid.reader(self.rw))
        )
        r = StatefulRecoverer()
        result = []
        Deferred.fromCoroutine(
            store.call_if_empty(partial(r.recover, download))
        ).addBoth(result.append)
        ok = r.state().stage == RecoveryStages.succeeded and result == [None]
        return path, conn, store, ok, str(r.state().failure_reason) + str(result)

    def try_recovery(self):
        base = os.path.join(self.dir, "recovered")
        shutil.rmtree(base, ignore_errors=True)
        path, conn, store, ok, why = self.recover_into(base)
        e = dict(tried=True, ok=ok, why=why[:200], ks=[], avail=0, spendable=0)
        if ok:
            try:
                e["avail"] = store.count_unblinded_tokens()
                store.list()
                store.get_latest_lease_maintenance_activity()
            except Exception as exc:
                e.update(ok=False, why=f"afterwards: {exc!r}"[:200])
        conn.close()
        if e["ok"]:
            conn = open_database(partial(sqlite3.connect, path))
            d = digest(conn)
            e["ks"] = [k for k, x in enumerate(self.states) if x == d]
            ((e["spendable"],),) = query(
                conn,
                "SELECT count(*) FROM [unblinded-tokens] T, [redemption-groups] G WHERE T.[redemption-group] = G.rowid AND G.spendable = 1",
            )
            conn.close()
        shutil.rmtree(base, ignore_errors=True)
        return e

    # -- events ------------------------------------------------------
    def record(self, op, out, fault="none", **args):
        d = self.digest_now()
        log = self.observe_log()
        top = max((x["n"] for x in log), default=0)
        changed = (bool(self.stmts) and out == "ok") or top > self.top
        if op == "tx" and (changed or d != self.states[-1]):
            self.states.append(d)
        self.top = max(top, self.top)
        listing = self.observe_dir()
        for x in listing + self.reqs:
            self.resolve(x["obj"])
        e = dict(
            op=op,
            t=self.t,
            out=out,
            fault=fault,
            alive=self.conn is not None,
            ks=[k for k, x in enumerate(self.states) if x == d],
            stmts=[dict(id=ident(s, a), size=len(s)) for s, a in self.stmts],
            log=log,
            dir=listing,
            reqs=self.reqs,
            pols=self.pols,
            rec=dict(tried=False),
        )
        e.update(args)
        key = repr([(x["name"], x["obj"].get("digest"), x["obj"].get("nums")) for x in listing])
        if key != getattr(self, "last_listing", None) or op == "disaster":
            self.last_listing = key
            e["rec"] = self.try_recovery()
        self.reqs = []
        self.pols = []
        self.out.event(e)

    def boot(self):
        self.stmts = []
        out = "ok"
        try:
            self.start()
        except (Crash, Exception) as e:
            out = "raise:" + type(e).__name__
        self.record("boot", out)

    def run(self, ops):
        self.t += 1
        self.boot()
        for op in ops:
            self.do(op)
        self.epilogue()

    def do(self, op, fault=None):
        self.t += 1
        name = op[0]
        if name == "fault":
            return self.do(op[3:], (op[1], op[2]))
        self.stmts = []
        if self.conn is None:
            if name != "disaster":
                self.boot()
                return
        if name == "crash":
            # with the request in flight carried out, or not
            done = False
            if op[1] and self.agent.waiting:
                done = True
                self.grid.perform(self.agent.waiting[0])
            self.kill()
            return self.record("crash", "ok", effect=done)
        if name == "disaster":
            return self.disaster()
        args, action = getattr(self, "op_" + name)(*op[1:])
        if action is None:
            return
        stmts = []

        def note(sql, rows):
            if MUTATES.match(sql) and "[event-stream]" not in sql:
                stmts.extend((sql, row) for row in rows)

        self.faults.note = note
        if fault is not None:
            self.faults.arm(*fault)
        try:
            action()
            out = "ok"
        except NotEnoughTokens:
            out = "NotEnoughTokens"
        except Nope:
            out = "nope"
        except (Crash, Exception) as e:
            out = "raise:" + type(e).__name__
        self.faults.note = None
        self.stmts = stmts
        what = args.pop("as", "tx")
        if self.faults.dead:
            self.kill()
            return self.record(what, "crash", fault="crash", **args)
        fired = self.faults.kind if self.faults.fired else "none"
        self.faults.disarm()
        self.faults.fired = False
        self.record(what, out, fault=fired, **args)

    # -- the wallet ----------------------------------------------------
    def op_add(self, v, n, bad=False):
        imp = (v, 0) not in self.random

        def go():
            def get():
                if bad:
                    raise Nope()
                self.tokens += n
                return [
                    RandomToken(tnum(f"{v}.{i}"))
                    for i in range(self.tokens - n, self.tokens)
                ]

            self.random[v, 0] = self.store.add(vnum(v), n, 0, get)

        return dict(imp=True), go

    def op_redeem(self, v, spendable=True):
        tokens = self.random.get((v, 0), [RandomToken(tnum(f"{v}.x{self.t}"))])

        def go():
            try:
                self.store.insert_unblinded_tokens_for_voucher(
                    vnum(v), "K", [unblind(t) for t in tokens], True, spendable
                )
            except ValueError:
                raise Nope()
            self.random.pop((v, 0), None)

        return dict(imp=False), go

    def op_double(self, v):
        def go():
            try:
                self.store.mark_voucher_double_spent(vnum(v))
            except ValueError:
                raise Nope()

        return dict(imp=False), go

    def op_get(self, n):
        return dict(imp=False), lambda: self.held.extend(
            self.store.get_unblinded_tokens(n)
        )

    def _dispose(self, f, k):
        taken = self.held[:k]
        if not taken:
            return {}, None

        def go():
            f(taken)
            del self.held[:k]

        return dict(imp=False), go

    def op_spend(self, k):
        return self._dispose(lambda x: self.store.discard_unblinded_tokens(x), k)

    def op_inval(self, k):
        return self._dispose(
            lambda x: self.store.invalidate_unblinded_tokens("why", x), k
        )

    def op_reset(self, k):
        return self._dispose(lambda x: self.store.reset_unblinded_tokens(x), k)

    def op_maint(self):
        def go():
            if self.m is None:
                self.m = self.store.start_lease_maintenance()
            elif self.t % 2:
                self.m.observe([1500, self.t])
            else:
                self.m.finish()
                self.m = None

        return dict(imp=False), go

    def op_raw(self, kind, imp, fail=False):
        """
        A transaction with all sorts of statements.
        """
        n = f"{self.t}"

        def go():
            with self.rconn:
                cur = self.rconn.cursor()
                cur.execute("BEGIN IMMEDIATE TRANSACTION")
                # important as a whole or in part
                if imp == "last":
                    self.statements(cur, "many", n)
                if imp:
                    with cur.important():
                        self.statements(cur, kind, n)
                else:
                    self.statements(cur, kind, n)
                if imp == "first":
                    self.statements(cur, "many", n)
                if fail:
                    raise Nope()

        return dict(imp=bool(imp)), go

    def op_mixed(self, kind, which):
        return self.op_raw(kind, which)

    def statements(self, cur, kind, n):
        if kind == "large":
            cur.execute(
                f"INSERT INTO [invalid-unblinded-tokens] VALUES (?, ?) -- {PAD}",
                ("t" + n, "large"),
            )
        elif kind == "many":
            cur.executemany(
                "INSERT OR REPLACE INTO [invalid-unblinded-tokens]\n   VALUES (?, ?)",
                [("m" + n, None), ("m0", "a 'quote' \u2603 %s ? [x]"), ("m1", 2**40)],
            )
        elif kind == "types":
            cur.execute(
                "insert or replace into [invalid-unblinded-tokens]([token], [reason])\nvalues (?, ?)",
                ("b", b"\x00\xff;" + n.encode()),
            )
            cur.execute(
                "-- remark\n  update [invalid-unblinded-tokens] set [reason] = ? where [token] = ?",
                (1.5, "m1"),
            )
            cur.execute("select * from [invalid-unblinded-tokens]", ())
            cur.fetchall()
        elif kind == "query":
            cur.execute("SELECT count(*) FROM [invalid-unblinded-tokens]", ())
            cur.fetchall()
            cur.execute("  select 'INSERT INTO', ?", ("UPDATE",))
            cur.fetchall()
        elif kind == "delete":
            cur.execute("DELETE FROM [invalid-unblinded-tokens] WHERE [token] LIKE 'm%'", ())
            cur.execute(
                "INSERT INTO [invalid-unblinded-tokens] SELECT 'd' || ?, count(*) FROM [invalid-unblinded-tokens]",
                (n,),
            )
        elif kind == "order":
            # The result depends on the order.
            for sql in (
                "INSERT OR REPLACE INTO [invalid-unblinded-tokens] VALUES ('o', '1')",
                "UPDATE [invalid-unblinded-tokens] SET [reason] = [reason] || 'x' WHERE [token] = 'o'",
                "UPDATE [invalid-unblinded-tokens] SET [reason] = [reason] * 2 WHERE [token] = 'o'",
            ):
                cur.execute(sql)
            cur.execute(
                "UPDATE [invalid-unblinded-tokens] SET [reason] = [reason] || ? WHERE [token] = 'o'",
                (n,),
            )
        else:
            raise ValueError(kind)

    # -- replication ---------------------------------------------------
    def op_setup(self):
        if self.conf:
            return {}, None
        return {"as": "setup"}, self.serve

    def op_ans(self, kind, pol=False):
        if not self.agent.waiting:
            return {}, None
        r = self.agent.waiting[0]
        self.say = bool(pol)
        return (
            dict(kind=kind, pol=bool(pol), **{"as": "ans"}),
            lambda: self.agent.answer(r, kind),
        )

    def op_halt(self):
        if self.svc is None or not self.svc.running:
            return {}, None
        return {"as": "halt"}, lambda: self.svc.stopService()

    def disaster(self):
        if self.conn is not None:
            self.kill()
        base = os.path.join(self.dir, f"d{self.wallets}")
        path, conn, store, ok, why = self.recover_into(base)
        conn.close()
        if not ok:
            return self.record("disaster", "failed: " + why[:200])
        # what the recovered wallet is, in terms of the old one
        with open(path, "rb") as f:
            data = f.read()
        conn = sqlite3.connect(path)
        d = digest(conn)
        conn.close()
        was = [k for k, x in enumerate(self.states) if x == d]
        self.new_wallet()
        with open(self.path, "wb") as f:
            f.write(data)
        self.reader.close()
        self.reader = None
        self.states = [self.digest_now()]
        # Names of tokens stay unique.
        self.random = {}
        self.record("disaster", "ok", was=was)

    # -- the end of every schedule --------------------------------------
    def epilogue(self):
        if self.conn is None:
            self.t += 1
            self.boot()
        self.do(["raw", "order", True])
        for _ in range(100):
            if not self.agent.waiting:
                break
            self.do(["ans", "ok", False])
        self.do(["raw", "many", True])
        for i in range(200):
            if not self.agent.waiting:
                break
            self.do(["ans", "ok", i < 3])
        self.t += 1
        self.stmts = []
        self.record("end", "ok")


if __name__ == "__main__":
    drive(World)
