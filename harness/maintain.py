"""
Drive the lease maintenance service that the plugin attaches to a Tahoe-LAFS
client node, in front of nodes, directories and storage servers that answer
when and how the schedule says.

usage: maintain.py SCHEDULES.ndjson TRACE.ndjson
"""
import json
import os
import random
import resource
import signal
import sqlite3
import zlib

from common import drive, rmtree, scratch
from node import Reactor, make_config

import twisted.internet
from allmydata.client import SecretHolder, _Client
from allmydata.interfaces import IDirectoryNode, IFileNode, IFilesystemNode
from allmydata.util.hashutil import (
    bucket_cancel_secret_hash,
    bucket_renewal_secret_hash,
    file_cancel_secret_hash,
    file_renewal_secret_hash,
)
from twisted.application.service import MultiService
from twisted.internet.defer import Deferred, fail, succeed
from zope.interface import implementer

import _zkapauthorizer._plugin  # noqa: F401
from _zkapauthorizer.foolscap import ShareStat
from _zkapauthorizer.config import CONFIG_DB_NAME

BASE = 1_600_000_000

CONFIG = """
[node]
nickname = test
web.port = tcp:1:interface=127.0.0.1

[storage]
enabled = false

[client]
shares.needed = 1
shares.happy = 1
shares.total = 2
storage.plugins = {plugins}

[storageclient.plugins.privatestorageio-zkapauthz-v2]
redeemer = non
allowed-public-keys = AAAA
pass-value = {pass_}
lease.crawl-interval.mean = {mean}
lease.crawl-interval.range = {range_}
lease.min-time-remaining = {min}
"""


class Chance(random.Random):
    """
    A source of intervals that likes the extremes and whole seconds.
    """

    source = random.Random(0)

    def uniform(self, a, b):
        k = self.source.randrange(5)
        if k == 0:
            return a
        if k == 1:
            return b
        return float(self.source.randint(int(a), int(b)))


random.Random = Chance
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)


class Trouble(Exception):
    pass


def storage_index(name):
    return name.encode("ascii").ljust(16, b".")


def node_name(si):
    return si.decode("ascii", "replace").rstrip(".")


@implementer(IFilesystemNode)
class Node:
    def __init__(self, world, name):
        self.world = world
        self.name = name

    def get_storage_index(self):
        if self.world.c["kind"][self.name] in ("dir", "file"):
            return storage_index(self.name)
        return None


@implementer(IFileNode)
class File(Node):
    pass


@implementer(IDirectoryNode)
class Directory(Node):
    def list(self):
        w = self.world
        if w.c["kind"][self.name] == "litdir":
            return succeed(w.children(self.name))
        return w.request(self.run, dict(kind="list", at=self.name), lambda: w.children(self.name))


class Server:
    """
    What the storage client is for one storage server.
    """

    def __init__(self, world, name):
        self.world = world
        self.name = name

    def get_lease_seed(self):
        return b"seed of " + self.name.encode("ascii").ljust(12)

    def stat_shares(self, storage_indexes):
        w = self.world
        names = [node_name(si) for si in storage_indexes]
        if not names:
            return succeed([])

        def answer():
            r = []
            for n in names:
                shares = w.hold[self.name].get(n, [])
                r.append(
                    {
                        i * 3 % 7: ShareStat(size=size, lease_expiration=exp)
                        for i, (size, exp) in enumerate(shares)
                    }
                )
            return r

        return w.request(self.run, dict(kind="stat", srv=self.name, what=names), answer)

    def add_lease(self, si, renew_secret, cancel_secret):
        w = self.world
        n = node_name(si)
        r = bucket_renewal_secret_hash(
            file_renewal_secret_hash(w.secrets.get_renewal_secret(), si), self.get_lease_seed()
        )
        c = bucket_cancel_secret_hash(
            file_cancel_secret_hash(w.secrets.get_cancel_secret(), si), self.get_lease_seed()
        )

        def answer():
            hold = w.hold[self.name]
            hold[n] = [(size, w.now() + w.c["period"]) for size, _ in hold.get(n, [])]

        return w.request(
            self.run,
            dict(kind="add", srv=self.name, at=n, ok=(renew_secret, cancel_secret) == (r, c)),
            answer,
        )


class NativeServer:
    def __init__(self, server):
        self.server = server

    def get_storage_server(self):
        return self.server


class Broker:
    def __init__(self, world):
        self.world = world

    def get_connected_servers(self):
        w = self.world
        r = []
        for name in sorted(w.conn, reverse=w.flip):
            s = Server(w, name)
            s.run = w.incarnation
            r.append(NativeServer(s))
        return frozenset(r) if w.flip else r


class Client(MultiService):
    """
    As much of a Tahoe-LAFS client node as matters here.
    """

    def __init__(self, world):
        MultiService.__init__(self)
        self.world = world
        self.config = world.node_config
        self._secret_holder = world.secrets
        self._run = world.incarnation
        self.storage_broker = Broker(world)

    def get_storage_broker(self):
        return self.storage_broker

    def create_node_from_uri(self, uri, *a, **kw):
        if isinstance(uri, bytes):
            uri = uri.decode("ascii")
        return self.world.node(uri)


class World:
    def __init__(self, params, out):
        self.dir = scratch("vp-maintain-")
        self.base = os.path.join(self.dir, "node")
        self.c = c = params["c"]
        seed = zlib.crc32(json.dumps(params["ops"]).encode())
        Chance.source = random.Random.__mro__[1](seed)
        self.flip = bool(seed & 1)
        self.out = out
        self.t = 0
        self.incarnation = 0
        self.secrets = SecretHolder(b"lease secret", b"convergence")
        self.kids = {d: set(params["kids"].get(d, [])) for d, k in c["kind"].items() if k in ("dir", "litdir")}
        self.conn = {"x", "y"}
        self.hold = {x: {} for x in c["servers"]}
        self.waiting = []
        self.calls = []
        self.reader = None
        self.client = None
        self.rows = 0
        self.node_config = make_config(
            self.base,
            CONFIG.format(
                plugins="privatestorageio-zkapauthz-v2" if c["enabled"] else "",
                pass_=c["pass"],
                mean=(c["lo"] + c["hi"]) // 2,
                range_=c["hi"] - c["lo"],
                min=c["min"],
            ),
        )
        self.db = self.node_config.get_private_path(CONFIG_DB_NAME)
        self.set_root({"d0"})
        out.event(
            dict(
                op="init",
                c=c,
                kids={d: sorted(k) for d, k in self.kids.items()},
                root=["d0"],
                conn=sorted(self.conn),
            )
        )

    # -- the world ---------------------------------------------------
    def now(self):
        return BASE + self.t

    def node(self, name):
        if self.c["kind"][name] in ("dir", "litdir"):
            n = Directory(self, name)
            n.run = self.incarnation
            return n
        if name.startswith("u"):
            return Node(self, name)
        return File(self, name)

    def children(self, name):
        return {f"{i}{n}": (self.node(n), {}) for i, n in enumerate(sorted(self.kids[name]))}

    def request(self, run, call, answer):
        if run != self.incarnation:
            # It belongs to a process that is no more.
            return Deferred()
        d = Deferred()
        self.calls.append(dict(dict(at="", srv="", what=[], ok=True), **call))
        self.waiting.append((d, answer))
        return d

    def set_root(self, root):
        p = os.path.join(self.base, "private", "rootcap")
        if root:
            with open(p, "w") as f:
                f.write("".join(root) + "\n")
        elif os.path.exists(p):
            os.remove(p)

    # -- the process -------------------------------------------------
    def boot(self):
        self.incarnation += 1
        self.waiting = []
        self.calls = []
        self.reactor = Reactor()
        self.reactor.advance(self.now())
        twisted.internet.reactor = self.reactor
        self.client = Client(self)
        _Client.init_storage(self.client, [])
        _Client.init_storage(self.client, [])
        self.client.startService()

    def down(self):
        self.incarnation += 1
        self.waiting = []
        self.calls = []
        self.client = None
        self.reactor = None

    def close(self):
        if self.reader is not None:
            self.reader.close()
        rmtree(self.dir)

    # -- observation -------------------------------------------------
    def read(self, sql):
        if self.reader is None:
            self.reader = sqlite3.connect(self.db)
        cur = self.reader.cursor()
        cur.execute(sql)
        rows = cur.fetchall()
        cur.close()
        return rows

    def record(self, op, **args):
        rows = self.read("SELECT COUNT(*) FROM [lease-maintenance-spending]")[0][0]
        done = self.read(
            "SELECT [count], [started] <= [finished] FROM [lease-maintenance-spending] "
            "WHERE [finished] IS NOT NULL ORDER BY [id] DESC LIMIT 1"
        )
        e = dict(
            op=op,
            t=self.t,
            calls=self.calls,
            waiting=len(self.waiting),
            began=rows - self.rows,
            done=[n for n, _ in done],
            orderly=all(ok for _, ok in done),
        )
        self.rows = rows
        e.update(args)
        self.calls = []
        self.out.event(e)

    # -- operations --------------------------------------------------
    def run(self, ops):
        self.do(["boot"])
        for op in ops:
            self.do(op)
        self.do(["due"])
        self.do(["ok", 60])

    def do(self, op):
        r = getattr(self, "op_" + op[0])(*op[1:])
        if r is not None:
            self.record(op[0], **r)

    def op_boot(self):
        if self.client is not None or self.waiting:
            return None
        self.boot()
        return {}

    def op_stop(self):
        if self.client is None:
            return None
        c, self.client = self.client, None
        c.stopService()
        return {}

    def op_down(self):
        self.down()
        return {}

    def op_crash(self):
        self.down()
        self.record("down")
        self.boot()
        self.record("boot")

    def next_call(self):
        if self.reactor is None:
            return None
        times = [c.getTime() for c in self.reactor.getDelayedCalls()]
        return min(times) if times else None

    def op_wait(self, d):
        """
        Time passes, but not more than until something happens.
        """
        target = self.now() + d
        due = self.next_call()
        if due is not None and due <= target:
            target = max(due, self.now())
        self.go_to(target)
        return {}

    def go_to(self, target):
        if self.reactor is not None:
            self.reactor.advance(target - self.reactor.seconds())
        self.t = int(target - BASE)

    def op_due(self):
        due = self.next_call()
        self.go_to(self.now() + 3000 if due is None else max(due, self.now()))
        self.record("wait")

    def op_ok(self, n):
        for _ in range(n):
            if not self.waiting:
                break
            d, answer = self.waiting.pop(0)
            d.callback(answer())
            self.record("ok")

    def op_fail(self):
        if not self.waiting:
            return None
        d, _ = self.waiting.pop(0)
        d.errback(Trouble("no"))
        return {}

    def op_failfull(self):
        """
        A failure, and nothing can be written to any file.
        """
        if not self.waiting:
            return None
        limits = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (0, limits[1]))
        try:
            self.op_fail()
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, limits)
        return {}

    def op_lost(self):
        if not self.waiting:
            return None
        d, answer = self.waiting.pop(0)
        answer()
        d.errback(Trouble("lost"))
        return {}

    def op_root(self, root):
        self.set_root(root)
        return dict(root=root)

    def op_kid(self, d, n):
        self.kids[d] ^= {n}
        return dict(d=d, kids=sorted(self.kids[d]))

    def op_share(self, x, n, shares):
        # a share without a lease is reported as one that expired at 0
        self.hold[x][n] = [(h[0], self.now() + h[1] if len(h) > 1 else 0) for h in shares]
        return dict(
            srv=x,
            n=n,
            shares=[
                dict(size=size, exp=max(exp - BASE, -(10**9))) for size, exp in self.hold[x][n]
            ],
        )

    def op_conn(self, x):
        self.conn ^= {x}
        return dict(conn=sorted(self.conn))


if __name__ == "__main__":
    drive(World)
