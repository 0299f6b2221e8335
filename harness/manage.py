"""
Drive replication set-up and recovery through the real plugin's management
interface, with the grid answering when and how the schedule says.

usage: manage.py SCHEDULES.ndjson TRACE.ndjson
"""
import os
import resource
import signal
import sqlite3
from base64 import urlsafe_b64encode
from functools import partial

from common import EPOCH, Crash, Faults, drive, faulty_connect, hard_close, rmtree, scratch
from grid import Agent, Grid, tahoe
import node
from node import HTTP, Reactor, WebSocket, auth, loads, make_config, site_for
from replica import MUTATES, digest, fresh_database, query

import cbor2
from tahoe_capabilities import readonly_directory_from_string
from twisted.internet.defer import Deferred
from twisted.web.client import ResponseFailed
from twisted.python.failure import Failure
from wallet import tnum, unblind, vname, vnum

from _zkapauthorizer import NAME
from _zkapauthorizer._plugin import ZKAPAuthorizer
from _zkapauthorizer.model import RandomToken, VoucherStore, open_database
from _zkapauthorizer.recover import (
    RecoveryStages,
    StatefulRecoverer,
    get_tahoe_lafs_downloader,
)
from _zkapauthorizer.replicate import with_replication

signal.signal(signal.SIGXFSZ, signal.SIG_IGN)

BAD = {
    "notjson": lambda ro: b"what?",
    "empty": lambda ro: b"",
    "list": lambda ro: b'["' + ro + b'"]',
    "extra": lambda ro: b'{"recovery-capability": "' + ro + b'", "x": 1}',
    "missing": lambda ro: b"{}",
    "number": lambda ro: b'{"recovery-capability": 1}',
    "nocap": lambda ro: b'{"recovery-capability": "URI:nonsense"}',
}


_replicas = None


def make_replicas():
    """
    Things to recover from, made once: name -> ({child: data}, vouchers,
    digest of the wallet)
    """
    global _replicas
    if _replicas is not None:
        return _replicas
    d = scratch("vp-source-")

    log = []

    def note(sql, rows):
        if MUTATES.match(sql):
            log.extend((sql, row) for row in rows)

    def source(name):
        """
        A wallet the changes of which are written down.
        """
        del log[:]
        path = os.path.join(d, name)
        fresh_database(path)
        faults = Faults()
        conn = open_database(faulty_connect(path, faults))
        store = VoucherStore.from_connection(
            1000, lambda: EPOCH, with_replication(conn, False)
        )
        del log[:]
        faults.note = note
        return path, conn, store

    def toks(v, g, n):
        return [RandomToken(tnum(f"{v}.{g}.{i}")) for i in range(n)]

    def redeem(store, v, n):
        ts = store.add(vnum(v), n, 0, partial(toks, v, 0, n))
        store.insert_unblinded_tokens_for_voucher(
            vnum(v), "AAAAAAAA", [unblind(t) for t in ts], completed=True, spendable=True
        )

    def dump(path):
        c = sqlite3.connect(path)
        statements = list(c.iterdump())
        c.close()
        if log:
            # what the log would have made of it
            statements.insert(
                len(statements) - 1,
                f"INSERT INTO sqlite_sequence (name, seq) VALUES ('event-stream', {len(log)});",
            )
        return cbor2.dumps(dict(version=1, statements=statements))

    def events(after):
        def plain(a):
            return a.isoformat(" ") if hasattr(a, "isoformat") else a

        rows = [
            (i + 1, sql, tuple(map(plain, args)), "VALUES" in sql)
            for i, (sql, args) in enumerate(log)
        ]
        return cbor2.dumps(dict(version=1, events=rows[after:])), len(rows)

    def finish(conn, path):
        conn.close()
        c = sqlite3.connect(path)
        r = digest(c)
        c.close()
        return r

    r = {}
    # A: a snapshot and two streams, one of which overlaps with it
    path, conn, store = source("A")
    redeem(store, "a1", 4)
    snap = dump(path)
    n = len(log)
    redeem(store, "a2", 3)
    e1, m = events(n - 2)
    store.add(vnum("a3"), 2, 0, partial(toks, "a3", 0, 2))
    taken = store.get_unblinded_tokens(2)
    store.discard_unblinded_tokens(taken[:1])
    e2, k = events(m)
    r["A"] = (
        {"snapshot": snap, f"event-stream-{m}": e1, f"event-stream-{k}": e2, "notes": b"x"},
        ["a1", "a2", "a3"],
        finish(conn, path),
    )
    bad = dict(r["A"][0])
    bad[f"event-stream-{m}"] = b"\xff\xff\xff"
    # B: only a snapshot
    path, conn, store = source("B")
    store.add(vnum("b1"), 2, 0, partial(toks, "b1", 0, 2))
    r["B"] = ({"snapshot": dump(path)}, ["b1"], finish(conn, path))
    # E: the replica of an empty wallet
    path, conn, store = source("E")
    r["E"] = ({"snapshot": dump(path)}, [], finish(conn, path))
    # N: no snapshot; C, V, S: nonsense in it
    r["N"] = ({"event-stream-4": e1, "notes": b"x"}, [], "-")
    r["C"] = ({"snapshot": b"\xff\xfe nonsense"}, [], "-")
    r["V"] = ({"snapshot": cbor2.dumps(dict(version=2, statements=[]))}, [], "-")
    r["S"] = (bad, [], "-")
    # F: a token of no voucher
    path, conn, store = source("F")
    store.add(vnum("f1"), 2, 0, partial(toks, "f1", 0, 2))
    conn.execute("PRAGMA foreign_keys = OFF")
    conn.execute("DELETE FROM [vouchers]")
    conn.commit()
    r["F"] = ({"snapshot": dump(path)}, [], "-")
    conn.close()
    # X: not there at all
    r["X"] = (None, [], "-")
    rmtree(d)
    _replicas = r
    return r


KIND = dict(A="good", B="good", E="good", N="gone", C="bad", V="bad", S="bad", F="unfit", X="gone")


class World:
    def __init__(self, params, out):
        self.params = params
        self.out = out
        self.dir = scratch("vp-manage-")
        self.base = os.path.join(self.dir, "node")
        self.grid = Grid()
        self.replicas = make_replicas()
        self.cap = {}
        self.files = {}
        for name in sorted(self.replicas):
            children, has, dig = self.replicas[name]
            rw = self.grid.mkdir()
            ro = self.grid.reader(rw)
            self.cap[name] = ro
            self.files[ro] = name
            if children is None:
                del self.grid.dirs[rw]
                continue
            for child, data in sorted(children.items()):
                c = self.grid.upload(data)
                self.files[c] = name
                self.grid.dirs[rw][child] = c
        self.writers = list(self.grid.dirs)
        self.file_cap = self.grid.upload(b"a file")
        self.made = []
        self.last = None
        make_config(self.base)
        self.path = self.config().get_private_path("privatestorageio-zkapauthz-v2.sqlite3")
        self.reader = None
        self.conn = None
        self.faults = Faults()
        self.out.event(
            dict(
                op="init",
                reps={n: dict(kind=KIND[n], has=has) for n, (_, has, _) in self.replicas.items()},
            )
        )
        self.clear()

    def clear(self):
        self.ws = {}
        self.got = {}
        self.http = []
        self.calls = []

    def config(self):
        return make_config(self.base)

    # -- the process -------------------------------------------------
    def connect(self, path, **kw):
        self.path = path
        self.conn = faulty_connect(path, self.faults)(**kw)
        return self.conn

    def boot(self):
        # The process that may have held the lock is gone.
        private = os.path.join(self.base, "private")
        for name in os.listdir(private):
            p = os.path.join(private, name)
            if os.path.islink(p):
                os.remove(p)
                os.symlink(str(2**22 - 3), p)
        self.clear()
        self.faults = Faults()
        self.agent = Agent(self.grid, on_request=self.on_request)
        self.reactor = Reactor()
        self.plugin = ZKAPAuthorizer(
            NAME,
            self.reactor,
            lambda reactor, config: tahoe(self.agent, config),
            connect=self.connect,
        )
        self.node_config = self.config()
        self.root = self.plugin.get_client_resource(self.node_config)
        self.site = site_for(self.root, self.reactor)

    def kill(self):
        self.faults.dead = True
        if self.conn is not None:
            self.agent.dead = True
            self.agent.waiting = []
            hard_close(self.conn)
            self.conn = None
        for w in self.ws.values():
            w.conn.lost = True
        self.graveyard = getattr(self, "graveyard", [])
        self.graveyard.append(getattr(self, "root", None))
        self.clear()
        self.root = self.plugin = self.site = None

    def close(self):
        self.kill()
        if self.reader is not None:
            self.reader.close()
        rmtree(self.dir)

    # -- the grid ----------------------------------------------------
    def on_request(self, r):
        if r.kind == "mkdir":
            self.calls.append(dict(kind="mkdir", cap="-"))
        elif r.cap in self.files:
            self.calls.append(dict(kind=r.kind, cap=self.files[r.cap]))
        elif r.kind == "?":
            self.calls.append(dict(kind="? " + r.name[:90], cap="-"))

    def which(self, r):
        if r.kind == "mkdir":
            return "mkdir"
        if r.kind in ("list", "read") and r.cap in self.files:
            return "rec"
        return "own"

    def waiting(self, which):
        return [r for r in self.agent.waiting if self.which(r) == which]

    def settle(self):
        """
        The replica that was set up is always reachable.
        """
        for _ in range(2000):
            if self.conn is None:
                break
            own = self.waiting("own")
            if own:
                self.agent.answer(own[0], "ok")
            elif not self.poll():
                break

    def poll(self):
        busy = False
        for h in self.calls_open():
            if h.poll():
                busy = True
                self.http.append(self.response(h))
        for k, w in list(self.ws.items()):
            for ev in w.poll():
                busy = True
                g = self.got[k]
                if ev[0] == "refused":
                    g.update(st="refused", code=ev[1])
                elif ev[0] == "msg":
                    m = loads(ev[1])
                    if not isinstance(m, dict) or set(m) != {"stage", "failure-reason"}:
                        g["bad"] = True
                        m = {"stage": "?", "failure-reason": None}
                    if self.leaks(ev[1]):
                        g["leak"] = True
                    g["got"].append(str(m["stage"]))
                    why = m["failure-reason"]
                    if m["stage"].endswith("_failed") != (isinstance(why, str) and why != ""):
                        g["bad"] = True
                elif ev[0] == "close":
                    g.update(st="closed", code=ev[1])
                elif ev[0] == "eof" and g["st"] == "open":
                    g.update(st="closed", code=-1)
        return busy

    def calls_open(self):
        return self.pending

    pending = ()

    def leaks(self, data):
        # The write key is a part of the capability that is the same however
        # that is quoted.
        return any(rw.split(":")[2].encode() in data for rw in self.made + self.writers)

    def response(self, h):
        self.note_made()
        d = -1
        cap = None
        m = loads(h.body)
        if isinstance(m, dict):
            cap = m.get("recovery-capability")
        if cap is None:
            d = 0
        else:
            for i, rw in enumerate(self.made):
                if self.grid.reader(rw) == cap:
                    d = i + 1
        return dict(what=h.what, code=h.code, dir=d, leak=self.leaks(h.raw))

    def request(self, what, method, path, body=b"", headers=()):
        h = HTTP(self.site, method, path, [auth()] + list(headers), body)
        h.what = what
        self.pending = list(self.pending) + [h]

    # -- observation -------------------------------------------------
    def vouchers(self, conn):
        return [vname(n) for (n,) in query(conn, "SELECT [number] FROM [vouchers]")]

    def observe(self):
        self.note_made()
        e = dict(has=[], dig=[], conf=0, readable=True, same=False)
        try:
            if self.reader is None:
                self.reader = sqlite3.connect(self.path)
            e["has"] = self.vouchers(self.reader)
            d = digest(self.reader)
            e["same"] = d == self.last
            self.last = d
            e["dig"] = [n for n, (_, _, x) in self.replicas.items() if x == d]
        except sqlite3.Error:
            e["readable"] = False
        private = self.node_config.get_private_path("")
        for name in os.listdir(private):
            if name == "rwcap" or name.endswith(".rwcap") or "rwcap" in name:
                p = os.path.join(private, name)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                with open(p, "rb") as f:
                    data = f.read().strip()
                if data.decode("latin-1") in self.made:
                    e["conf"] = self.made.index(data.decode("latin-1")) + 1
                elif not name.endswith(".new"):
                    e["conf"] = -1
        return e

    def note_made(self):
        for rw in self.grid.dirs:
            if rw not in self.made and rw not in self.writers:
                self.made.append(rw)

    def own_replica(self):
        """
        Recover from the replica of this node.
        """
        e = dict(tried=False, ok=False, has=[], why="")
        x = self.observe()
        if x["conf"] < 1:
            return e
        e["tried"] = True
        base = os.path.join(self.dir, "other")
        os.makedirs(base)
        config = make_config(base)
        path = config.get_private_path("db")
        fresh_database(path)
        conn = open_database(partial(sqlite3.connect, path))
        try:
            store = VoucherStore.from_connection(1000, lambda: EPOCH, with_replication(conn, False))
            download = get_tahoe_lafs_downloader(tahoe(Agent(self.grid, auto=True), config))(
                readonly_directory_from_string(self.grid.reader(self.made[x["conf"] - 1]))
            )
            r = StatefulRecoverer()
            Deferred.fromCoroutine(
                store.call_if_empty(partial(r.recover, download))
            ).addErrback(lambda f: e.update(why=str(f)[:200]))
            e["ok"] = r.state().stage == RecoveryStages.succeeded
            e["why"] += str(r.state().failure_reason)[:200]
            e["has"] = self.vouchers(conn)
        finally:
            conn.close()
            import shutil

            shutil.rmtree(base, ignore_errors=True)
        return e

    def record(self, op, **args):
        self.note_made()
        e = dict(op=op, alive=self.conn is not None, out="ok")
        e.update(self.observe())
        e["made"] = len(self.made)
        e["calls"], self.calls = self.calls, []
        e["http"], self.http = self.http, []
        e["ws"] = [dict(c=k, **g) for k, g in sorted(self.got.items())]
        w = self.conn is not None
        e["mkdirs"] = len(self.waiting("mkdir")) if w else 0
        e["recs"] = len(self.waiting("rec")) if w else 0
        e.update(args)
        self.out.event(e)

    # -- operations --------------------------------------------------
    def run(self, ops):
        self.boot()
        self.settle()
        self.record("boot")
        for op in ops:
            self.do(op)
        for _ in range(40):
            if self.waiting("rec"):
                self.do(["ans", "rec", "ok"])
            elif self.waiting("mkdir"):
                self.do(["ans", "mkdir", "ok"])
            else:
                break
        self.do(["check"])

    def do(self, op):
        out = getattr(self, "op_" + op[0])(*op[1:])
        if out is None:
            return
        self.settle()
        self.record(op[0], **out)

    def op_put(self, v):
        self.request("put", b"PUT", b"/voucher", b'{"voucher": "%s"}' % (vnum(v),))
        return dict(v=v)

    def op_setup(self):
        self.request("setup", b"POST", b"/replicate")
        return {}

    def op_open(self, k):
        w = self.ws[k] = WebSocket(self.site, b"/recover", [auth()])
        self.got[k] = dict(st="open", code=0, got=[], bad=False, leak=False)
        return dict(c=k)

    def op_send(self, k, what):
        w = self.ws.get(k)
        if w is None or w.state != "open" or getattr(w, "sent", False):
            return None
        w.sent = True
        ro = self.cap["A"].encode()
        if what in self.cap:
            ro = self.cap[what].encode()
            w.send(b'{"recovery-capability": "%s"}' % (ro,))
            return dict(c=k, what="cap", cap=what)
        if what == "writecap":
            data = b'{"recovery-capability": "%s"}' % (self.grid.readers[ro.decode()].encode(),)
        elif what == "filecap":
            data = b'{"recovery-capability": "%s"}' % (self.file_cap.encode(),)
        else:
            data = BAD[what](ro)
        w.send(data)
        return dict(c=k, what="bad", cap=what)

    def _forget(self, k):
        del self.ws[k]
        del self.got[k]

    def op_close(self, k):
        w = self.ws.get(k)
        if w is None:
            return None
        w.close()
        w.poll()
        if not w.conn.lost:
            w.drop()
        self._forget(k)
        return dict(c=k)

    def op_drop(self, k):
        w = self.ws.get(k)
        if w is None:
            return None
        w.drop()
        self._forget(k)
        return dict(c=k)

    def op_ans(self, which, kind):
        rs = self.waiting(which)
        if not rs:
            return None
        r = rs[0]
        a = self.agent
        if kind == "garbage":
            if which == "rec":
                kind = "fail"
            else:
                a.waiting.remove(r)
                a.respond(r, 200, b"<html>welcome to the hotel</html>")
        elif kind == "cut":
            a.waiting.remove(r)
            code, body = self.grid.perform(r)
            if which == "mkdir":
                self.note_made()
            self.cut(r, code, body)
        elif kind == "full":
            if which == "rec":
                kind = "fail"
            else:
                limit = resource.getrlimit(resource.RLIMIT_FSIZE)
                # something must have been allocated already
                resource.setrlimit(resource.RLIMIT_FSIZE, (0, limit[1]))
                try:
                    a.answer(r, "ok")
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, limit)
        if kind not in ("garbage", "cut", "full"):
            a.answer(r, kind)
        return dict(which=which, kind=kind)

    def cut(self, r, code, body):
        """
        The connection breaks in the middle of the answer.
        """
        from grid import Response, _Req
        from twisted.internet.error import ConnectionLost
        from twisted.web.http_headers import Headers

        class Cut(Response):
            def deliverBody(self, protocol):
                protocol.makeConnection(self)
                protocol.dataReceived(self.body[: len(self.body) // 2])
                protocol.connectionLost(Failure(ResponseFailed([Failure(ConnectionLost())])))

        r.d.callback(Cut(code, body, _Req(b"?", r.url, Headers())))

    def op_crash(self):
        self.kill()
        self.record("crash")
        self.boot()
        self.settle()
        self.record("boot")
        return None

    def op_check(self):
        return dict(own=self.own_replica())


if __name__ == "__main__":
    drive(World)
