"""
Drive the real storage client, wallet and storage server through schedules and
record what happens.

usage: storage.py SCHEDULES.ndjson TRACE.ndjson

Each schedule is {"pv": pass value, "big": bool, "ops": [[op, args...], ...]}.
"""
import os
import sqlite3
from base64 import b64encode, b64decode, urlsafe_b64encode

from common import EPOCH, drive, rmtree, scratch

from allmydata.storage.common import storage_index_to_dir
from allmydata.storage.immutable import ShareFile
from allmydata.storage.mutable import MutableShareFile
from allmydata.storage.server import StorageServer
from challenge_bypass_ristretto import (
    PublicKey,
    TokenPreimage,
    random_signing_key,
)
from twisted.internet.defer import Deferred
from twisted.internet.task import Clock
from twisted.python.failure import Failure

from _zkapauthorizer._storage_client import ZKAPAuthorizerStorageClient
from _zkapauthorizer._storage_server import (
    ZKAPAuthorizerStorageServer,
)
from _zkapauthorizer.controller import RistrettoRedeemer
from _zkapauthorizer.model import (
    NotEnoughTokens,
    RandomToken,
    UnblindedToken,
    VoucherStore,
    open_database,
)
from _zkapauthorizer.pricecalculator import PriceCalculator
from _zkapauthorizer.replicate import with_replication
from _zkapauthorizer.server.spending import RecordingSpender
from _zkapauthorizer.spending import SpendingController
from _zkapauthorizer.storage_common import MorePassesRequired
from _zkapauthorizer.tests.foolscap import LocalRemote
from foolscap.referenceable import LocalReferenceable
from functools import partial
from hyperlink import DecodedURL
from prometheus_client import CollectorRegistry

KEYS = {
    "g": random_signing_key(),
    "b": random_signing_key(),
}
LABEL = dict(
    alloc=b"allocate_buckets",
    lease=b"add_lease",
    write=b"slot_testv_and_readv_and_writev",
)
METHODS = dict(
    allocate_buckets="alloc",
    add_lease="lease",
    slot_testv_and_readv_and_writev="write",
    share_sizes="sizes",
    stat_shares="stat",
)
SIS = ["i1", "i2", "m1", "m2"]
SECRETS = ["s%d" % (i,) for i in range(1, 9)]
ENABLERS = ["w1", "w2"]
UNIT = 2**28


def si_bytes(name):
    # Vary the first bytes; they make the prefix directory.
    return (b"\xf7\x0b" + name.encode("ascii")).ljust(16, b"\xff")


def message(m, si):
    return LABEL[m] + b" " + b64encode(si_bytes(si))


def secret(name, kind=b"R"):
    return (kind + name.encode("ascii")).ljust(32, b"\x01")


def preimage(name):
    return TokenPreimage.decode_base64(
        b64encode(name.encode("ascii").ljust(64, b"."))
    )


def pname(encoded):
    try:
        return b64decode(encoded).rstrip(b".").decode("ascii")
    except Exception:
        return "?"


def unblinded(name):
    return KEYS[name[0]].rederive_unblinded_token(preimage(name))


def token(name):
    return UnblindedToken(unblinded(name).encode_base64())


_token_names = {}


def tname(text):
    if isinstance(text, bytes):
        text = text.decode("ascii")
    return _token_names.get(text, "?")


def signature(name, msg):
    return unblinded(name).derive_verification_key_sha512().sign_sha512(msg)


def make_pass(name, msg, signer=None):
    return b" ".join(
        (
            preimage(name).encode_base64(),
            signature(signer or name, msg).encode_base64(),
        )
    )


def describe_pass(data, msg):
    """
    Tell what a pass presented with a request really is, without the help of
    the code under test.
    """
    try:
        p, s = data.split(b" ")
        n = pname(p)
        good = (
            n[:1] in KEYS
            and s == signature(n, msg).encode_base64()
        )
        return dict(n=n, ok=good and n[0] == "g", bound=good)
    except Exception:
        return dict(n="?", ok=False, bound=False)


class Gone(Exception):
    """
    The connection was lost.
    """


class Canary(LocalReferenceable):
    def __init__(self):
        LocalReferenceable.__init__(self, None)
        self.watchers = {}

    def notifyOnDisconnect(self, f, *a, **kw):
        marker = object()
        self.watchers[marker] = (f, a, kw)
        return marker

    def dontNotifyOnDisconnect(self, marker):
        # Like foolscap, when the connection is lost already.
        self.watchers.pop(marker, None)

    def disconnect(self):
        watchers, self.watchers = self.watchers, {}
        for f, a, kw in watchers.values():
            f(*a, **kw)


class Anonymous(StorageServer):
    def get_available_space(self):
        if self.readonly_storage:
            return 0
        return 2**60


class Remote(LocalRemote):
    """
    A reference to the storage server on the other side of a network that
    delivers what the schedule tells it to.
    """

    def callRemote(self, name, *args, **kwargs):
        w = self.world
        if w.auto:
            return LocalRemote.callRemote(self, name, *args, **kwargs)
        d = Deferred()
        w.outgoing(name, args, kwargs, d)
        return d


class World:
    def __init__(self, params, out):
        self.dir = scratch("vp-storage-")
        self.params = params
        self.out = out
        self.pv = params["pv"]
        self.big = bool(params.get("big"))
        self.unit = UNIT if self.big else 1
        self.clock = Clock()
        self.clock.advance(1000)
        self.funded = 0
        self.crafted = 0
        self.reader = None
        self.conn = None

        self.anon = Anonymous(
            os.path.join(self.dir, "storage"), b"x" * 20, clock=self.clock
        )
        self.recorder, spender = RecordingSpender.make()
        self.registry = CollectorRegistry()
        self.server = ZKAPAuthorizerStorageServer(
            self.anon,
            pass_value=self.pv * self.unit,
            signing_key=KEYS["g"],
            spender=spender,
            registry=self.registry,
            clock=self.clock,
        )
        self.canary = Canary()
        self.last_shares = []
        self.writers = {}
        self.auto = False
        out.event(dict(op="init", pv=self.pv, big=self.big, now=1000))
        self.start_client()

    def start_client(self):
        self.pending = {}
        self.new_calls = []
        self.new_done = []
        self.current = None
        if self.conn is not None:
            self.conn.close()
        path = os.path.join(self.dir, "db.sqlite3")
        self.conn = open_database(partial(sqlite3.connect, path))
        self.store = VoucherStore.from_connection(
            self.pv * self.unit,
            lambda: EPOCH,
            with_replication(self.conn, False),
        )
        redeemer = RistrettoRedeemer(
            None, DecodedURL.from_text("http://issuer.invalid/").to_uri()
        )
        self.spending = SpendingController.for_store(
            redeemer.tokens_to_passes, self.store
        )
        remote = Remote(self.server)
        remote.world = self
        self.remote = remote
        self.client = ZKAPAuthorizerStorageClient(
            self.pv * self.unit,
            lambda: remote,
            self.spending.get,
            clock=self.clock,
        )
        if self.reader is None:
            self.reader = sqlite3.connect(path)

    def close(self):
        for c in self.clock.getDelayedCalls():
            c.cancel()
        self.reader.close()
        self.conn.close()
        rmtree(self.dir)

    # -- observation -------------------------------------------------
    def shares(self):
        out = []
        for si in SIS:
            d = os.path.join(
                self.anon.sharedir, storage_index_to_dir(si_bytes(si))
            )
            if not os.path.isdir(d):
                continue
            for n in sorted(os.listdir(d)):
                out.append(self.share(si, int(n), os.path.join(d, n)))
        return out

    def share(self, si, n, path):
        with open(path, "rb") as f:
            header = f.read(32)
        if MutableShareFile.is_valid_header(header):
            sf = MutableShareFile(path)
            with open(path, "rb") as f:
                size = sf._read_data_length(f)
            data = list(sf.readv([(0, size)])[0])
            we = "?"
            for name in ENABLERS:
                try:
                    sf.check_write_enabler(secret(name, b"W"), "")
                    we = name
                except Exception:
                    pass
            kind = "mut"
        else:
            sf = ShareFile(path)
            size = sf.get_length()
            data = [] if self.big else list(sf.read_share_data(0, size))
            we = ""
            kind = "imm"
            if size % self.unit:
                size = -1
            else:
                size //= self.unit
        leases = []
        for lease in sf.get_leases():
            s = [x for x in SECRETS if lease.is_renew_secret(secret(x))]
            leases.append(
                dict(
                    s=s[0] if s else "?",
                    e=int(lease.get_expiration_time()),
                )
            )
        return dict(si=si, n=n, k=kind, sz=size, d=data, we=we, ls=leases)

    def incoming(self):
        out = []
        for si in SIS:
            d = os.path.join(
                self.anon.incomingdir, storage_index_to_dir(si_bytes(si))
            )
            if os.path.isdir(d):
                out.extend(dict(si=si, n=int(n)) for n in os.listdir(d))
        return out

    def metric(self, what, **labels):
        v = self.registry.get_sample_value(
            "zkapauthorizer_server_spending_successes_" + what, labels or None
        )
        return int(v) if v is not None else -1

    def status(self):
        """
        What the server says of all its shares.
        """
        result = []
        for si in SIS:
            name = si_bytes(si)
            stats = self.server.remote_stat_shares([name])[0]
            sizes = self.server.remote_share_sizes(name, None)
            result.extend(
                dict(
                    si=si,
                    n=n,
                    sz=self.units(stats[n].size) if n in stats else -2,
                    exp=int(stats[n].lease_expiration) if n in stats else -2,
                    sz2=self.units(sizes[n]) if n in sizes else -2,
                )
                for n in sorted(set(stats) | set(sizes))
            )
        return result

    def observe_server(self):
        sh = self.shares()
        statted = sh != self.last_shares
        self.last_shares = sh
        if statted:
            try:
                stat = self.status()
            except Exception as e:
                stat = [dict(si=repr(e), n=-1, sz=-1, exp=-1, sz2=-1)]
        else:
            stat = []
        key = self.server_key
        spent = []
        for k, names in self.recorder.spent_tokens.items():
            spent.extend(
                pname(n) if k == key else "?" + pname(n) for n in names
            )
        return dict(
            sh=sh,
            stat=stat,
            statted=statted,
            inc=self.incoming(),
            spent=spent,
            mc=self.metric("count"),
            ms=self.metric("sum"),
            mb=[
                dict(le=b, c=self.metric("bucket", le=str(float(b))))
                for b in (1, 2, 4, 8, 16)
            ],
            watch=len(self.canary.watchers),
        )

    @property
    def server_key(self):
        return PublicKey.from_signing_key(KEYS["g"]).encode_base64()

    def observe_wallet(self):
        cur = self.reader.cursor()
        tok = [
            tname(t)
            for (t,) in cur.execute(
                "SELECT [token] FROM [unblinded-tokens]"
            ).fetchall()
        ]
        inv = [
            tname(t)
            for (t,) in cur.execute(
                "SELECT [token] FROM [invalid-unblinded-tokens]"
            ).fetchall()
        ]
        cur.close()
        return dict(
            tok=tok, inv=inv, avail=self.store.count_unblinded_tokens()
        )

    def record(self, op, **args):
        e = dict(
            op=op,
            now=int(self.clock.seconds()),
            calls=self.new_calls,
            done=self.new_done,
            reply=NOREPLY,
            exc="",
        )
        e.update(args)
        self.new_calls, self.new_done = [], []
        e["srv"] = self.observe_server()
        e["wal"] = self.observe_wallet()
        self.out.event(e)

    # -- running -----------------------------------------------------
    def run(self, ops):
        for op in ops:
            getattr(self, "op_" + op[0])(*op[1:])
        # Everything outstanding is lost; no pass may stay reserved.
        for k in sorted(self.pending):
            while k in self.pending:
                self.op_net(k, "lostreq")
        self.op_drain()

    def op_drain(self):
        """
        Take every available token: exactly those not accounted for otherwise.
        """
        n = self.store.count_unblinded_tokens()
        group = self.spending.get(b"drain", n)
        names = sorted(tname(t.unblinded_token) for t in group.unblinded_tokens)
        group.reset()
        self.record("drain", toks=names)

    def op_fund(self, pattern):
        names = []
        for kind in pattern:
            self.funded += 1
            names.append("%s%d" % (kind, self.funded))
        voucher = urlsafe_b64encode(
            ("v%d" % (self.funded,)).encode("ascii").ljust(32, b".")
        )
        self.store.add(
            voucher,
            len(names),
            0,
            lambda: [
                RandomToken(
                    b64encode((b"R" + n.encode("ascii")).ljust(96, b"."))
                )
                for n in names
            ],
        )
        toks = [token(n) for n in names]
        for n, t in zip(names, toks):
            _token_names[t.unblinded_token.decode("ascii")] = n
        self.store.insert_unblinded_tokens_for_voucher(
            voucher, "key", toks, completed=True, spendable=True
        )
        self.record("fund", toks=names)

    # -- the client ----------------------------------------------------
    def tw(self, a):
        # The order of the vectors does not matter; share numbers differ.
        return {
            x["n"]: (
                [(t[0], t[1], bytes(t[2])) for t in x["t"]],
                [(d[0], bytes(d[1])) for d in x["d"]],
                None if x["nl"] == -1 else x["nl"],
            )
            for x in a["tw"]
        }

    def secrets(self, a):
        return (
            secret(a["we"], b"W"),
            secret(a["sec"]),
            secret(a["sec"], b"C"),
        )

    def absurd(self, a):
        """
        An operation of the wrong kind for the storage index is only
        interesting if there is something in its way.
        """
        kind = "m" if a["m"] == "write" else "i"
        if a["m"] == "lease" or a["si"][0] == kind:
            return False
        return not any(s["si"] == a["si"] for s in self.shares())

    def op_begin(self, k, a):
        if k in self.pending or self.absurd(a):
            return
        a = dict(a, big=self.big)
        self.current = k
        self.pending[k] = dict(a=a, call=None)
        si = si_bytes(a["si"])
        if a["m"] == "alloc":
            d = self.client.allocate_buckets(
                si,
                secret(a["sec"]),
                secret(a["sec"], b"C"),
                set(a["shs"]),
                a["size"] * self.unit,
                self.canary,
            )
        elif a["m"] == "lease":
            d = self.client.add_lease(
                si, secret(a["sec"]), secret(a["sec"], b"C")
            )
        else:
            d = self.client.slot_testv_and_readv_and_writev(
                si,
                self.secrets(a),
                {
                    n: ([(o, l, s) for (o, l, s) in t], d, nl)
                    for n, (t, d, nl) in self.tw(a).items()
                },
                [tuple(r) for r in a["rv"]],
            )
        if k in self.pending:
            self.pending[k]["result"] = d
        d.addBoth(self.finished, k)
        self.record("begin", k=k, a=a)

    def finished(self, result, k):
        a = self.pending.pop(k)["a"]
        e = dict(k=k, out="ok", **self.answer(a, None))
        if isinstance(result, Failure):
            if result.check(NotEnoughTokens):
                e["out"] = "NotEnoughTokens"
            elif result.check(MorePassesRequired):
                e["out"] = "MorePassesRequired"
            else:
                e["out"] = "error"
                e["exc"] = type(result.value).__name__
        else:
            e.update(self.answer(a, result))
        self.new_done.append(e)

    def answer(self, a, result):
        """
        The answer of an operation in the terms of the specification.
        """
        e = dict(already=[], new=[], good=False, reads=[])
        if result is None:
            return e
        if a["m"] == "alloc":
            e["already"] = sorted(result[0])
            e["new"] = sorted(result[1])
        elif a["m"] == "write":
            e["good"] = bool(result[0])
            e["reads"] = [
                dict(n=n, d=[list(x) for x in r])
                for n, r in sorted(result[1].items())
            ]
        return e

    def outgoing(self, name, args, kwargs, d):
        m = METHODS.get(name, name)
        k = self.current
        p = self.pending[k]
        passes = []
        if m in LABEL:
            msg = message(m, p["a"]["si"])
            passes = [describe_pass(x, msg) for x in args[0]]
        p["call"] = (name, args, kwargs, d, m)
        self.new_calls.append(dict(k=k, m=m, ps=passes))

    def deliver(self, name, args, kwargs, a):
        """
        Have the server process a request.

        :return: The result as a ``Deferred``, and as data.
        """
        d = LocalRemote.callRemote(self.remote, name, *args, **kwargs)
        result = []
        d.addBoth(result.append)
        [result] = result
        r = dict(NOREPLY)
        if isinstance(result, Failure):
            if result.check(MorePassesRequired):
                e = result.value
                r.update(
                    k="mpr",
                    v=e.valid_count,
                    r=e.required_count,
                    f=sorted(e.signature_check_failed),
                )
            else:
                r.update(k="error", e=type(result.value).__name__)
        else:
            r.update(k="ok")
            m = METHODS.get(name)
            if m in LABEL:
                r.update(self.answer(a, result))
                if m == "alloc":
                    for n, w in result[1].items():
                        self.writers[a["si"], n] = w
            elif m == "sizes":
                r["st"] = [
                    dict(n=n, sz=self.units(s), exp=0)
                    for n, s in sorted(result.items())
                ]
            elif m == "stat":
                r["st"] = [
                    dict(n=n, sz=self.units(s.size), exp=int(s.lease_expiration))
                    for n, s in sorted(result[0].items())
                ]
        return result, r

    def units(self, size):
        return size // self.unit if size % self.unit == 0 else -1

    def op_net(self, k, mode):
        if k not in self.pending:
            return
        p = self.pending[k]
        if p["call"] is None:
            raise Exception("an operation neither finished nor made a request")
        name, args, kwargs, d, m = p["call"]
        a = p["a"]
        paid = m in LABEL
        p["call"] = None
        self.current = k
        reply = dict(NOREPLY)
        if mode == "lostreq":
            reply["k"] = "lost"
            answer = Failure(Gone())
        elif mode == "cancel":
            # The user of the client gives up.
            reply["k"] = "lost"
            p["result"].cancel()
            self.record("net", k=k, mode=mode, m=m, reply=reply)
            return
        elif isinstance(mode, list):
            # ["lie", valid, required, [failed...]]
            if not paid:
                mode = "lostreq"
                reply["k"] = "lost"
                answer = Failure(Gone())
            else:
                failed = [i for i in mode[3] if i < len(args[0])]
                answer = Failure(
                    MorePassesRequired(mode[1], mode[2], frozenset(failed))
                )
                reply.update(k="mpr", v=mode[1], r=mode[2], f=failed)
                mode = "lie"
        else:
            answer, reply = self.deliver(name, args, kwargs, a)
            if mode == "lostrep":
                answer = Failure(Gone())
            elif mode == "junk":
                answer = 5 if a["m"] != "lease" or not paid else Failure(Gone())
        if isinstance(answer, Failure):
            d.errback(answer)
        else:
            d.callback(answer)
        self.record("net", k=k, mode=mode, m=m, reply=reply)

    # -- raw requests --------------------------------------------------
    def op_raw(self, kinds, a):
        """
        Somebody sends a request with all sorts of passes.
        """
        if self.absurd(a):
            return
        a = dict(a, big=self.big)
        m = a["m"]
        msg = message(m, a["si"])
        passes, described = [], []
        for kind in kinds:
            self.crafted += 1
            n = "g%dx" % (self.crafted,)
            if kind == "g":
                p, ok = make_pass(n, msg), True
            elif kind == "k":
                n = "b" + n[1:]
                p, ok = make_pass(n, msg), False
            elif kind == "o":
                other = {"alloc": "lease", "lease": "write", "write": "alloc"}[m]
                p, ok = make_pass(n, message(other, a["si"])), False
            elif kind == "O":
                other = {"alloc": "write", "lease": "alloc", "write": "lease"}[m]
                p, ok = make_pass(n, message(other, a["si"])), False
            elif kind == "s":
                other = SIS[(SIS.index(a["si"]) + 1) % len(SIS)]
                p, ok = make_pass(n, message(m, other)), False
            elif kind == "p":
                p, ok = make_pass(n, msg, n + "y"), False
            elif kind == "e":
                p, ok = make_pass(n, b""), False
            else:
                p = b" ".join((preimage(n).encode_base64(), b"A" * 86 + b"=="))
                ok = False
            passes.append(p)
            described.append(dict(n=n, ok=ok, bound=ok))
        si = si_bytes(a["si"])
        if m == "alloc":
            name, args = "allocate_buckets", (
                passes,
                si,
                secret(a["sec"]),
                secret(a["sec"], b"C"),
                set(a["shs"]),
                a["size"] * self.unit,
                self.canary,
            )
        elif m == "lease":
            name, args = "add_lease", (
                passes,
                si,
                secret(a["sec"]),
                secret(a["sec"], b"C"),
            )
        else:
            name, args = "slot_testv_and_readv_and_writev", (
                passes,
                si,
                self.secrets(a),
                {
                    n: ([(o, l, b"eq", s) for (o, l, s) in t], d, nl)
                    for n, (t, d, nl) in self.tw(a).items()
                },
                [tuple(r) for r in a["rv"]],
            )
        result, reply = self.deliver(name, args, {}, a)
        self.record("raw", a=a, ps=described, reply=reply)

    # -- shares being uploaded ------------------------------------------
    def writer(self, si, n):
        w = self.writers.get((si, n))
        if w is None or not any(
            x["si"] == si and x["n"] == n for x in self.incoming()
        ):
            return None
        return w

    def op_fill(self, si, n, offset, data):
        w = self.writer(si, n)
        if w is None or self.big:
            return
        try:
            w.remote_write(offset, bytes(data))
        except Exception:
            # Too much data or a contradiction.  Not our business.
            return
        self.record("fill", si=si, n=n, off=offset, data=list(data))

    def op_close(self, si, n):
        w = self.writer(si, n)
        if w is None:
            return
        w.remote_close()
        self.record("close", si=si, n=n)

    def op_abort(self, si, n):
        w = self.writer(si, n)
        if w is None:
            return
        w.remote_abort()
        self.record("abort", si=si, n=n)

    def op_disc(self):
        self.canary.disconnect()
        self.record("disc")

    # -- the rest --------------------------------------------------------
    def op_tick(self, dt):
        self.clock.advance(dt)
        self.record("tick")

    def op_readonly(self, flag):
        self.anon.readonly_storage = flag
        self.record("readonly", ro=flag)

    def op_restart(self):
        self.start_client()
        self.record("restart")

    def ask(self, f, *a):
        self.auto = True
        try:
            result = []
            f(*a).addBoth(result.append)
            [result] = result
        finally:
            self.auto = False
        if isinstance(result, Failure):
            result.raiseException()
        return result

    def op_stat(self, sis):
        result = self.ask(self.client.stat_shares, [si_bytes(s) for s in sis])
        self.record(
            "stat",
            sis=sis,
            res=[
                [
                    dict(
                        n=n, sz=self.units(s.size), exp=int(s.lease_expiration)
                    )
                    for n, s in sorted(r.items())
                ]
                for r in result
            ],
        )

    def op_sizes(self, si, shs):
        result = self.ask(
            lambda: LocalRemote.callRemote(
                self.remote,
                "share_sizes",
                si_bytes(si),
                None if shs is None else set(shs),
            )
        )
        self.record(
            "sizes",
            si=si,
            all=shs is None,
            shs=shs or [],
            res=[
                dict(n=n, sz=self.units(s)) for n, s in sorted(result.items())
            ],
        )

    def op_readv(self, si, shs, rv):
        if si[0] != "m":
            return
        result = self.ask(
            self.client.slot_readv, si_bytes(si), list(shs), [tuple(r) for r in rv]
        )
        self.record(
            "readv",
            si=si,
            shs=shs,
            rv=rv,
            res=[
                dict(n=n, d=[list(x) for x in r])
                for n, r in sorted(result.items())
            ],
        )

    def op_get(self, si):
        if si[0] != "i" or self.big:
            return
        result = self.ask(self.client.get_buckets, si_bytes(si))
        self.record(
            "get",
            si=si,
            res=[
                dict(n=n, d=list(b.remote_read(0, 1000)))
                for n, b in sorted(result.items())
            ],
        )

    def op_version(self):
        result = self.ask(self.client.get_version)
        v = result.get(b"http://allmydata.org/tahoe/protocols/storage/v1", {})
        self.record("version", same=result == self.anon.get_version())

    def op_advise(self, si, n):
        self.ask(
            self.client.advise_corrupt_share,
            b"immutable" if si[0] == "i" else b"mutable",
            si_bytes(si),
            n,
            b"broken",
        )
        self.record("advise")

    def op_price(self, needed, total, pv, sizes):
        n = PriceCalculator(
            shares_needed=needed, shares_total=total, pass_value=pv
        ).calculate([q * needed * pv + r for q, r in sizes])
        self.record("price", needed=needed, total=total, pv=pv, sizes=sizes, res=n)


NOREPLY = dict(
    k="none",
    v=0,
    r=0,
    f=[],
    e="",
    already=[],
    new=[],
    good=False,
    reads=[],
    st=[],
)


if __name__ == "__main__":
    drive(World)
