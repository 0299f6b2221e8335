"""
Drive the real redeemer, controller and store against an issuer at the other
end of a byte string, which signs with real keys and answers whatever the
schedule says.

usage: issuer.py SCHEDULES.ndjson TRACE.ndjson
"""
import os
import sqlite3
from base64 import b64decode, b64encode
from datetime import datetime, timedelta
from functools import partial
from json import dumps

from common import EPOCH, Faults, drive, faulty_connect, hard_close, rmtree, scratch
from node import Reactor, loads, make_config
from wallet import seconds, vname, vnum

import challenge_bypass_ristretto as cbr
from challenge_bypass_ristretto import (
    BatchDLEQProof,
    BlindedToken,
    PublicKey,
    random_signing_key,
)
from twisted.internet.address import IPv4Address
from twisted.internet.defer import Deferred
from twisted.internet.error import ConnectionDone, ConnectionLost, ConnectionRefusedError
from twisted.internet.interfaces import (
    IHostResolution,
    IReactorPluggableNameResolver,
    IReactorTCP,
    IReactorTime,
)
from twisted.internet import task
from twisted.internet.testing import StringTransport
from twisted.python.failure import Failure
from zope.interface import implementer

from _zkapauthorizer._plugin import ZKAPAuthorizer
from _zkapauthorizer.controller import RETRY_INTERVAL, PaymentController, RistrettoRedeemer
from _zkapauthorizer.model import (
    DoubleSpend,
    Error,
    NotEnoughTokens,
    Pending,
    Redeemed,
    Redeeming,
    Unpaid,
    VoucherStore,
    open_database,
)
from _zkapauthorizer.replicate import with_replication
from _zkapauthorizer.spending import SpendingController

NAME = "privatestorageio-zkapauthz-v2"
ROOT = "http://127.0.0.1:8080/an/issuer"
CONFIG = f"""
[node]
nickname = test
web.port = tcp:1:interface=127.0.0.1

[client]
storage.plugins = {NAME}

[storageclient.plugins.{NAME}]
redeemer = ristretto
ristretto-issuer-root-url = {ROOT}
allowed-public-keys = K
"""
ANNOUNCED = {
    "same": ROOT,
    "host": "http://127.0.0.2:8080/an/issuer",
    "scheme": "https://127.0.0.1:8080/an/issuer",
    "port": "http://127.0.0.1:8081/an/issuer",
    "path": "http://127.0.0.1:8080/another/issuer",
    "longer": ROOT + "x",
    "empty": "",
    "null": None,
}

KEYS = {k: random_signing_key() for k in ("K1", "K2", "K3")}
PUBLIC = {k: PublicKey.from_signing_key(x) for k, x in KEYS.items()}
PUBLIC64 = {k: x.encode_base64().decode("ascii") for k, x in PUBLIC.items()}
KEYNAME = {x: k for k, x in PUBLIC64.items()}


def other(k):
    return "K2" if k == "K1" else "K1"


def text(x):
    return x.encode_base64().decode("ascii")


class Soon:
    """
    What would be done by the reactor of the process in no time.
    """

    def __init__(self):
        self.calls = []

    def __call__(self, f):
        self.calls.append(f)
        return self

    def cancel(self):
        pass

    def run(self):
        while self.calls:
            self.calls.pop(0)()


# Bodies of requests are written with the help of this.
SOON = Soon()
task._theCooperator = task.Cooperator(scheduler=SOON)


class Transport(StringTransport):
    def setTcpNoDelay(self, x):
        pass

    def setTcpKeepAlive(self, x):
        pass

    def abortConnection(self):
        self.disconnecting = True

    def getHandle(self):
        return None


class Resolver:
    def resolveHostName(self, receiver, hostName, portNumber=0, addressTypes=None, transportSemantics="TCP"):
        @implementer(IHostResolution)
        class Resolution:
            name = hostName

            def cancel(self):
                pass

        r = Resolution()
        receiver.resolutionBegan(r)
        receiver.addressResolved(IPv4Address("TCP", "127.0.0.1", portNumber))
        receiver.resolutionComplete()
        return r


@implementer(IReactorTCP, IReactorTime, IReactorPluggableNameResolver)
class NetReactor(Reactor):
    nameResolver = Resolver()

    def __init__(self):
        Reactor.__init__(self)
        self.connections = []

    def connectTCP(self, host, port, factory, timeout=30, bindAddress=None):
        c = Incoming(host, port, factory)
        self.connections.append(c)
        return c

    def installNameResolver(self, r):
        raise NotImplementedError()

    def listenTCP(self, *a, **kw):
        raise NotImplementedError()


class Incoming:
    """
    A connection to the issuer.  It is accepted at once, so that the request
    can be seen, unless it is looked at first.
    """

    def __init__(self, host, port, factory):
        self.where = (host, port)
        self.factory = factory
        self.t = None
        self.lost = False
        factory.doStart()
        factory.startedConnecting(self)

    # IConnector
    def stopConnecting(self):
        pass

    disconnect = stopConnecting

    def getDestination(self):
        return IPv4Address("TCP", *self.where)

    def refuse(self):
        self.lost = True
        self.factory.clientConnectionFailed(self, Failure(ConnectionRefusedError()))

    def accept(self):
        if self.t is None and not self.lost:
            self.t = Transport(peerAddress=self.getDestination())
            p = self.factory.buildProtocol(self.getDestination())
            self.t.protocol = p
            p.makeConnection(self.t)
            SOON.run()

    def request(self):
        """
        :return: What was sent, or None if it makes no sense.
        """
        head, sep, body = self.t.value().partition(b"\r\n\r\n")
        lines = head.split(b"\r\n")
        headers = {}
        for h in lines[1:]:
            k, _, v = h.partition(b":")
            headers[k.strip().lower()] = v.strip()
        return dict(line=lines[0], headers=headers, body=loads(body))

    def send(self, data):
        if not self.lost:
            self.t.protocol.dataReceived(data)

    def lose(self, clean=True):
        if not self.lost:
            self.lost = True
            self.t.protocol.connectionLost(Failure(ConnectionDone() if clean else ConnectionLost()))
            self.factory.clientConnectionLost(self, Failure(ConnectionDone()))


WRONG = {"null": None, "number": 7, "garbage": "!!!", "empty": ""}


def flip(s, how):
    return {"short": s[:-4], "long": s + "AAAA", "list": [s]}[how]


def elsewhere(n):
    return [cbr.RandomToken.create().blind() for _ in range(n)]


def sign(tokens, k):
    return [KEYS[k].sign(t) for t in tokens]


def signatures(how, batch, by):
    """
    :return: The signatures, and how they appear in the answer.
    """
    g = sign(batch, by)
    n = len(batch)
    if how == "fewer":
        s = g[:-1]
    elif how == "more":
        s = g + sign(elsewhere(1), by)
    elif how == "none":
        s = []
    elif how == "swapped":
        s = g[1:2] + g[:1] + g[2:]
    elif how == "doubled":
        s = g[:-1] + g[:1]
    elif how == "otherkey":
        s = sign(batch, other(by))
    elif how == "onekey":
        s = g[:-1] + sign(batch[-1:], other(by))
    elif how == "elsewhere":
        s = sign(elsewhere(n), by)
    elif how == "oneelse":
        s = g[:-1] + sign(elsewhere(1), by)
    else:
        s = g
    m = [text(x) for x in s]
    if how == "onenull":
        m = m[:-1] + [None]
    elif how == "onegarbage":
        m = m[:-1] + ["!" + m[-1][1:]]
    elif how == "oneshort":
        m = m[:-1] + [m[-1][:-4]]
    elif how == "object":
        m = {}
    elif how == "nested":
        m = [m]
    elif how in WRONG:
        m = WRONG[how]
    return s, m


def proof(how, batch, s, by):
    if how in WRONG:
        return WRONG[how]
    k = other(by) if how == "otherkey" else by
    b = batch
    if how == "elsewhere":
        b = elsewhere(len(batch))
        s = sign(b, by)
    elif how == "swapped":
        b = batch[1:2] + batch[:1] + batch[2:]
    # A proof can be made only of equally many of both.
    n = min(len(b), len(s))
    if n == 0:
        b, s = batch, sign(batch, by)
    else:
        b, s = b[:n], s[:n]
    p = text(BatchDLEQProof.create(KEYS[k], b, s))
    if how in ("short", "long", "list"):
        return flip(p, how)
    return p


def key(how, by):
    if how in WRONG:
        return WRONG[how]
    if how in ("short", "long", "list"):
        return flip(PUBLIC64[by], how)
    return PUBLIC64[{"by": by, "other": other(by), "third": "K3"}[how]]


SUCCESS = {
    "true": True,
    "false": False,
    "null": None,
    "zero": 0,
    "nothing": "",
    "one": 1,
    "yes": "yes",
    "no": "false",
}
REASON = {
    "double-spend": "double-spend",
    "unpaid": "unpaid",
    "other": "the weather",
    "null": None,
    "list": ["unpaid"],
    "case": "Unpaid",
    "dict": {"unpaid": "double-spend"},
    "prefix": "double-spending",
    "zero": 0,
}


def body_of(a, batch):
    m = {}
    if a["success"] != "missing":
        m["success"] = SUCCESS[a["success"]]
    if a["reason"] != "missing":
        m["reason"] = REASON[a["reason"]]
    if a["success"] in ("true", "one", "yes", "no") or a["code"] == 200:
        s, x = signatures(a["sigs"], batch, a["by"])
        if a["sigs"] != "missing":
            m["signatures"] = x
        if a["proof"] != "missing":
            m["proof"] = proof(a["proof"], batch, s, a["by"])
        if a["key"] != "missing":
            m["public-key"] = key(a["key"], a["by"])
    b = a["body"]
    good = dumps(m).encode("utf-8")
    return {
        "json": good,
        "spaces": b" \r\n\t" + dumps(m, indent=3).encode("utf-8") + b"\n\n",
        "extra": dumps(dict(m, extra={"success": False, "reason": "unpaid"})).encode("utf-8"),
        "text": b"success",
        "html": b"<html><body>" + good + b"</body></html>",
        "empty": b"",
        "utf8": b'{"\xff": 1, ' + good[1:],
        "half": good[: len(good) // 2],
        "list": b"[" + good + b"]",
        "null": b"null",
        "number": b"1",
        "string": dumps(good.decode("ascii")).encode("ascii"),
        "twice": good + good,
    }[b]


def respond(conn, how, code, body):
    """
    Let the client receive an answer, or some of it.
    """
    line = b"HTTP/1.1 %d Whatever\r\nContent-Type: application/json\r\n" % (code,)
    whole = line + b"Content-Length: %d\r\n\r\n" % (len(body),) + body
    chunks = b"".join(b"%x\r\n%s\r\n" % (len(body[i : i + 50]), body[i : i + 50]) for i in range(0, len(body), 50))
    if how == "ok":
        conn.send(whole)
        conn.lose()
    elif how == "pieces":
        for i in range(0, len(whole), 17):
            conn.send(whole[i : i + 17])
        conn.lose()
    elif how == "chunked":
        conn.send(line + b"Transfer-Encoding: chunked\r\n\r\n" + chunks + b"0\r\n\r\n")
        conn.lose()
    elif how == "close":
        conn.send(line + b"Connection: close\r\n\r\n" + body)
        conn.lose()
    elif how == "reset":
        conn.lose(False)
    elif how == "truncated":
        # The rest is whitespace that never arrives.
        conn.send(line + b"Content-Length: %d\r\n\r\n" % (len(body) + 2,) + body)
        conn.lose()
    elif how == "truncchunk":
        conn.send(line + b"Transfer-Encoding: chunked\r\n\r\n" + chunks)
        conn.lose()
    elif how == "garbage":
        conn.send(b"SSH-2.0-OpenSSH\r\n" + body + b"\r\n\r\n")
        conn.lose()


STATES = {
    Pending: "pending",
    Redeeming: "redeeming",
    Redeemed: "redeemed",
    DoubleSpend: "double-spend",
    Unpaid: "unpaid",
    Error: "error",
}


class World:
    def __init__(self, params, out):
        self.dir = scratch("vp-issuer-")
        self.path = os.path.join(self.dir, "db.sqlite3")
        self.c = params["c"]
        self.out = out
        self.t = 0
        self.conn = None
        self.reader = None
        self.old = []
        self.batches = {}  # (voucher, group) -> tokens first submitted for it
        self.names = {}  # preimage -> (voucher, group, position)
        self.plugin = None
        self.config = make_config(os.path.join(self.dir, "node"), CONFIG)
        out.event(dict(op="init", c=self.c))

    def now(self):
        return EPOCH + timedelta(seconds=self.t)

    def start(self):
        self.reactor = NetReactor()
        self.seen = 0
        self.open = {}
        self.conn = open_database(faulty_connect(self.path, Faults()))
        self.store = VoucherStore.from_connection(1, self.now, with_replication(self.conn, False))
        self.redeemer = RistrettoRedeemer.make(
            f"storageclient.plugins.{NAME}", self.config, None, self.reactor
        )
        self.controller = PaymentController(
            self.reactor,
            self.store,
            self.redeemer,
            self.c["default"],
            {PUBLIC64[k] for k in self.c["keys"]},
            self.c["groups"],
        )
        self.spending = SpendingController.for_store(
            tokens_to_passes=self.redeemer.tokens_to_passes, store=self.store
        )

    def stop(self):
        if self.conn is not None:
            hard_close(self.conn)
            self.conn = None
            # Nothing that is left of the process may do anything any more.
            self.old.append((self.reactor, self.controller, self.open))

    def close(self):
        self.stop()
        if self.reader is not None:
            self.reader.close()
        rmtree(self.dir)

    # -- observation -------------------------------------------------
    def read(self, sql):
        if self.reader is None:
            self.reader = sqlite3.connect(self.path)
        cur = self.reader.cursor()
        cur.execute(sql)
        rows = cur.fetchall()
        cur.close()
        return rows

    def stored(self, v, g):
        return [
            cbr.RandomToken.decode_base64(x.encode("ascii"))
            for n, c, x in self.read("SELECT [voucher], [counter], [text] FROM [tokens] ORDER BY [rowid]")
            if (vname(n), c) == (v, g)
        ]

    def requests(self):
        """
        What was asked of the issuer meanwhile.
        """
        r = []
        while self.seen < len(self.reactor.connections):
            conn = self.reactor.connections[self.seen]
            self.seen += 1
            conn.accept()
            r.append(self.request(conn))
        return r

    def request(self, conn):
        m = conn.request()
        b = m["body"]
        good = (
            m["line"] == b"POST /an/issuer/v1/redeem HTTP/1.1"
            and m["headers"].get(b"content-type") == b"application/json"
            and conn.where == ("127.0.0.1", 8080)
            and isinstance(b, dict)
            and set(b) == {"redeemVoucher", "redeemCounter", "redeemTokens"}
        )
        if not good:
            return dict(v="?", g=0, n=0, ok=False, kept=False, same=False)
        v, g, sent = vname(b["redeemVoucher"]), b["redeemCounter"], b["redeemTokens"]
        kept = self.stored(v, g)
        blinded = [text(x.blind()) for x in kept]
        first = self.batches.setdefault((v, g), sent)
        if first is sent:
            for x in kept:
                i = sent.index(text(x.blind())) + 1 if text(x.blind()) in sent else 0
                self.names[b64decode(x.encode_base64())[:64]] = (v, g, i)
        self.open[v] = (conn, [BlindedToken.decode_base64(x.encode("ascii")) for x in sent])
        return dict(
            v=v,
            g=g,
            n=len(sent),
            ok=len(set(sent)) == len(sent),
            # What is submitted is what was remembered.
            kept=sorted(blinded) == sorted(sent),
            same=first == sent,
        )

    def observe(self):
        def t(x):
            return seconds(datetime.fromisoformat(x)) if x else 0

        groups = {
            i: (s, k, v)
            for i, s, k, v in self.read(
                "SELECT [rowid], [spendable], [public-key], [voucher] FROM [redemption-groups]"
            )
        }
        signed, tok, held = [], 0, 0
        for x, g in self.read("SELECT [token], [redemption-group] FROM [unblinded-tokens]"):
            spendable, k, v = groups.get(g, (False, "?", "?"))
            if spendable:
                tok += 1
            else:
                held += 1
            signed.append(self.identify(x, k, v))
        return dict(
            v=[
                dict(v=vname(n), st=s, exp=e, ctr=c, cnt=tc or 0, fin=0 if s == "pending" else t(f), cre=t(cr))
                for n, s, e, c, tc, f, cr in self.read(
                    "SELECT [number], [state], [expected-tokens], [counter], [token-count], [finished], [created] FROM [vouchers]"
                )
            ],
            tok=tok,
            held=held,
            signed=signed,
            inv=self.read("SELECT COUNT(*) FROM [invalid-unblinded-tokens]")[0][0],
        )

    def identify(self, x, k, v):
        """
        Which token this is, and with which key it is signed.
        """
        k = KEYNAME.get(k, "?")
        u = cbr.UnblindedToken.decode_base64(x.encode("ascii"))
        p = u.preimage()
        name = list(self.names.get(b64decode(p.encode_base64()), ("?", 0, 0)))
        if k == "?" or KEYS[k].rederive_unblinded_token(p).encode_base64() != x.encode("ascii"):
            k = "?"
        if name[0] != vname(v):
            name = ["?", 0, 0]
        return [name, k]

    def statuses(self):
        r = []
        for x in self.store.list():
            x = self.controller.incorporate_transient_state(x)
            s = x.state
            r.append(
                dict(
                    v=vname(x.number),
                    k=STATES[type(s)],
                    c=getattr(s, "counter", 0),
                    at=seconds(getattr(s, "started", None) or getattr(s, "finished", None)),
                    n=getattr(s, "token_count", 0) or 0,
                    cre=seconds(x.created),
                    exp=x.expected_tokens,
                )
            )
        return r

    def record(self, op, **args):
        e = dict(op=op, t=self.t, v="", subs=self.requests())
        e["db"] = self.observe()
        e["st"] = self.statuses()
        e.update(args)
        self.out.event(e)

    # -- operations --------------------------------------------------
    def run(self, ops):
        self.start()
        self.record("boot")
        for op in ops:
            self.t += 1
            r = getattr(self, "op_" + op[0])(*op[1:])
            if r is None:
                self.t -= 1
            else:
                self.record(op[0], **r)

    def op_put(self, v):
        Deferred.fromCoroutine(self.controller.redeem(vnum(v)))
        return dict(v=v)

    def op_tick(self):
        self.reactor.advance(RETRY_INTERVAL.total_seconds())
        return {}

    def op_restart(self):
        self.stop()
        self.start()
        return {}

    def op_answer(self, v, a):
        if v not in self.open:
            return None
        conn, batch = self.open.pop(v)
        if a["conn"] == "refused":
            # It is too late to refuse it.
            conn.lose(False)
        else:
            respond(conn, a["conn"], a["code"], body_of(a, batch))
        # Whatever the client does about it.
        SOON.run()
        self.reactor.advance(0)
        return dict(v=v, a=a)

    def op_passes(self, n):
        """
        Make passes and look whether a server would accept them.
        """
        message = b"message %d" % (self.t,)
        try:
            group = self.spending.get(message, n)
        except NotEnoughTokens:
            return dict(n=n, got=-1, valid=0, other=0, distinct=0)
        passes = group.passes
        approved = [KEYS[k] for k in self.c["keys"]]

        def verifies(p, m):
            preimage = cbr.TokenPreimage.decode_base64(p.preimage)
            sig = cbr.VerificationSignature.decode_base64(p.signature)
            return any(
                not k.rederive_unblinded_token(preimage)
                .derive_verification_key_sha512()
                .invalid_sha512(sig, m)
                for k in approved
            )

        r = dict(
            n=n,
            got=len(passes),
            valid=sum(verifies(p, message) for p in passes),
            other=sum(verifies(p, message + b"x") for p in passes),
            distinct=len({p.preimage for p in passes}),
        )
        group.reset()
        return r

    def op_announce(self, kind):
        """
        A storage server appears, which says whom it trusts.
        """
        if self.plugin is None:
            self.plugin = ZKAPAuthorizer(
                NAME,
                Reactor(),
                lambda reactor, config: None,
                lambda *a, **kw: sqlite3.connect(":memory:"),
            )
        announcement = {} if kind == "missing" else {"ristretto-issuer-root-url": ANNOUNCED[kind]}
        try:
            self.plugin.get_storage_client(self.config, announcement, lambda: None)
        except Exception:
            return dict(kind=kind, made=False)
        return dict(kind=kind, made=True)


if __name__ == "__main__":
    drive(World)
