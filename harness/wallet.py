"""
Drive the real VoucherStore + PaymentController through schedules and record
what happens.

usage: wallet.py SCHEDULES.ndjson TRACE.ndjson

Each schedule is {"groups": G, "default": N, "keys": [approved keys], "ops": [[op, args...], ...]}.
"""
import os
import sqlite3
from base64 import b64decode, b64encode, urlsafe_b64encode
from datetime import timedelta
from zlib import crc32

from common import (
    EPOCH,
    Crash,
    Faults,
    drive,
    faulty_connect,
    hard_close,
    rmtree,
    scratch,
)
from attrs import define
from twisted.internet.defer import Deferred
from twisted.internet.task import Clock
from twisted.logger import globalLogPublisher
from zope.interface import implementer

from _zkapauthorizer.controller import (
    RETRY_INTERVAL,
    AlreadySpent,
    IRedeemer,
    PaymentController,
    RedemptionResult,
    Unpaid,
)
from _zkapauthorizer.model import (
    DoubleSpend,
    Error,
    NotEnoughTokens,
    Pass,
    Pending,
    RandomToken,
    Redeemed,
    Redeeming,
    UnblindedToken,
    Unpaid as UnpaidState,
    VoucherStore,
    open_database,
)
from _zkapauthorizer.replicate import with_replication
from _zkapauthorizer.spending import SpendingController


def vnum(v):
    return urlsafe_b64encode(v.encode("ascii").ljust(32, b"."))


def vname(number):
    try:
        if isinstance(number, str):
            number = number.encode("ascii")
        return b64decode(number, altchars=b"-_").rstrip(b".").decode("ascii")
    except Exception:
        return "?" + repr(number)


def tnum(name, kind=b"R"):
    # The prefix makes the lexical order of tokens unlike the order they were
    # made in.
    raw = name.encode("ascii")
    return b64encode(kind + b"%08x" % (crc32(raw),) + raw.ljust(87, b"."))


def tname(value):
    try:
        if isinstance(value, str):
            value = value.encode("ascii")
        return b64decode(value)[9:].rstrip(b".").decode("ascii")
    except Exception:
        return "?" + repr(value)


def unblind(random_token):
    return UnblindedToken(
        b64encode(b"U" + b64decode(random_token.token_value)[1:])
    )


def seconds(when):
    if when is None:
        return 0
    return int(round((when - EPOCH).total_seconds()))


@implementer(IRedeemer)
class Redeemer:
    def __init__(self, world):
        self.world = world

    def random_tokens_for_voucher(self, voucher, counter, count):
        w = self.world
        v = vname(voucher.number)
        w.gen_count += 1
        names = [f"{v}.{counter}.a{w.gen_count}.{i}" for i in range(count)]
        return [RandomToken(tnum(n)) for n in names]

    def redeemWithCounter(self, voucher, counter, random_tokens):
        w = self.world
        v = vname(voucher.number)
        w.subs.append(
            dict(
                v=v,
                g=counter,
                toks=[tname(t.token_value) for t in random_tokens],
                dur=[r["t"] for r in w.durable_random(v, counter)],
            )
        )
        d = Deferred()
        w.outstanding.setdefault(v, []).append((d, list(random_tokens)))
        return d

    def tokens_to_passes(self, message, unblinded_tokens):
        return [
            Pass(t.unblinded_token, t.unblinded_token) for t in unblinded_tokens
        ]


class World:
    def __init__(self, params, out):
        self.dir = scratch("vp-wallet-")
        self.path = os.path.join(self.dir, "db.sqlite3")
        self.params = params
        self.out = out
        self.t = 0
        self.gen_count = 0
        self.replicate = bool(params.get("replicate"))
        self.conn = None
        self.reader = None
        self.held = []
        out.event(
            dict(
                op="init",
                groups=params["groups"],
                default=params["default"],
                keys=params["keys"],
            )
        )
        self.subs = []

    # -- lifecycle ---------------------------------------------------
    def now(self):
        return EPOCH + timedelta(seconds=self.t)

    def start(self, fault=None):
        self.faults = Faults()
        self.outstanding = {}
        self.held = []
        self.clock = Clock()
        self.controller = None
        if fault is not None:
            self.faults.arm(*fault)
        self.conn = open_database(faulty_connect(self.path, self.faults))
        self.store = VoucherStore.from_connection(
            1000, self.now, with_replication(self.conn, self.replicate)
        )
        self.redeemer = Redeemer(self)
        self.spending = SpendingController.for_store(
            self.redeemer.tokens_to_passes, self.store
        )
        self.controller = PaymentController(
            self.clock,
            self.store,
            self.redeemer,
            default_token_count=self.params["default"],
            allowed_public_keys=set(self.params["keys"]),
            num_redemption_groups=self.params["groups"],
        )

    def stop(self):
        # Everything the process knew is gone.
        self.faults.dead = True
        if self.conn is not None:
            hard_close(self.conn)
            self.conn = None
        self.controller = None
        self.store = None
        self.graveyard = getattr(self, "graveyard", [])
        self.graveyard.append(self.outstanding)
        self.outstanding = {}

    def close(self):
        self.stop()
        if self.reader is not None:
            self.reader.close()
        rmtree(self.dir)

    # -- observation -------------------------------------------------
    def read(self, sql):
        if self.reader is None:
            self.reader = sqlite3.connect(self.path)
        cur = self.reader.cursor()
        cur.execute(sql)
        rows = cur.fetchall()
        cur.close()
        return rows

    def durable_random(self, v=None, g=None):
        return [
            dict(v=vname(a), g=b, t=tname(c))
            for a, b, c in self.read("SELECT voucher, counter, text FROM tokens")
            if (v is None or vname(a) == v) and (g is None or b == g)
        ]

    def observe_db(self):
        groups = {
            rid: dict(v=vname(v), key=str(k), sp=bool(sp))
            for rid, v, sp, k in self.read(
                "SELECT [rowid], [voucher], [spendable], [public-key] FROM [redemption-groups]"
            )
        }
        none = dict(v="?", key="?", sp=False)
        return dict(
            v=[
                dict(
                    v=vname(n),
                    st=s,
                    exp=e,
                    ctr=c,
                    cnt=tc or 0,
                    seq=sq or 0,
                )
                for n, s, e, c, tc, sq in self.read(
                    "SELECT [number], [state], [expected-tokens], [counter], [token-count], [sequestered-count] FROM [vouchers]"
                )
            ],
            rnd=self.durable_random(),
            tok=[
                dict(t=tname(t), **groups.get(g, none))
                for t, g in self.read(
                    "SELECT [token], [redemption-group] FROM [unblinded-tokens]"
                )
            ],
            inv=[
                dict(t=tname(t), why=str(r))
                for t, r in self.read(
                    "SELECT [token], [reason] FROM [invalid-unblinded-tokens]"
                )
            ],
        )

    def observe_status(self):
        out = []
        for voucher in self.store.list():
            vo = self.controller.get_voucher(voucher.number)
            s = vo.state
            d = dict(
                v=vname(vo.number),
                k="?",
                c=0,
                at=0,
                n=0,
                d="",
                cre=seconds(vo.created),
                exp=vo.expected_tokens,
            )
            if isinstance(s, Pending):
                d.update(k="pending", c=s.counter)
            elif isinstance(s, Redeeming):
                d.update(k="redeeming", c=s.counter, at=seconds(s.started))
            elif isinstance(s, Redeemed):
                d.update(k="redeemed", at=seconds(s.finished), n=s.token_count)
            elif isinstance(s, DoubleSpend):
                d.update(k="double-spend", at=seconds(s.finished))
            elif isinstance(s, UnpaidState):
                d.update(k="unpaid", at=seconds(s.finished))
            elif isinstance(s, Error):
                d.update(k="error", at=seconds(s.finished), d=str(s.details))
            out.append(d)
        return out

    # -- events ------------------------------------------------------
    def record(self, op, out, fault="none", res=(), alive=True, **args):
        e = dict(
            op=op,
            t=self.t,
            out=out,
            fault=fault,
            res=list(res),
            subs=self.subs,
            db=self.observe_db(),
            stat=[],
            avail=0,
            alive=alive,
        )
        e.update(args)
        if alive:
            try:
                e["stat"] = self.observe_status()
                e["avail"] = self.store.count_unblinded_tokens()
            except Exception as exc:
                e["out"] = "observe:" + type(exc).__name__
        self.subs = []
        self.out.event(e)

    def boot(self, fault=None):
        """
        Start, again and again if it crashes.
        """
        out = "ok"
        try:
            self.start(fault)
        except (Crash, Exception) as e:
            if not self.faults.dead:
                out = "raise:" + type(e).__name__
        if self.faults.dead:
            self.stop()
            self.record("boot", "crash", fault="crash", alive=False)
            return self.boot()
        self.faults.disarm()
        self.record("boot", out, alive=self.controller is not None)

    def run(self, ops):
        self.t += 1
        self.boot()
        for op in ops:
            self.do(op)
            if self.controller is None:
                return
        self.epilogue()

    def do(self, op, fault=None):
        self.t += 1
        name = op[0]
        if name == "fault":
            # ["fault", kind, n, op...]
            return self.do(op[3:], (op[1], op[2]))
        if name == "restart":
            self.stop()
            self.record("stop", "ok", alive=False)
            self.t += 1
            return self.boot(fault)
        args, action = getattr(self, "op_" + name)(*op[1:])
        if action is None:
            return
        if fault is not None:
            self.faults.arm(*fault)
        res = ()
        try:
            res = action() or ()
            out = "ok"
        except NotEnoughTokens:
            out = "NotEnoughTokens"
        except (Crash, Exception) as e:
            out = "raise:" + type(e).__name__
        if self.faults.dead:
            self.stop()
            self.record(name, "crash", fault="crash", alive=False, **args)
            self.t += 1
            return self.boot()
        fired = self.faults.kind if self.faults.fired else "none"
        self.faults.disarm()
        self.faults.fired = False
        if name == "get" and out == "ok":
            self.held.extend(res)
            res = [tname(x.unblinded_token) for x in res]
        self.record(name, out, fault=fired, res=res, **args)

    # -- operations: each returns (event arguments, thunk) --------------
    def op_put(self, v, n=None):
        def go():
            result = []
            d = Deferred.fromCoroutine(self.controller.redeem(vnum(v), n))
            d.addErrback(result.append)
            if result:
                result[0].raiseException()

        return dict(v=v, n=n if n is not None else self.params["default"]), go

    def op_ans(self, v, kind, key=""):
        pending = self.outstanding.get(v)
        if not pending:
            return {}, None
        d, tokens = pending.pop(0)

        def go():
            if kind == "ok":
                d.callback(RedemptionResult([unblind(t) for t in tokens], key))
            elif kind == "unpaid":
                d.errback(Unpaid(vnum(v)))
            elif kind == "spent":
                d.errback(AlreadySpent(vnum(v)))
            else:
                d.errback(Exception("e%d" % (self.t,)))
            # The coroutine's own failure, if any, is reported elsewhere.

        return dict(v=v, kind=kind, key=key, d="e%d" % (self.t,)), go

    def op_tick(self):
        return {}, lambda: self.clock.advance(RETRY_INTERVAL.total_seconds())

    def op_get(self, n):
        if n == -1:
            n = self.store.count_unblinded_tokens()
        return dict(n=n), lambda: self.store.get_unblinded_tokens(n)

    def _take(self, k, from_end):
        k = min(k, len(self.held))
        if k == 0:
            return []
        if from_end:
            taken, self.held = self.held[-k:], self.held[:-k]
        else:
            taken, self.held = self.held[:k], self.held[k:]
        return taken

    def _dispose(self, f, k, from_end):
        taken = self._take(k, from_end)
        if not taken:
            return {}, None

        def go():
            try:
                f(taken)
            except Exception:
                self.held.extend(taken)
                raise

        return dict(toks=[tname(t.unblinded_token) for t in taken]), go

    def op_spend(self, k, from_end=False):
        return self._dispose(self.spending.mark_spent, k, from_end)

    def op_inval(self, k, from_end=False):
        a, go = self._dispose(
            lambda toks: self.spending.mark_invalid("why", toks), k, from_end
        )
        return a, go

    def op_reset(self, k, from_end=False):
        return self._dispose(self.spending.reset, k, from_end)

    # -- the end of every schedule --------------------------------------
    def epilogue(self):
        """
        The issuer becomes kind: everything unresolved must get redeemed, and
        what is left of the tokens must be exactly what is handed out.
        """
        mode = self.params.get("end", 0)
        if mode == 1:
            self.do(["restart"])
        if mode != 3:
            for _ in range(6 * self.params["groups"]):
                waiting = sorted(v for v, p in self.outstanding.items() if p)
                if waiting:
                    for v in waiting:
                        self.do(["ans", v, "ok", self.params["keys"][0]])
                else:
                    unresolved = [
                        s
                        for s in self.observe_status()
                        if s["k"] not in ("redeemed", "double-spend")
                    ]
                    if not unresolved:
                        break
                    self.do(["tick"])
                    if not any(self.outstanding.values()):
                        # Only a local database failure excuses this; the
                        # specification knows.
                        self.do(["restart"])
            self.t += 1
            self.record("end", "ok")
        self.do(["get", -1])
        self.do(["restart"])
        if self.controller is not None:
            self.do(["get", -1])


if __name__ == "__main__":
    drive(World)
