"""
Drive the management interface of a node - the real resource tree behind the
real authorization in front of the real wallet - over HTTP.

usage: webapi.py SCHEDULES.ndjson TRACE.ndjson
"""
import os
import sqlite3
from datetime import datetime, timedelta
from json import dumps

from common import EPOCH, Faults, drive, faulty_connect, hard_close, rmtree, scratch
from node import HTTP, TOKEN, Reactor, WebSocket, loads, make_config, site_for
from wallet import seconds, tname, tnum, unblind, vname, vnum

from tahoe_capabilities import readonly_directory_from_string
from twisted.internet.defer import Deferred
from zope.interface import implementer

from _zkapauthorizer.controller import (
    RETRY_INTERVAL,
    AlreadySpent,
    IRedeemer,
    RedemptionResult,
    Unpaid,
)
from _zkapauthorizer.model import NotEnoughTokens, RandomToken, VoucherStore, open_database
from _zkapauthorizer.replicate import with_replication
from _zkapauthorizer.resource import from_configuration

CONFIG = """
[node]
nickname = test
web.port = tcp:1:interface=127.0.0.1

[client]
shares.needed = {needed}
shares.happy = 1
shares.total = {shares}
storage.plugins = privatestorageio-zkapauthz-v2

[storageclient.plugins.privatestorageio-zkapauthz-v2]
redeemer = non
allowed-public-keys = {keys}
default-token-count = {default}
pass-value = {pass_}
lease.min-time-remaining = {left}
"""
LEASE = 31 * 24 * 60 * 60
MILLIARD = 10**9
CAP = "URI:DIR2-RO:" + "a" * 26 + ":" + "a" * 52
BIG = 200000


def token(n):
    return TOKEN + b"%d" % (n,)


def authorization(how, now, old):
    """
    :return: Request headers, and what to put into the query.
    """
    A = b"Authorization"
    good = b"tahoe-lafs " + now
    return {
        "none": ([], b""),
        "empty": ([(A, b"tahoe-lafs ")], b""),
        "scheme": ([(A, b"tahoe " + now)], b""),
        "bearer": ([(A, b"Bearer " + now)], b""),
        "basic": ([(A, b"Basic " + now)], b""),
        "schemeonly": ([(A, b"tahoe-lafs")], b""),
        "longer": ([(A, good + b"x")], b""),
        "prefixed": ([(A, b"tahoe-lafs x" + now)], b""),
        "shorter": ([(A, good[:-1])], b""),
        "case": ([(A, b"tahoe-lafs " + now.swapcase())], b""),
        "twospaces": ([(A, b"tahoe-lafs  " + now)], b""),
        "quoted": ([(A, b'tahoe-lafs "' + now + b'"')], b""),
        "nospace": ([(A, b"tahoe-lafs" + now)], b""),
        "query": ([], b"?token=" + now + b"&Authorization=tahoe-lafs%20" + now),
        "proxyheader": ([(b"Proxy-Authorization", good)], b""),
        "otherheader": ([(b"X-Authorization", good), (b"Cookie", b"token=" + now)], b""),
        "base64": ([(A, b"tahoe-lafs dGhlLXJpZ2h0LXRva2VuLUF6MDkx")], b""),
        "extra": ([(A, good + b" x")], b""),
        "comma": ([(A, b"Basic x, " + good)], b""),
        "old": ([(A, b"tahoe-lafs " + old)], b""),
    }[how]


def body_of_put(kind, v, scratch_v):
    """
    Bodies which are not a voucher.  If a voucher is made of them all the same
    it is likely to be a known one.
    """
    good = b'{"voucher": "%s"}' % (v,)
    s = lambda x: dumps({"voucher": x}).encode("utf-8")
    t = v.decode("ascii")
    return {
        "notjson": b"voucher=" + v,
        "utf8": b'{"voucher": "\xff\xfe%s"}' % (v[2:],),
        "list": b"[" + good + b"]",
        "string": b'"%s"' % (v,),
        "number": b"5",
        "null": b"null",
        "nobody": b"",
        "nokey": b"{}",
        "extrakey": b'{"voucher": "%s", "x": 1}' % (v,),
        "wrongkey": b'{"Voucher": "%s"}' % (v,),
        "int": b'{"voucher": 5}',
        "vnull": b'{"voucher": null}',
        "vlist": b'{"voucher": ["%s"]}' % (v,),
        "vbool": b'{"voucher": true}',
        "vdict": b'{"voucher": {"voucher": "%s"}}' % (v,),
        "short": s(t[:-1]),
        "long": s(t + "A"),
        "padding": s(t[:-3] + "==="),
        "nonascii": s("\xe9" + t[1:]),
        "spaces": s(t[:-1] + " "),
        "newline": s(t[:-1] + "\n"),
        "slash": s("/" + t[1:]),
        "truncated": good[:-5],
        "nested": b"[" * 100000,
    }[kind]


PRICES = {
    "p-notjson": b"version=1&sizes=1",
    "p-list": b'[{"version": 1, "sizes": [1]}]',
    "p-negative": b'{"version": 1, "sizes": [1, -1]}',
    "p-float": b'{"version": 1, "sizes": [1.5]}',
    "p-string": b'{"version": 1, "sizes": ["1"]}',
    "p-null": b'{"version": 1, "sizes": [null]}',
    "p-nosizes": b'{"version": 1}',
    "p-noversion": b'{"sizes": [1]}',
    "p-version0": b'{"version": 0, "sizes": [1]}',
    "p-version2": b'{"version": 2, "sizes": [1]}',
    "p-versionstr": b'{"version": "1", "sizes": [1]}',
    "p-nolist": b'{"version": 1, "sizes": {"1": 1}}',
    "p-number": b'{"version": 1, "sizes": 1}',
    "p-utf8": b'{"version": 1, "sizes": [1], "\xff": 1}',
    "p-type": b'{"version": 1, "sizes": [1]}',
    "p-notype": b'{"version": 1, "sizes": [1]}',
}
JSON_TYPE = (b"Content-Type", b"application/json")

FIELDS = {
    "pending": {"name", "counter"},
    "redeeming": {"name", "started", "counter"},
    "redeemed": {"name", "finished", "token-count"},
    "double-spend": {"name", "finished"},
    "unpaid": {"name", "finished"},
    "error": {"name", "finished", "details"},
}


class Malformed(Exception):
    pass


def when(x):
    if not isinstance(x, str):
        raise Malformed("time")
    d = datetime.fromisoformat(x)
    if d.tzinfo is None:
        raise Malformed("timezone")
    return seconds(d)


def whole(x):
    if isinstance(x, bool) or not isinstance(x, int):
        raise Malformed("number")
    return x


def voucher(x):
    if set(x) != {"version", "number", "expected-tokens", "created", "state"}:
        raise Malformed("voucher")
    if x["version"] != 1:
        raise Malformed("version")
    s = x["state"]
    k = s["name"]
    if set(s) != FIELDS[k]:
        raise Malformed("state")
    r = dict(v=vname(x["number"]), k=k, c=0, at=0, n=0, d="", cre=when(x["created"]))
    r["exp"] = whole(x["expected-tokens"])
    if "counter" in s:
        r["c"] = whole(s["counter"])
    if "token-count" in s:
        r["n"] = whole(s["token-count"])
    if "details" in s:
        r["d"] = str(s["details"])
    for t in ("started", "finished"):
        if t in s:
            r["at"] = when(s[t])
    return r


@implementer(IRedeemer)
class Redeemer:
    def __init__(self, world):
        self.world = world

    def random_tokens_for_voucher(self, voucher, counter, count):
        w = self.world
        w.generated += 1
        v = vname(voucher.number)
        return [RandomToken(tnum(f"{v}.{counter}.{w.generated}.{i}")) for i in range(count)]

    def redeemWithCounter(self, voucher, counter, random_tokens):
        w = self.world
        v = vname(voucher.number)
        w.subs.append(dict(v=v, g=counter, n=len(random_tokens)))
        d = Deferred()
        w.outstanding.setdefault(v, []).append((d, list(random_tokens)))
        return d

    def tokens_to_passes(self, message, unblinded_tokens):
        raise NotImplementedError()


class World:
    def __init__(self, params, out):
        self.dir = scratch("vp-webapi-")
        self.base = os.path.join(self.dir, "node")
        self.path = os.path.join(self.dir, "db.sqlite3")
        self.params = params
        self.c = params["c"]
        self.out = out
        self.t = 0
        self.generated = 0
        self.token = 1
        self.repl = 0
        self.conn = None
        self.reader = None
        self.outstanding = {}
        self.subs = []
        out.event(dict(op="init", c=self.c))

    # -- the process -------------------------------------------------
    def now(self):
        return EPOCH + timedelta(seconds=self.t)

    def start(self):
        c = self.c
        self.node_config = make_config(
            self.base,
            CONFIG.format(
                needed=c["needed"],
                shares=c["shares"],
                keys=",".join(sorted(c["keys"])),
                default=c["default"],
                pass_=c["pass"],
                left=LEASE - c["period"],
            ),
        )
        self.write_token()
        self.faults = Faults()
        self.conn = open_database(faulty_connect(self.path, self.faults))
        self.store = VoucherStore.from_connection(
            c["pass"], self.now, with_replication(self.conn, False)
        )
        self.clock = Reactor()
        self.held = []
        self.activity = None
        self.outstanding = {}
        root = from_configuration(
            self.node_config,
            self.store,
            self.get_downloader,
            self.setup_replication,
            redeemer=Redeemer(self),
            clock=self.clock,
        )
        self.site = site_for(root, self.clock)

    def write_token(self):
        with open(os.path.join(self.base, "private", "api_auth_token"), "wb") as f:
            f.write(token(self.token))

    def stop(self):
        if self.conn is not None:
            self.faults.dead = True
            hard_close(self.conn)
            self.conn = None
            self.graveyard = getattr(self, "graveyard", [])
            self.graveyard.append((self.site, self.outstanding))
            self.outstanding = {}

    def close(self):
        self.stop()
        if self.reader is not None:
            self.reader.close()
        rmtree(self.dir)

    def get_downloader(self, cap):
        async def download(set_state):
            await Deferred()

        return download

    async def setup_replication(self):
        self.repl += 1
        return readonly_directory_from_string(CAP)

    # -- observation -------------------------------------------------
    def read(self, sql):
        if self.reader is None:
            self.reader = sqlite3.connect(self.path)
        cur = self.reader.cursor()
        cur.execute(sql)
        rows = cur.fetchall()
        cur.close()
        return rows

    def observe(self):
        def t(x):
            return seconds(datetime.fromisoformat(x)) if x else 0

        groups = dict(
            self.read("SELECT [rowid], [spendable] FROM [redemption-groups]")
        )
        tokens = self.read("SELECT [token], [redemption-group] FROM [unblinded-tokens]")
        return dict(
            v=[
                dict(v=vname(n), st=s, exp=e, ctr=c, cnt=tc or 0, fin=0 if s == "pending" else t(f), cre=t(cr))
                for n, s, e, c, tc, f, cr in self.read(
                    "SELECT [number], [state], [expected-tokens], [counter], [token-count], [finished], [created] FROM [vouchers]"
                )
            ],
            tok=sum(1 for x, g in tokens if groups.get(g)),
            held=sum(1 for x, g in tokens if not groups.get(g)),
            done=[
                dict(since=t(s), at=t(f), n=n)
                for s, f, n in self.read(
                    "SELECT [started], [finished], [count] FROM [lease-maintenance-spending] "
                    "WHERE [finished] IS NOT NULL ORDER BY [finished] DESC LIMIT 1"
                )
            ],
            inv=self.read("SELECT COUNT(*) FROM [invalid-unblinded-tokens]")[0][0],
        )

    def record(self, op, **args):
        e = dict(
            op=op,
            t=self.t,
            db=self.observe(),
            subs=self.subs,
            repl=self.repl,
            fired=False,
            code=0,
            codes=[],
            json=False,
            ok=True,
            vs=[],
            n=0,
            last=[],
            price=[0, 0],
            period=0,
            version="",
            leak=False,
        )
        e.update(args)
        self.subs = []
        self.out.event(e)

    def request(self, method, path, headers=None, body=b"", extra=()):
        if headers is None:
            headers = [(b"Authorization", b"tahoe-lafs " + token(self.token))]
        h = HTTP(self.site, method, path, list(headers) + list(extra), body)
        h.poll()
        r = dict(code=h.code or 0)
        if h.code is not None:
            kind = h.headers.get(b"content-type", b"").split(b";")[0].strip()
            r["json"] = kind == b"application/json"
            r["leak"] = self.leaks(h.raw)
            r["body"] = h.body
        else:
            h.conn.lose()
        return r

    def leaks(self, data):
        words = [vnum(v) for v in ("a", "b", "d")] + [CAP.encode(), token(self.token)]
        return any(w in data for w in words)

    def answer(self, r, f):
        """
        What an answer says.
        """
        body = r.pop("body", b"")
        if r["code"] != 200:
            return r
        m = loads(body)
        try:
            r.update(f(m))
        except (Malformed, AttributeError, LookupError, TypeError, ValueError) as e:
            r.update(ok=False, why=repr(e)[:100])
        return r

    def plain(self, r):
        r.pop("body", None)
        return r

    # -- operations --------------------------------------------------
    def run(self, ops):
        self.start()
        self.record("boot")
        for op in ops:
            self.do(op)
        for op in (["list"], ["maint"]):
            self.do(op)

    def do(self, op):
        self.t += 1
        r = getattr(self, "op_" + op[0])(*op[1:])
        if r is None:
            self.t -= 1
            return
        self.record(op[0], **r)

    def put(self, v, **kw):
        return self.request(b"PUT", b"/voucher", body=b'{"voucher": "%s"}' % (vnum(v),), **kw)

    def op_put(self, v):
        return dict(self.plain(self.put(v)), v=v)

    def op_bigput(self, v):
        body = b'{"voucher": ' + b" " * BIG + b'"%s"}' % (vnum(v),)
        return dict(self.plain(self.request(b"PUT", b"/voucher", body=body)), v=v)

    def op_fault(self, n, v):
        self.faults.arm("error", n)
        r = self.plain(self.put(v))
        fired = self.faults.fired
        self.faults.disarm()
        self.faults.fired = False
        return dict(r, v=v, fired=fired)

    def op_get(self, v):
        r = self.request(b"GET", b"/voucher/" + vnum(v))
        return dict(self.answer(r, lambda m: dict(vs=[voucher(m)])), v=v)

    def op_list(self):
        def f(m):
            if set(m) != {"vouchers"}:
                raise Malformed("list")
            return dict(vs=[voucher(x) for x in m["vouchers"]])

        return self.answer(self.request(b"GET", b"/voucher"), f)

    def op_maint(self):
        def f(m):
            if set(m) != {"total", "spending"}:
                raise Malformed("maintenance")
            s = m["spending"]
            last = []
            if s is not None:
                if set(s) != {"when", "count"}:
                    raise Malformed("spending")
                last = [dict(at=when(s["when"]), n=whole(s["count"]))]
            return dict(n=whole(m["total"]), last=last)

        return self.answer(self.request(b"GET", b"/lease-maintenance"), f)

    def op_version(self):
        import _zkapauthorizer

        def f(m):
            if m != {"version": _zkapauthorizer.__version__}:
                raise Malformed("version")
            return {}

        return self.answer(self.request(b"GET", b"/version"), f)

    def op_price(self, sizes):
        c = self.c
        numbers = [m * c["needed"] * c["pass"] * MILLIARD + r for m, r in sizes]

        def f(m):
            if set(m) != {"price", "period"}:
                raise Malformed("price")
            return dict(price=list(divmod(whole(m["price"]), MILLIARD)), period=whole(m["period"]))

        r = self.request(
            b"POST",
            b"/calculate-price",
            extra=[JSON_TYPE],
            body=dumps({"version": 1, "sizes": numbers}).encode("ascii"),
        )
        return dict(self.answer(r, f), sizes=sizes)

    def op_unauth(self, how, path):
        headers, query = authorization(how, token(self.token), token(self.token - 1))
        method, _, p = path.encode("ascii").partition(b" ")
        if query and b"?" in p:
            query = b"&" + query[1:]
        target = b"/" + p.replace(b"/a", b"/" + vnum("a")) + query
        body = b""
        extra = []
        if p == b"voucher" and method == b"PUT":
            body = b'{"voucher": "%s"}' % (vnum("a"),)
        if p == b"calculate-price":
            body = b'{"version": 1, "sizes": [1]}'
            extra = [JSON_TYPE]
        r = self.plain(self.request(method, target, headers, body, extra))
        return dict(r, how=how, what=path)

    def op_unauthput(self, how, v):
        headers, query = authorization(how, token(self.token), token(self.token - 1))
        body = b'{"voucher": "%s"}' % (vnum(v),)
        return dict(
            self.plain(self.request(b"PUT", b"/voucher" + query, headers, body)),
            how=how,
            what="PUT voucher",
        )

    def socket(self, headers, query=b""):
        w = WebSocket(self.site, b"/recover" + query, headers)
        code = 0
        for ev in w.poll():
            if ev[0] == "open":
                code = 101
            elif ev[0] == "refused":
                code = ev[1]
        leak = self.leaks(w.conn.all)
        w.drop()
        return dict(code=code, leak=leak)

    def op_ws(self):
        return self.socket([(b"Authorization", b"tahoe-lafs " + token(self.token))])

    def op_unauthws(self, how):
        headers, query = authorization(how, token(self.token), token(self.token - 1))
        return dict(self.socket(headers, query), how=how, what="recover")

    def op_rotate(self):
        self.token += 1
        self.write_token()
        return {}

    def op_setup(self):
        r = self.request(b"POST", b"/replicate")
        body = r.pop("body", b"")
        r["ok"] = loads(body) == {"recovery-capability": CAP}
        r.pop("leak", None)
        return r

    def op_bad(self, kind):
        if kind.startswith("p-"):
            extra = {"p-type": [(b"Content-Type", b"text/plain")], "p-notype": []}.get(kind, [JSON_TYPE])
            r = self.request(b"POST", b"/calculate-price", extra=extra, body=PRICES[kind])
        elif kind.startswith("g-"):
            v = vnum("a")
            segment = {
                "g-short": v[:-1],
                "g-long": v + b"A",
                "g-padding": v[:-3] + b"===",
                "g-utf8": b"%FF%FE" + v[2:],
                "g-nonascii": b"%C3%A9" + v[1:],
                "g-empty": b"",
            }[kind]
            r = self.request(b"GET", b"/voucher/" + segment)
        else:
            r = self.request(b"PUT", b"/voucher", body=body_of_put(kind, vnum("d"), None))
        return dict(self.plain(r), what=kind)

    def op_method(self, what):
        method, _, p = what.encode("ascii").partition(b" ")
        body = b'{"voucher": "%s"}' % (vnum("d"),) if p.startswith(b"voucher") else b""
        if p == b"calculate-price":
            body = b'{"version": 1, "sizes": [1]}'
        target = b"/" + p.replace(b"/a", b"/" + vnum("a"))
        if p == b"voucher/a" and self.vouchers().get("a") is None:
            return None
        return dict(self.plain(self.request(method, target, body=body)), what=what)

    def op_nopath(self, what):
        method, _, p = what.encode("ascii").partition(b" ")
        target = b"/" + p.replace(b"/a", b"/" + vnum("a"))
        return dict(self.plain(self.request(method, target)), what=what)

    def vouchers(self):
        return {x["v"]: x for x in self.observe()["v"]}

    # -- what happens to the wallet ----------------------------------
    def op_ok(self, v, key, n):
        if not self.outstanding.get(v):
            return None
        for _ in range(n):
            pending = self.outstanding.get(v)
            if not pending:
                break
            d, tokens = pending.pop(0)
            d.callback(RedemptionResult([unblind(t) for t in tokens], key))
        return dict(v=v, key=key, n=n)

    def op_fail(self, v, kind):
        pending = self.outstanding.get(v)
        if not pending:
            return None
        d, _ = pending.pop(0)
        why = "e%d" % (self.t,)
        if kind == "unpaid":
            d.errback(Unpaid(vnum(v)))
        elif kind == "spent":
            d.errback(AlreadySpent(vnum(v)))
        else:
            d.errback(Exception(why))
        return dict(v=v, kind=kind, d=why)

    def op_tick(self):
        self.clock.advance(RETRY_INTERVAL.total_seconds())
        return {}

    def op_restart(self):
        self.stop()
        self.start()
        return {}

    def op_take(self, n):
        try:
            self.held.extend(self.store.get_unblinded_tokens(n))
        except NotEnoughTokens:
            pass
        return dict(n=n)

    def _held(self, n):
        if n > len(self.held):
            return None
        x, self.held = self.held[:n], self.held[n:]
        return x

    def op_spend(self, n):
        x = self._held(n)
        if x is None:
            return None
        self.store.discard_unblinded_tokens(x)
        return dict(n=n)

    def op_back(self, n):
        x = self._held(n)
        if x is None:
            return None
        self.store.reset_unblinded_tokens(x)
        return dict(n=n)

    def op_begin(self):
        self.activity = self.store.start_lease_maintenance()
        return {}

    def op_observe(self, sizes):
        if self.activity is None:
            return None
        self.activity.observe(sizes)
        return dict(sizes=sizes)

    def op_finish(self):
        if self.activity is None:
            return None
        self.activity.finish()
        self.activity = None
        return {}


if __name__ == "__main__":
    drive(World)
