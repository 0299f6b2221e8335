"""
Open wallet databases that were written by earlier versions, with interruptions,
and use them afterwards.

usage: upgrade.py SCHEDULES.ndjson TRACE.ndjson
"""
import os
import sqlite3
from datetime import datetime, timedelta, timezone

from common import EPOCH, Crash, Faults, drive, faulty_connect, hard_close, rmtree, scratch
from wallet import tname, tnum, unblind, vname, vnum

import cbor2

from _zkapauthorizer.model import (
    DoubleSpend,
    Pending,
    RandomToken,
    Redeemed,
    VoucherStore,
    open_database,
)
from _zkapauthorizer.replicate import get_events, with_replication

# How the databases of earlier versions came into being.  This is history: it
# does not change when the code does.
HISTORY = {
    1: """
CREATE TABLE [version] AS SELECT 0 AS [version];
CREATE TABLE [vouchers] ([number] text, [created] text, [state] text DEFAULT "pending",
    [finished] text DEFAULT NULL, [token-count] num DEFAULT NULL, PRIMARY KEY([number]));
CREATE TABLE [tokens] ([text] text, [voucher] text, PRIMARY KEY([text])
    FOREIGN KEY([voucher]) REFERENCES [vouchers]([number]));
CREATE TABLE [unblinded-tokens] ([token] text, PRIMARY KEY([token]));
CREATE TABLE [lease-maintenance-spending] ([id] integer, [started] text, [finished] text,
    [count] integer, PRIMARY KEY([id]));
""",
    2: "ALTER TABLE [vouchers] ADD COLUMN [public-key] text;",
    3: "ALTER TABLE [vouchers] ADD COLUMN [counter] integer DEFAULT 0;",
    4: """
ALTER TABLE [tokens] ADD COLUMN [counter] integer NOT NULL DEFAULT 0;
ALTER TABLE [vouchers] ADD COLUMN [expected-tokens] integer NOT NULL DEFAULT 32768;
""",
    5: """
CREATE TABLE [invalid-unblinded-tokens] ([token] text, [reason] text, PRIMARY KEY([token]));
""",
    6: """
CREATE TABLE [redemption-groups] ([rowid] INTEGER PRIMARY KEY, [voucher] text,
    [spendable] integer, [public-key] text);
ALTER TABLE [vouchers] ADD COLUMN [sequestered-count] integer NOT NULL DEFAULT 0;
ALTER TABLE [unblinded-tokens] ADD COLUMN [redemption-group] integer DEFAULT 1;
""",
    7: """
CREATE TABLE [event-stream] ([sequence-number] INTEGER PRIMARY KEY AUTOINCREMENT,
    [statement] TEXT, [important] BOOL);
""",
    8: "",
    9: "ALTER TABLE [event-stream] ADD COLUMN [serialized_arguments] TEXT DEFAULT X'80';",
    10: "",
}


def written(t):
    """
    A time, the way that some version writes it: {"at": ..., "zone": ...}.
    """
    if t["at"] == 0:
        return None
    when = EPOCH + timedelta(seconds=t["at"], microseconds=250000 if t["at"] % 2 else 0)
    if t["zone"]:
        return when.isoformat(" ")
    return datetime.fromtimestamp(when.timestamp()).isoformat(" ")


def moment(when):
    return (when - EPOCH) // timedelta(seconds=1)


def write(path, d):
    ver = d["ver"]
    c = sqlite3.connect(path)
    for v in range(1, ver + 1):
        c.executescript(HISTORY[v])
    c.execute("UPDATE [version] SET [version] = ?", (ver,))

    def insert(table, since, **values):
        """
        :param since: Columns that are there from some version on.
        """
        cols = [k for k in values if since.get(k, 0) <= ver]
        c.execute(
            f"INSERT INTO [{table}] ({', '.join(f'[{k}]' for k in cols)}) VALUES ({', '.join('?' for _ in cols)})",
            [values[k] for k in cols],
        )

    for v, x in d["V"].items():
        insert(
            "vouchers",
            {"public-key": 2, "counter": 3, "expected-tokens": 4},
            **{
                "number": vnum(v).decode("ascii"),
                "created": written(x["cre"]),
                "state": x["st"],
                "finished": written(x["fin"]),
                "token-count": x["cnt"] if x["cnt"] else None,
                "public-key": x["key"] or None,
                "counter": x["ctr"],
                "expected-tokens": x["exp"],
            },
        )
    for r in d["rnd"]:
        insert(
            "tokens",
            {"counter": 4},
            text=tnum(r["t"]).decode("ascii"),
            voucher=vnum(r["v"]).decode("ascii"),
            counter=r["g"],
        )
    for r in d["tok"]:
        insert(
            "unblinded-tokens",
            {"redemption-group": 6},
            **{"token": tnum(r["t"], b"U").decode("ascii"), "redemption-group": r["gr"]},
        )
    if ver >= 5:
        for r in d["inv"]:
            insert("invalid-unblinded-tokens", {}, token=tnum(r["t"], b"U").decode("ascii"), reason=r["why"])
    if ver >= 6:
        for g in d["G"]:
            insert(
                "redemption-groups",
                {},
                **{
                    "rowid": g["id"],
                    "voucher": vnum(g["v"]).decode("ascii"),
                    "spendable": g["sp"],
                    "public-key": g["key"],
                },
            )
    for r in d["lm"]:
        insert(
            "lease-maintenance-spending",
            {},
            started=written(r["s"]),
            finished=written(r["f"]),
            count=r["n"],
        )
    if ver >= 7:
        for e in d["ev"]:
            insert(
                "event-stream",
                {"serialized_arguments": 9},
                **{
                    "sequence-number": e["n"],
                    "statement": e["stmt"],
                    "important": e["imp"],
                    "serialized_arguments": cbor2.dumps(tuple(e["args"])),
                },
            )
    c.commit()
    c.close()


class NoTokens(Exception):
    pass


class World:
    def __init__(self, params, out):
        self.dir = scratch("vp-upgrade-")
        self.path = os.path.join(self.dir, "db.sqlite3")
        self.out = out
        self.d = d = params["d"]
        d["V"] = d["V"] or {}
        self.t = params["t"]
        self.n = 0
        self.conn = None
        self.store = None
        write(self.path, d)
        out.event(dict(op="init", d=d))

    def now(self):
        return EPOCH + timedelta(seconds=self.t)

    def close(self):
        self.shut()
        rmtree(self.dir)

    def shut(self):
        if self.conn is not None:
            hard_close(self.conn)
        self.conn = self.store = None

    # -- observation -------------------------------------------------
    def dump(self):
        c = sqlite3.connect(self.path)
        names = c.execute("SELECT name, sql FROM sqlite_master ORDER BY name").fetchall()
        r = [names] + [
            sorted(map(repr, c.execute(f"SELECT * FROM [{n}]").fetchall()))
            for n, sql in names
            if sql and sql.upper().startswith("CREATE TABLE")
        ]
        c.close()
        return r

    def vouchers(self):
        r = []
        for v in self.store.list():
            assert self.store.get(v.number) == v
            s = v.state
            x = dict(v=vname(v.number), cre=moment(v.created), fin=0, cnt=0, ctr=-1, exp=v.expected_tokens)
            if isinstance(s, Pending):
                x.update(st="pending", ctr=s.counter)
            elif isinstance(s, Redeemed):
                x.update(st="redeemed", fin=moment(s.finished), cnt=s.token_count)
            elif isinstance(s, DoubleSpend):
                x.update(st="double-spend", fin=moment(s.finished))
            r.append(x)
        return r

    def random(self):
        def none():
            raise NoTokens()

        r = []
        for v in self.d["V"]:
            for g in range(4):
                try:
                    ts = self.store.add(vnum(v), 1, g, none)
                except NoTokens:
                    continue
                r.extend(dict(v=v, g=g, t=tname(t.token_value)) for t in ts)
        return r

    def last(self):
        a = self.store.get_latest_lease_maintenance_activity()
        if a is None:
            return []
        return [dict(s=moment(a.started), f=moment(a.finished), n=a.passes_required)]

    def invalid(self):
        c = sqlite3.connect(self.path)
        r = [
            dict(t=tname(t), why=str(w))
            for t, w in c.execute("SELECT [token], [reason] FROM [invalid-unblinded-tokens]")
        ]
        c.close()
        return r

    def events(self):
        return [
            dict(n=e.sequence, stmt=e.statement, imp=bool(e.important), args=list(e.arguments))
            for e in get_events(self.conn).changes
        ]

    def record(self, op, **args):
        e = dict(op=op, t=self.t, open=self.store is not None, same=True, out="ok", toks=[])
        if self.store is not None:
            free = self.store.get_unblinded_tokens(self.store.count_unblinded_tokens())
            self.store.reset_unblinded_tokens(free)
            e.update(
                V=self.vouchers(),
                rnd=self.random(),
                free=[tname(t.unblinded_token) for t in free],
                inv=self.invalid(),
                last=self.last(),
                ev=self.events(),
            )
        e.update(args)
        self.out.event(e)

    # -- operations --------------------------------------------------
    def run(self, ops):
        for op in ops:
            self.t += 1
            if op[0] != "open" and self.store is None:
                self.op_open("none", 0)
                if self.store is None:
                    return
            getattr(self, "op_" + op[0])(*op[1:])
        self.op_open("none", 0)

    def op_open(self, kind, at):
        self.shut()
        before = self.dump()
        faults = Faults()
        if kind != "none":
            faults.arm(kind, at)
        out = "ok"
        try:
            self.conn = open_database(faulty_connect(self.path, faults))
            self.store = VoucherStore.from_connection(
                1000, self.now, with_replication(self.conn, False)
            )
        except (Crash, Exception) as e:
            out = kind if faults.fired else "raise:" + type(e).__name__
        faults.disarm()
        if out != "ok":
            self.shut()
        self.record("open", out=out, same=before == self.dump())

    def take(self, n):
        n = min(n, self.store.count_unblinded_tokens())
        return self.store.get_unblinded_tokens(n)

    def op_spend(self, n):
        ts = self.take(n)
        self.store.discard_unblinded_tokens(ts)
        self.record("spend", toks=[tname(t.unblinded_token) for t in ts])

    def op_inval(self, n):
        ts = self.take(n)
        self.store.invalidate_unblinded_tokens("broken", ts)
        self.record("inval", toks=[tname(t.unblinded_token) for t in ts])

    def pending(self, v):
        x = self.store.get(vnum(v))
        return x if isinstance(x.state, Pending) else None

    def op_redeem(self, v, n):
        x = self.pending(v) if v in self.d["V"] else None
        if x is None:
            return
        made = []

        def make():
            for _ in range(n):
                self.n += 1
                made.append(RandomToken(tnum(f"n{self.n}")))
            return list(made)

        ts = self.store.add(vnum(v), x.expected_tokens, x.state.counter, make)
        self.store.insert_unblinded_tokens_for_voucher(
            vnum(v), "key", [unblind(t) for t in ts], completed=True, spendable=True
        )
        self.record("redeem", v=v, toks=[tname(t.token_value) for t in ts], made=bool(made))

    def op_double(self, v):
        x = self.pending(v) if v in self.d["V"] else None
        if x is None:
            return
        self.store.mark_voucher_double_spent(vnum(v))
        self.record("double", v=v)

    def op_maintain(self, n):
        m = self.store.start_lease_maintenance()
        s = self.t
        self.t += 5
        m.observe([1000] * n)
        m.finish()
        self.record("maintain", n=n, s=s, f=self.t)


if __name__ == "__main__":
    drive(World)
