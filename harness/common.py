"""
Things shared by all the drivers.  Runs under /opt/venv/bin/python (PyPy 3.9)
with /repo/src on the path.
"""
import json
import os
import shutil
import sqlite3
import sys
import tempfile
import time
import traceback
from datetime import datetime, timezone, timedelta

REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.dont_write_bytecode = True

# Somewhere where local time is not universal time, and changes with the season.
os.environ["TZ"] = "VPT-5:30VPS,M3.2.0,M9.1.0"
time.tzset()

# Keep Twisted / eliot quiet and cheap.
from twisted.logger import globalLogPublisher  # noqa: E402

EPOCH = datetime(2020, 1, 1, tzinfo=timezone.utc)


def scratch(prefix="vp-"):
    base = os.environ.get("VP_SCRATCH") or None
    return tempfile.mkdtemp(prefix=prefix, dir=base)


def rmtree(path):
    assert os.path.basename(path).startswith("vp-"), path
    shutil.rmtree(path, ignore_errors=True)


class Crash(BaseException):
    """The simulated death of the process."""


class Faults:
    """
    Decides, for every database statement, commit or rollback made by a
    connection, whether it happens, fails or is where the process dies.

    ``at`` counts down with every statement; when it reaches zero the statement
    is the victim.  Kinds: "crash" (nothing happens from here on) and "error"
    (this statement fails with OperationalError; the rest works).
    """

    def __init__(self):
        self.kind = None
        self.at = 0
        self.dead = False
        self.fired = False
        self.count = 0
        self.note = None

    def arm(self, kind, at):
        self.kind, self.at, self.fired, self.count = kind, at, False, 0

    def disarm(self):
        self.kind = None

    def step(self, what):
        if self.dead:
            raise Crash()
        self.count += 1
        if self.kind is None or self.fired:
            return
        if self.at == 0:
            self.fired = True
            if self.kind == "crash":
                self.dead = True
                raise Crash()
            raise sqlite3.OperationalError("injected fault")
        self.at -= 1


def faulty_connect(path, faults):
    """
    :return: A callable like ``partial(sqlite3.connect, path)`` the connections
        of which consult ``faults``.
    """

    class Cursor(sqlite3.Cursor):
        def execute(self, sql, *a):
            faults.step(sql)
            r = super().execute(sql, *a)
            if faults.note is not None:
                faults.note(sql, [tuple(a[0]) if a else ()])
            return r

        def executemany(self, sql, rows):
            faults.step(sql)
            if faults.note is not None:
                rows = list(rows)
            r = super().executemany(sql, rows)
            if faults.note is not None:
                faults.note(sql, rows)
            return r

    class Connection(sqlite3.Connection):
        def cursor(self, factory=None):
            return super().cursor(Cursor)

        def execute(self, sql, *a):
            return self.cursor().execute(sql, *a)

        def _step_commit(self):
            try:
                faults.step("COMMIT")
            except sqlite3.OperationalError:
                # like SQLite does when the disk is full or broken
                super().rollback()
                raise

        def commit(self):
            self._step_commit()
            return super().commit()

        def __exit__(self, exc_type, exc_value, exc_tb):
            if exc_type is None:
                if self.in_transaction:
                    self._step_commit()
                return super().__exit__(exc_type, exc_value, exc_tb)
            if faults.dead:
                # A dead process does not roll back.  (SQLite will, later.)
                return False
            return super().__exit__(exc_type, exc_value, exc_tb)

    def connect(isolation_level="IMMEDIATE", **kw):
        return sqlite3.connect(
            path, isolation_level=isolation_level, factory=Connection
        )

    return connect


def hard_close(conn):
    """
    Make a connection go away without committing anything.
    """
    try:
        sqlite3.Connection.rollback(conn)
    except sqlite3.Error:
        pass
    try:
        sqlite3.Connection.close(conn)
    except sqlite3.Error:
        pass


class TraceWriter:
    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0
        self.inits = 0

    def event(self, e):
        self.f.write(json.dumps(e) + "\n")
        self.n += 1
        if e["op"] == "init":
            self.inits += 1

    def broken(self, exc):
        """
        The code under test did something that is not foreseen at all.
        """
        traceback.print_exc()
        self.event(dict(op="broken", exc=f"{type(exc).__name__}: {exc}"[:300]))

    def close(self):
        self.f.close()


def drive(World):
    """
    Run the schedules given on the command line.

    ``World(params, out)`` makes the initial state, ``run(ops)`` does the rest
    and ``close()`` cleans up.
    """
    schedules, trace = sys.argv[1:3]
    out = TraceWriter(trace)
    with open(schedules) as f:
        lines = f.readlines()
    for i, line in enumerate(lines):
        params = json.loads(line)
        w = None
        try:
            w = World(params, out)
            w.run(params["ops"])
        except Exception as e:
            if out.inits == i:
                out.event(dict(op="init", broken=True))
            out.broken(e)
        finally:
            if w is not None:
                try:
                    w.close()
                except Exception as e:
                    out.broken(e)
    out.close()
    print("EVENTS", out.n)
    sys.stdout.flush()
    os._exit(0)
