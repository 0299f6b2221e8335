"""
A Tahoe-LAFS node's HTTP API, as far as ZKAPAuthorizer uses it, in front of a
grid that is a dictionary.  Every request waits until it is told what becomes
of it.
"""
import json
from urllib.parse import unquote, urlsplit, parse_qs
from zlib import crc32

import common  # noqa: F401
from attrs import define, field
from tahoe_capabilities import (
    CHKRead,
    SSKDirectoryWrite,
    SSKWrite,
    danger_real_capability_string,
)
from twisted.internet.defer import Deferred
from twisted.internet.error import ConnectionRefusedError
from twisted.python.failure import Failure
from twisted.python.filepath import FilePath
from twisted.web.client import ResponseDone, ResponseNeverReceived
from twisted.web.http_headers import Headers
from twisted.web.iweb import IAgent, IResponse, UNKNOWN_LENGTH
from zope.interface import implementer


def sixteen(n):
    return n.to_bytes(16, "big")


def thirtytwo(n):
    return n.to_bytes(32, "big")


class Grid:
    def __init__(self):
        self.n = 0
        self.files = {}  # ro cap -> bytes
        self.dirs = {}  # write cap -> {name: cap}
        self.readers = {}  # read cap -> write cap

    def upload(self, data):
        self.n += 1
        cap = danger_real_capability_string(
            CHKRead.derive(
                readkey=sixteen(self.n),
                uri_extension_hash=thirtytwo(self.n),
                needed=1,
                total=1,
                size=len(data),
            )
        )
        self.files[cap] = data
        return cap

    def mkdir(self):
        self.n += 1
        cap = SSKDirectoryWrite(
            cap_object=SSKWrite.derive(
                bytes(b ^ 0xA5 for b in sixteen(self.n)), thirtytwo(self.n)
            )
        )
        rw = danger_real_capability_string(cap)
        self.dirs[rw] = {}
        self.readers[danger_real_capability_string(cap.reader)] = rw
        return rw

    def reader(self, rw):
        (ro,) = [k for k, v in self.readers.items() if v == rw]
        return ro

    def find_dir(self, cap):
        return self.dirs.get(self.readers.get(cap, cap))

    def listing(self, cap):
        children = {}
        # in no particular order
        for name, c in sorted(
            self.find_dir(cap).items(), key=lambda x: crc32(x[0].encode("utf-8"))
        ):
            if c in self.files:
                children[name] = [
                    "filenode",
                    dict(
                        mutable=False,
                        ro_uri=c,
                        size=len(self.files[c]),
                        format="CHK",
                        metadata={},
                    ),
                ]
            else:
                rw = self.readers.get(c, c)
                children[name] = [
                    "dirnode",
                    dict(mutable=True, ro_uri=self.reader(rw), rw_uri=rw, metadata={}),
                ]
        return ["dirnode", dict(mutable=True, children=children)]

    # -- the HTTP API ------------------------------------------------
    def perform(self, r):
        """
        :return: (status, body)
        """
        k = r.kind
        if k == "upload":
            return 201, self.upload(r.body).encode()
        if k == "mkdir":
            return 200, self.mkdir().encode()
        if k == "read":
            if r.cap in self.files:
                return 200, self.files[r.cap]
            return 410, b"NoSharesError: no shares could be found."
        d = self.find_dir(r.cap)
        if d is None:
            return 400, b"BadURIError"
        if k == "list":
            return 200, json.dumps(self.listing(r.cap)).encode()
        if r.cap not in self.dirs:
            return 500, b"<html>allmydata.mutable.common.NotWriteableError</html>"
        if k == "link":
            if r.name in d and r.query.get("replace", "true").lower() == "false":
                return 409, b"There was already a child by that name"
            target = r.body.decode("ascii")
            d[r.name] = target
            return 200, target.encode()
        if k == "unlink":
            if r.name not in d:
                return 404, b"No such child: " + r.name.encode()
            del d[r.name]
            return 200, b""
        return 400, b"what is " + k.encode()


@define(eq=False)
class Request:
    kind: str
    d: Deferred
    cap: str = ""
    name: str = ""
    query: dict = field(factory=dict)
    body: bytes = b""
    url: bytes = b""
    gone: bool = False


def parse_request(method, uri, body, d):
    u = urlsplit(uri.decode("ascii"))
    q = {k: v[-1] for k, v in parse_qs(u.query).items()}
    segs = [unquote(s) for s in u.path.split("/")[1:]]
    r = Request("?", d, query=q, body=body, url=uri)
    if segs[:1] != ["uri"]:
        pass
    elif method == b"PUT" and len(segs) == 1:
        r.kind = "upload"
    elif method == b"POST" and len(segs) == 1 and q.get("t") == "mkdir":
        r.kind = "mkdir"
    elif len(segs) >= 2:
        r.cap = segs[1]
        rest = segs[2:]
        r.name = "/".join(rest)
        if method == b"GET" and q.get("t") == "json" and r.name == "":
            r.kind = "list"
        elif method == b"GET" and rest == []:
            r.kind = "read"
        elif method == b"PUT" and q.get("t") == "uri" and len(rest) == 1:
            r.kind = "link"
        elif method == b"DELETE" and len(rest) == 1:
            r.kind = "unlink"
    if r.kind == "?":
        r.name = f"{method} {u.path} {u.query}"
    return r


@implementer(IResponse)
class Response:
    version = (b"HTTP", 1, 1)
    phrase = b"?"
    previousResponse = None

    def __init__(self, code, body, request):
        self.code = code
        self.body = body
        self.length = len(body)
        self.headers = Headers({b"content-type": [b"text/plain"]})
        self.request = request

    def deliverBody(self, protocol):
        protocol.makeConnection(self)
        if self.body:
            protocol.dataReceived(self.body)
        protocol.connectionLost(Failure(ResponseDone()))

    def setPreviousResponse(self, r):
        self.previousResponse = r

    # transport-ish
    def loseConnection(self):
        pass

    def stopProducing(self):
        pass

    def pauseProducing(self):
        pass

    def resumeProducing(self):
        pass


@define
class _Req:
    method: bytes
    absoluteURI: bytes
    headers: object


@implementer(IAgent)
class Agent:
    """
    :ivar waiting: The requests nobody has answered yet.
    """

    def __init__(self, grid, auto=False, on_request=None):
        self.grid = grid
        self.auto = auto
        self.waiting = []
        self.dead = False
        self.on_request = on_request

    def request(self, method, uri, headers=None, bodyProducer=None):
        body = b""
        if bodyProducer is not None:
            body = bodyProducer._inputFile.read()
        d = Deferred(lambda d: self._cancel(r))
        r = parse_request(method, uri, body, d)
        if self.dead:
            return d
        if self.on_request is not None:
            self.on_request(r)
        if self.auto:
            self.waiting.append(r)
            self.answer(r, "ok")
        else:
            self.waiting.append(r)
        return d

    def _cancel(self, r):
        r.gone = True
        if r in self.waiting:
            self.waiting.remove(r)

    def answer(self, r, kind):
        """
        ok: perform the request and say what came of it; lost: perform it but
        lose the answer; fail: an error; drop: the connection breaks before
        anything happened; noservers, notenough, refused: not now.
        """
        self.waiting.remove(r)
        if kind == "ok":
            code, body = self.grid.perform(r)
            self.respond(r, code, body)
        elif kind == "lost":
            self.grid.perform(r)
            r.d.errback(ResponseNeverReceived([Failure(Exception("lost"))]))
        elif kind == "drop":
            r.d.errback(ResponseNeverReceived([Failure(Exception("dropped"))]))
        elif kind == "refused":
            r.d.errback(ConnectionRefusedError("not up yet"))
        elif kind == "noservers":
            self.respond(r, 500, b"x allmydata.interfaces.NoServersError x")
        elif kind == "notenough":
            self.respond(r, 500, b"x allmydata.mutable.common.NotEnoughServersError x")
        elif kind == "fail":
            self.respond(r, 500, b"allmydata.mutable.common.UncoordinatedWriteError")
        else:
            raise ValueError(kind)

    def respond(self, r, code, body):
        r.d.callback(Response(code, body, _Req(b"?", r.url, Headers())))


class NodeConfig:
    """
    The little of a Tahoe-LAFS node's configuration that is asked for.
    """

    def __init__(self, basedir, items=None):
        self.base = FilePath(basedir)
        self.base.child("private").makedirs(ignoreExistingDirectory=True)
        self.base.child("node.url").setContent(b"http://127.0.0.1:1/\n")
        self.items = items or {}

    def get_config_path(self, *names):
        p = self.base
        for n in names:
            p = p.child(n)
        return p.path

    def get_private_path(self, *names):
        return self.get_config_path("private", *names)

    def get_config(self, section, option, default=None, boolean=False):
        return self.items.get((section, option), default)


def tahoe(agent, config):
    from _zkapauthorizer.tahoe import Tahoe
    from treq.client import HTTPClient

    return Tahoe(HTTPClient(agent), config)
