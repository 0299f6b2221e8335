"""
A client node: the real plugin in front of a database, a node configuration and
a grid, with its management interface served by twisted.web over transports
that are byte strings.
"""
import json
import os
import struct
from base64 import b64encode

import common  # noqa: F401
from twisted.internet.address import IPv4Address
from twisted.internet.error import ConnectionDone, ConnectionLost
from twisted.internet.task import Clock
from twisted.internet.testing import StringTransport
from twisted.python.failure import Failure
from twisted.web.server import Site

TOKEN = b"the-right-token-Az09"


class Reactor(Clock):
    """
    A clock that can also be told to start services, like a running reactor.
    """

    running = True

    def callWhenRunning(self, f, *a, **kw):
        f(*a, **kw)

    def addSystemEventTrigger(self, *a, **kw):
        pass

    def callFromThread(self, f, *a, **kw):
        f(*a, **kw)

    def connectTCP(self, *a, **kw):
        raise AssertionError("there is no network")


class Transport(StringTransport):
    def setTcpNoDelay(self, x):
        pass

    def setTcpKeepAlive(self, x):
        pass

    def abortConnection(self):
        self.disconnecting = True


class Connection:
    """
    A connection to a site.
    """

    def __init__(self, site):
        self.t = Transport(
            hostAddress=IPv4Address("TCP", "127.0.0.1", 80),
            peerAddress=IPv4Address("TCP", "127.0.0.1", 4321),
        )
        self.t.protocol = site.buildProtocol(self.t.getPeer())
        self.t.protocol.makeConnection(self.t)
        self.buf = b""
        self.all = b""
        self.lost = False

    def send(self, data):
        if not self.lost:
            self.t.protocol.dataReceived(data)

    def pull(self):
        data = self.t.value()
        self.t.clear()
        self.buf += data
        self.all += data

    def lose(self, clean=True):
        if not self.lost:
            self.lost = True
            self.t.protocol.connectionLost(
                Failure(ConnectionDone() if clean else ConnectionLost())
            )


def parse_response(data):
    """
    :return: (code, headers, body, rest) or None if it is not complete.
    """
    head, sep, rest = data.partition(b"\r\n\r\n")
    if not sep:
        return None
    lines = head.split(b"\r\n")
    code = int(lines[0].split()[1])
    headers = {}
    for h in lines[1:]:
        k, _, v = h.partition(b":")
        headers[k.strip().lower()] = v.strip()
    if code == 101 or code == 204:
        return code, headers, b"", rest
    if b"content-length" in headers:
        n = int(headers[b"content-length"])
        if len(rest) < n:
            return None
        return code, headers, rest[:n], rest[n:]
    if headers.get(b"transfer-encoding") == b"chunked":
        body = b""
        while True:
            size, sep, rest = rest.partition(b"\r\n")
            if not sep:
                return None
            n = int(size, 16)
            if len(rest) < n + 2:
                return None
            body += rest[:n]
            rest = rest[n + 2 :]
            if n == 0:
                return code, headers, body, rest
    return code, headers, rest, b""


def request_bytes(method, path, headers=(), body=b""):
    lines = [method + b" " + path + b" HTTP/1.1", b"Host: 127.0.0.1"]
    for k, v in headers:
        lines.append(k + b": " + v)
    if body or method in (b"POST", b"PUT"):
        lines.append(b"Content-Length: %d" % (len(body),))
    return b"\r\n".join(lines) + b"\r\n\r\n" + body


def auth(token=TOKEN):
    return (b"Authorization", b"tahoe-lafs " + token)


class HTTP:
    """
    One request.
    """

    def __init__(self, site, method, path, headers=(), body=b""):
        self.conn = Connection(site)
        self.head = method == b"HEAD"
        self.conn.send(request_bytes(method, path, headers, body))
        self.code = None

    def poll(self):
        """
        :return: Whether the response has just become complete.
        """
        if self.code is not None:
            return False
        self.conn.pull()
        if self.head:
            r = parse_response(self.conn.buf.replace(b"content-length", b"x-length"))
        else:
            r = parse_response(self.conn.buf)
        if r is None:
            if self.conn.t.disconnecting and not self.conn.buf:
                self.code = 0
                self.body = b""
                self.headers = {}
                return True
            return False
        self.code, self.headers, self.body, _ = r
        self.raw = self.conn.all
        self.conn.lose()
        return True


class WebSocket:
    def __init__(self, site, path, headers=()):
        self.conn = Connection(site)
        self.state = "handshake"
        self.code = None
        self.conn.send(
            request_bytes(
                b"GET",
                path,
                list(headers)
                + [
                    (b"Upgrade", b"websocket"),
                    (b"Connection", b"Upgrade"),
                    (b"Sec-WebSocket-Key", b64encode(b"k" * 16)),
                    (b"Sec-WebSocket-Version", b"13"),
                ],
            )
        )

    def frame(self, opcode, payload):
        mask = b"\x11\x22\x33\x44"
        masked = bytes(b ^ mask[i % 4] for i, b in enumerate(payload))
        n = len(payload)
        if n < 126:
            size = bytes([0x80 | n])
        else:
            size = bytes([0x80 | 126]) + struct.pack("!H", n)
        self.conn.send(bytes([0x80 | opcode]) + size + mask + masked)

    def send(self, payload, binary=False):
        if self.state == "open":
            self.frame(2 if binary else 1, payload)

    def close(self):
        if self.state == "open":
            self.frame(8, struct.pack("!H", 1000))

    def drop(self):
        self.conn.lose(clean=False)
        self.state = "gone"

    def poll(self):
        """
        :return: What happened: ["refused", code], ["open"], ["msg", bytes],
            ["close", code, reason], ["eof"].
        """
        r = []
        while True:
            self.conn.pull()
            c = self.conn
            if self.state == "gone":
                break
            if self.state == "handshake":
                x = parse_response(c.buf)
                if x is None:
                    break
                c.buf = x[3]
                if x[0] == 101:
                    self.state = "open"
                    r.append(["open"])
                else:
                    self.state = "gone"
                    self.code = x[0]
                    self.body = x[2]
                    r.append(["refused", x[0]])
                continue
            if len(c.buf) >= 2:
                op, n = c.buf[0] & 15, c.buf[1] & 127
                off = 2
                if n == 126:
                    n = struct.unpack("!H", c.buf[2:4])[0]
                    off = 4
                payload = c.buf[off : off + n]
                c.buf = c.buf[off + n :]
                if op in (1, 2):
                    r.append(["msg", payload])
                elif op == 8:
                    code = struct.unpack("!H", payload[:2])[0] if len(payload) >= 2 else 0
                    r.append(["close", code, payload[2:].decode("utf-8", "replace")])
                    if self.state == "open":
                        self.state = "closing"
                        self.frame(8, payload[:2])
                continue
            if c.t.disconnecting and not c.lost:
                c.lose()
                self.state = "gone"
                r.append(["eof"])
                continue
            break
        return r


CONFIG = """
[node]
nickname = test
web.port = tcp:1:interface=127.0.0.1

[client]
shares.needed = 1
shares.happy = 1
shares.total = 2
storage.plugins = privatestorageio-zkapauthz-v2

[storageclient.plugins.privatestorageio-zkapauthz-v2]
redeemer = unpaid
allowed-public-keys = AAAAAAAA
default-token-count = 32
pass-value = 1000000
"""


def make_config(base, text=CONFIG):
    from allmydata.client import config_from_string

    os.makedirs(os.path.join(base, "private"), exist_ok=True)
    with open(os.path.join(base, "node.url"), "w") as f:
        f.write("http://127.0.0.1:1/\n")
    with open(os.path.join(base, "private", "api_auth_token"), "wb") as f:
        f.write(TOKEN)
    return config_from_string(base, "client.port", text.encode("utf-8"))


def site_for(resource, reactor):
    s = Site(resource, reactor=reactor)
    s.noisy = False
    s.log = lambda request: None
    s.timeOut = None
    return s


def loads(data):
    try:
        return json.loads(data)
    except ValueError:
        return None
