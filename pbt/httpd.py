"""A scripted HTTP/1.1 server on the loopback interface, in threads of the worker process."""
import re
import socket
import struct
import threading
import time


class Server:
    """script: path -> list of behaviours, the last one repeats.  A behaviour is a dict:
    st, body (bytes), mode: 'cl' | 'chunked' | 'close', sg: sizes of the pieces that are sent,
    cut: close after that many body bytes, stall: stop sending after that many body bytes (until the client
    gives up), slow: pause (ms) after each piece,
    loc: Location header, ka: keep the connection, reset: RST instead of a response."""

    STALL = 25.0

    def __init__(self):
        self.script = {}
        self.pos = {}
        self.log = []
        self.lock = threading.Lock()
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(128)
        self.port = self.sock.getsockname()[1]
        # a port that refuses connections
        self.dead = socket.socket()
        self.dead.bind(("127.0.0.1", 0))
        self.deadport = self.dead.getsockname()[1]
        self.conns = set()
        threading.Thread(target=self._accept, daemon=True).start()

    def load(self, script):
        with self.lock:
            self.script = script
            self.pos = {}
            self.log = []
            for c in list(self.conns):
                try:
                    c.shutdown(socket.SHUT_RDWR)
                except OSError:
                    pass

    def _accept(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            with self.lock:
                self.conns.add(c)
            threading.Thread(target=self._serve, args=(c,), daemon=True).start()

    def _serve(self, c):
        try:
            c.settimeout(60)
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            buf = b""
            while True:
                while b"\r\n\r\n" not in buf:
                    d = c.recv(65536)
                    if not d:
                        return
                    buf += d
                head, _, buf = buf.partition(b"\r\n\r\n")
                method, path = head.split(b"\r\n")[0].decode("latin1").split(" ")[:2]
                rng = None
                for l in head.split(b"\r\n")[1:]:
                    m = re.match(rb"(?i)range:\s*bytes=(\d*)-(\d*)\s*$", l)
                    if m and (m[1] or m[2]):
                        rng = m[1], m[2]
                with self.lock:
                    # only GET is expected
                    self.log.append(path if method == "GET" else method + " " + path)
                    lst = self.script.get(path)
                    if lst:
                        p = self.pos.get(path, 0)
                        b = lst[p]
                        if p < len(lst) - 1:
                            self.pos[path] = p + 1
                    else:
                        b = {"st": 404, "body": b"nothing here"}
                if rng and b["st"] == 200 and b.get("body"):
                    # as web servers with static files do
                    n = len(b["body"])
                    lo = int(rng[0]) if rng[0] else max(0, n - int(rng[1]))
                    hi = min(n - 1, int(rng[1])) if rng[0] and rng[1] else n - 1
                    b = dict(b, st=206, body=b["body"][lo:hi + 1]) if lo <= hi else dict(b, st=416, body=b"")
                if not self._respond(c, b, method == "HEAD"):
                    return
        except OSError:
            pass
        finally:
            with self.lock:
                self.conns.discard(c)
            try:
                c.close()
            except OSError:
                pass

    def _respond(self, c, b, head=False):
        if b.get("reset"):
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            return False
        body = b.get("body", b"")
        mode = b.get("mode", "cl")
        st = b["st"]
        h = ["HTTP/1.1 %d Whatever" % st]
        if b.get("loc"):
            h.append("Location: " + b["loc"])
        nobody = st in (204, 304)
        if nobody:
            body = b""
        elif mode == "cl":
            h.append("Content-Length: %d" % len(body))
        elif mode == "chunked":
            h.append("Transfer-Encoding: chunked")
        ka = b.get("ka") and mode != "close"
        if not ka:
            h.append("Connection: close")
        c.sendall(("\r\n".join(h) + "\r\n\r\n").encode())
        if head:
            return bool(ka)
        limit = len(body)
        if "cut" in b:
            limit = min(limit, b["cut"])
        if "stall" in b:
            limit = min(limit, b["stall"])
        off, i = 0, 0
        sg = b.get("sg") or [1 << 20]
        while off < limit:
            n = max(1, min(sg[i % len(sg)], limit - off))
            i += 1
            d = body[off:off + n]
            if mode == "chunked":
                d = b"%x\r\n" % len(d) + d + b"\r\n"
            c.sendall(d)
            off += n
            if b.get("slow"):
                time.sleep(b["slow"] / 1000)
        if "stall" in b:
            c.settimeout(self.STALL)
            try:
                c.recv(1)      # returns when the client gives up
            except socket.timeout:
                pass
            return False
        if "cut" in b and limit < len(body):
            return False
        if mode == "chunked" and not nobody:
            c.sendall(b"0\r\n\r\n")
        if not ka:
            try:
                c.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            return False
        return True


_server = None


def server():
    global _server
    if _server is None:
        _server = Server()
    return _server
