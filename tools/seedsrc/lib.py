"""Helpers for the demonstrations: builds index files and chunk stores, runs the programs of ./_build in a scratch directory."""
import atexit
import hashlib
import http.server
import os
import shutil
import struct
import subprocess
import sys
import tempfile
import threading

BUILD = os.path.abspath("_build")
CSN = os.path.join(BUILD, "csn")
TOOL = os.path.join(BUILD, "csn-tool")
PATCHDD = os.path.join(BUILD, "patchdd")
REPO = os.getcwd()

scratch = tempfile.mkdtemp(prefix="demo.")
os.chdir(scratch)
atexit.register(shutil.rmtree, scratch, True)


def sha(b):
    return hashlib.sha256(b).digest()


def rnd(seed, n):
    out, i = b"", 0
    while len(out) < n:
        out += hashlib.sha256(b"%d/%d" % (seed, i)).digest()
        i += 1
    return out[:n]


def caibx(entries, params=(16384, 65536, 262144), flags=0x9000000000000000, size=None):
    """entries: [(end offset, id)]"""
    b = struct.pack("<QQQQQQQQ", 0x30, 0x96824d9c7b129ff9, flags, *params, 2**64 - 1, 0xe75b9e112f17417d)
    for end, cid in entries:
        b += struct.pack("<Q", end) + cid
    n = 16 + (len(entries) + 1) * 40 if size is None else size
    return b + struct.pack("<QQQQQ", 0, 0, 0x30, n, 0x4b4f050e5549ecd1)


def index_of(chunks, **kw):
    ents, off = [], 0
    for c in chunks:
        off += len(c)
        ents.append((off, sha(c)))
    return caibx(ents, **kw)


def write(name, b):
    with open(name, "wb") as f:
        f.write(b)


def read(name):
    with open(name, "rb") as f:
        return f.read()


def zstd(data):
    """A zstd frame of raw blocks"""
    out = struct.pack("<IBQ", 0xFD2FB528, 0xe0, len(data))
    pos = 0
    while True:
        n = min(131072, len(data) - pos)
        last = pos + n == len(data)
        out += struct.pack("<I", n << 3 | last)[:3] + data[pos:pos + n]
        pos += n
        if last:
            return out


class Server:
    """answers: path -> (status, body pieces) or a list of these, consumed one by one"""

    def __init__(self, answers):
        self.log = []
        self.answers = answers
        srv = self

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.0"

            def do_GET(self):
                srv.log.append(self.path)
                a = srv.answers.get(self.path, (404, [b"no"]))
                if isinstance(a, list):
                    a = a.pop(0) if len(a) > 1 else a[0]
                st, body = a
                if isinstance(body, bytes):
                    body = [body]
                self.send_response(st)
                self.send_header("Content-Length", str(sum(map(len, body))))
                self.end_headers()
                import socket
                import time
                self.connection.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                for i, p in enumerate(body):
                    if i:
                        time.sleep(0.05)
                    self.wfile.write(p)
                    self.wfile.flush()

            def log_message(self, *a):
                pass

        self.s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.port = self.s.server_address[1]
        self.url = "http://127.0.0.1:%d" % self.port
        threading.Thread(target=self.s.serve_forever, daemon=True).start()

    @staticmethod
    def path(cid, enc=""):
        h = cid.hex()
        return "/%s/%s.cacnk%s" % (h[:4], h, enc)

    def add(self, chunk, status=200, body=None, enc="", prefix=""):
        self.answers[prefix + self.path(sha(chunk), enc)] = (status, zstd(chunk) if body is None else body)


def run(argv, exe=None, env=None, stdin=b"", timeout=200):
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", no_proxy="*")
    e.update(env or {})
    p = subprocess.run(argv, executable=exe, env=e, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if b"AddressSanitizer" in p.stderr or b"runtime error" in p.stderr:
        sys.exit("sanitizer report:\n" + p.stderr[-1500:].decode("latin1"))
    return p


def csn(*args, **kw):
    return run(["csn"] + list(args), exe=CSN, **kw)


def check(cond, what):
    if not cond:
        sys.exit("FAILED: " + what)


def natural(size, tag):
    """A chunk (16 KiB to 256 KiB) that the default parameters cut out as it is; tag is below 256"""
    assert 16384 <= size < 262144
    return bytes([tag]) + bytes(size - 49) + bytes(46) + b"\x05\x8b"


def casync_make(data, sizes):
    """Index file made by casync, as bytes"""
    write("mk.in", data)
    subprocess.run(["casync", "make", "--digest=sha256", "--chunk-size=%d:%d:%d" % sizes, "--store=mk.castr", "mk.caibx", "mk.in"],
                   check=True, stdout=subprocess.DEVNULL)
    shutil.rmtree("mk.castr")
    return read("mk.caibx")


def entries(caibx_bytes):
    """[(start, end, id)] of an index file"""
    out, last = [], 0
    for p in range(64, len(caibx_bytes) - 40, 40):
        end, = struct.unpack("<Q", caibx_bytes[p:p + 8])
        out.append((last, end, caibx_bytes[p + 8:p + 40]))
        last = end
    return out


def preload(c_source):
    """Environment that puts the given functions in front of the C library's"""
    write("pre.c", b"#define _GNU_SOURCE\n#include <dlfcn.h>\n#include <errno.h>\n#include <string.h>\n#include <stdlib.h>\n"
          b"#include <unistd.h>\n#include <sys/types.h>\n#include <sys/stat.h>\n#include <sys/socket.h>\n"
          b"#define REAL(name) ((__typeof__(&name)) dlsym(RTLD_NEXT, #name))\n" + c_source.encode())
    subprocess.run(["gcc", "-shared", "-fPIC", "-w", "-O1", "-U_FORTIFY_SOURCE", "-o", "pre.so", "pre.c", "-ldl"], check=True)
    return {"LD_PRELOAD": os.path.abspath("pre.so"), "ASAN_OPTIONS": "detect_leaks=0:verify_asan_link_order=0"}
