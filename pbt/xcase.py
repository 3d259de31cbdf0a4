"""Extraction scenarios: turning a JSON case into files, a plan and a command line; a
specification-level model of what the extraction has to do; comparison helpers."""
import os

from . import ref
from .world import Violation, expect, sane

TRANSIENT = (6, 7, 28)
URLS = ["http://a.example", "http://b.example/store", "http://c.example:8080/x/y"]


# ------------------------------------------------------------ materialising

class LocalStore:
    kind = "local"

    def __init__(self, spec, data, hint, params, role):
        self.spec = spec
        self.data = data
        self.params = params
        self.role = role
        self.hint = hint            # None or [(off, len, id)]
        self._scan = None
        self.active = True
        self.alias = spec["t"] == "alias"

    def scan(self):
        if self._scan is None:
            d = {}
            self.places = {}
            for off, ln, cid in ref.chunk(self.data, self.params):
                d.setdefault(cid, (off, ln))
                self.places.setdefault(cid, []).append((off, ln))
            self._scan = d
        return self._scan


class HttpStore:
    kind = "http"

    def __init__(self, spec, base, suffix):
        self.spec = spec
        self.base = base
        self.suffix = suffix
        self.resp = {}              # chunk id -> [response dict]
        self.pos = {}
        self.errors = 0
        self.active = True

    def url(self, cid):
        h = cid.hex()
        return "%s/%s/%s%s" % (self.base, h[:4], h, self.suffix)


class TargetStore:
    kind = "target"
    active = True

    def __init__(self, spec):
        self.spec = spec
        self.active = True


class X:
    """A materialised case."""

    def __init__(self, case):
        self.case = case
        self.params = case["params"]
        self.image = ref.expr(case["img"])
        cut = case.get("cut", "cdc")
        img = self.image
        if cut == "cdc":
            ents = ref.chunk(img, self.params)
        else:
            if cut and cut[0] == "#":            # number, length: many equal chunks
                cut = [cut[2]] * cut[1]
            ents = []
            off = 0
            for ln in cut:
                ln = min(ln, len(img) - off)
                if ln <= 0:
                    break
                ents.append((off, ln, ref.sha(img[off:off + ln])))
                off += ln
            self.image = img = img[:off]
        self.chunks = ents                        # what the image really consists of
        self.content = {}
        for off, ln, cid in ents:
            self.content.setdefault(cid, img[off:off + ln])
        raw = [[off + ln, cid] for off, ln, cid in ents]
        self.near = {}
        for m in case.get("emod", ()):
            self._emod(raw, m, self.near)
        self.raw = raw
        self.entries = []
        last = 0
        for end, cid in raw:
            self.entries.append((last, end - last, cid))
            last = end
        self.extent = last
        self.uniq = []
        seen = set()
        for _, _, cid in self.entries:
            if cid not in seen:
                seen.add(cid)
                self.uniq.append(cid)
        self.index = ref.caibx([(e, c) for e, c in raw], self.params, **case.get("ihdr", {}))
        t = case.get("tgt", {})
        self.tgt_missing = bool(t.get("missing"))
        self.tgt0 = b"" if self.tgt_missing else self.data(t.get("d", []))
        self.target_arg = "./" * t.get("long", 0) + "target"
        self.stores = []
        self.init_ok = not self.tgt_missing
        nlocal = nhttp = 0
        for s in case["stores"]:
            if s["t"] in ("local", "alias"):
                role = "seed%d" % nlocal
                nlocal += 1
                data = self.tgt0 if s["t"] == "alias" else self.data(s.get("d", []))
                st = LocalStore(s, data, None, self.params, role)
                st.name = "./" * s.get("long", 0) + ("./target" if s["t"] == "alias" else role)
                st.hint_bytes, st.hint = self.make_hint(s.get("hint"), data, s.get("d", []))
                if s.get("missing"):
                    self.init_ok = False
            elif s["t"] == "http":
                base = s.get("u") or URLS[nhttp % len(URLS)]
                arg = base + s.get("slash", "")
                key = s.get("key")
                if key:
                    arg += "#encrypt=key:" + key
                arg = s.get("arg", arg)
                st = HttpStore(s, base, ".cacnk.enc" if key else ".cacnk")
                st.arg = arg
                nhttp += 1
                self.make_responses(st)
            else:
                st = TargetStore(s)
            self.stores.append(st)

    def data(self, pieces):
        out = []
        for p in pieces:
            if p[0] == "k":       # chunk i of the image
                if self.chunks:
                    o, l, _ = self.chunks[p[1] % len(self.chunks)]
                    out.append(self.image[o:o + l])
            elif p[0] == "kx":    # corrupted chunk: chunk i with one byte changed
                if self.chunks:
                    o, l, _ = self.chunks[p[1] % len(self.chunks)]
                    b = bytearray(self.image[o:o + l])
                    b[p[2] % l] ^= p[3] or 1
                    out.append(bytes(b))
            elif p[0] == "kp":    # the first n bytes of chunk i
                if self.chunks:
                    o, l, _ = self.chunks[p[1] % len(self.chunks)]
                    out.append(self.image[o:o + min(l, p[2])])
            elif p[0] == "pre":   # the first i chunks
                n = p[1] % (len(self.chunks) + 1)
                if n:
                    o, l, _ = self.chunks[n - 1]
                    out.append(self.image[:o + l])
            elif p[0] == "al":    # fill up to a multiple of n
                out.append(ref.rnd_bytes(p[2], -sum(map(len, out)) % p[1]))
            else:
                out.append(ref.piece(p, self.image))
        return b"".join(out)

    @staticmethod
    def _where(raw, m):
        """Which entry and which byte of its ID; from 32 on: a byte behind a zero byte, if an ID has one."""
        n = len(raw)
        if m[2] >= 32:
            for j in range(n):
                i = (m[1] + j) % n
                z = raw[i][1].find(0)
                if 0 <= z < 31:
                    return i, z + 1 + m[2] % (31 - z)
        return m[1] % n, m[2] % 32

    @staticmethod
    def _emod(raw, m, near=None):
        """near: made-up ID -> the real one it resembles"""
        n = len(raw)
        if not n:
            return
        k = m[0]
        if k == "id":           # entry i gets the id of entry j
            raw[m[1] % n][1] = raw[m[2] % n][1]
        elif k == "flip":       # one bit of the id
            i, at = X._where(raw, m)
            b = bytearray(raw[i][1])
            b[at] ^= 1 << (m[3] % 8)
            if near is not None:
                near[bytes(b)] = near.get(raw[i][1], raw[i][1])
            raw[i][1] = bytes(b)
        elif k == "near":       # repeat entry i under an ID that differs in one bit
            i, at = X._where(raw, m)
            ln = max(1, raw[i][0] - (raw[i - 1][0] if i else 0))
            b = bytearray(raw[i][1])
            b[at] ^= 1 << (m[3] % 8)
            if near is not None:
                near[bytes(b)] = near.get(raw[i][1], raw[i][1])
            raw.insert(i + 1, [raw[i][0] + ln, bytes(b)])
            for e in raw[i + 2:]:
                e[0] += ln
        elif k == "end":        # shift one boundary
            raw[m[1] % n][0] = max(0, raw[m[1] % n][0] + m[2])
        elif k == "shift":      # shift all boundaries from i on (entry i changes its length)
            for e in raw[m[1] % n:]:
                e[0] = max(0, e[0] + m[2])
        elif k == "set":        # entry i gets a given id
            raw[m[1] % n][1] = bytes.fromhex(m[2])
        elif k == "drop":
            del raw[m[1] % n]
        elif k == "dup":        # repeat entry i with the same id directly after itself, length changed by d
            i = m[1] % n
            start = raw[i - 1][0] if i else 0
            ln = max(1, raw[i][0] - start + m[2])
            raw.insert(i + 1, [raw[i][0] + ln, raw[i][1]])
            for e in raw[i + 2:]:
                e[0] += ln
        elif k == "gap":        # m[2] entries of length m[3] that nobody asks for, in front of entry i
            i = m[1] % n
            start = raw[i - 1][0] if i else 0
            for e in raw[i:]:
                e[0] += m[2] * m[3]
            raw[i:i] = [[start + (j + 1) * m[3], ref.sha(b"gap%d" % j)] for j in range(m[2])]
        elif k == "swap":
            i, j = m[1] % n, m[2] % n
            raw[i][1], raw[j][1] = raw[j][1], raw[i][1]
        elif k == "zero":       # an entry that does not advance
            i = m[1] % n
            raw.insert(i + 1, [raw[i][0], raw[i][1]])

    def make_hint(self, h, data, pieces):
        """-> (file bytes or None, entries the program may use or None)"""
        if h is None:
            return None, None
        k = h["k"]
        params = h.get("params") or self.params
        if k == "cdc":
            ents = ref.chunk(data, self.params)
        elif k == "of":         # index of something else (stale)
            ents = ref.chunk(self.data(h["d"]), self.params)
        elif k == "image":      # the index of the image itself
            ents = list(self.entries)
        elif k == "pieces":     # one entry per piece of the seed
            ents, off = [], 0
            for p in pieces:
                b = self.data([p])
                if b:
                    ents.append((off, len(b), ref.sha(b)))
                    off += len(b)
        elif k == "raw":
            return ref.expr(h["d"]), None
        else:                   # missing, dir
            return None, None
        raw = [[o + l, c] for o, l, c in ents]
        for m in h.get("mod", ()):
            self._emod(raw, m)
        b = ref.caibx([(e, c) for e, c in raw], params, **h.get("ihdr", {}))
        if "trunc" in h:
            b = b[:len(b) - h["trunc"]]
            return b, None
        if "flip" in h:
            bb = bytearray(b)
            # damages magic numbers / footer only (never the entries)
            pos = [8, 9, 15, 56, 57, 63, len(b) - 1, len(b) - 8, len(b) - 9, len(b) - 17, len(b) - 24, len(b) - 25, 0x10, 0x11]
            bb[pos[h["flip"] % len(pos)]] ^= 0x41
            return bytes(bb), None
        if list(params) != list(self.params) or not raw:
            return b, None
        out, last = [], 0
        for end, cid in raw:
            if not 0 < end - last <= 0xffffffff:
                return b, None
            out.append((last, end - last, cid))
            last = end
        return b, out

    # ---- HTTP

    def body(self, spec, cid, key):
        """Body bytes of a response."""
        content = self.content.get(cid)
        if content is None:
            content = self.content.get(self.near.get(cid), b"")
        k = spec.get("k", "ok")
        if k == "empty":
            return b""
        if k == "raw":
            b = ref.expr(spec["d"])
        elif k == "plain":
            b = content
        else:
            if k == "other":        # another chunk's content
                o, l, _ = self.chunks[spec["j"] % len(self.chunks)]
                content = self.image[o:o + l]
            elif k == "bad":        # right length, one byte wrong
                bb = bytearray(content or b"x")
                bb[spec.get("at", 0) % len(bb)] ^= spec.get("x", 1) or 1
                content = bytes(bb)
            elif k == "short":
                content = content[:max(0, len(content) - spec.get("by", 1))]
            elif k == "long":
                content = content + ref.rnd_bytes(7, spec.get("by", 1))
            elif k == "zeros":
                content = b"\0" * spec.get("by", 300000)
            lv, ck, cs, fl = spec.get("lv", 3), spec.get("ck", 0), spec.get("cs", 1), spec.get("fl", 0)
            wl = spec.get("wl")
            frames = spec.get("fr")
            if frames:
                parts, pos = [], 0
                for ln in frames:
                    if ln < 0:
                        parts.append(ref.skippable(b"s" * (-ln - 1)))
                        continue
                    parts.append(ref.zcompress(content[pos:pos + ln], lv, ck, cs, fl, wl))
                    pos += ln
                parts.append(ref.zcompress(content[pos:], lv, ck, cs, fl, wl))
                b = b"".join(parts)
            else:
                b = ref.zcompress(content, lv, ck, cs, fl, wl)
                if spec.get("did"):
                    b = ref.with_dict_id(b, spec["did"])
        if "cutoff" in spec:
            b = b[:max(0, len(b) - spec["cutoff"])]
        if "keep" in spec:
            b = b[:spec["keep"]]
        if "fx" in spec and b:
            bb = bytearray(b)
            bb[spec["fx"][0] % len(bb)] ^= spec["fx"][1] or 1
            b = bytes(bb)
        if "tail" in spec:
            b = b + ref.expr(spec["tail"])
        if spec.get("enc", 1) and key:
            b = ref.xchacha20(b, bytes.fromhex(spec.get("wk") or key), cid[:24])
        return b

    def make_responses(self, st):
        s = st.spec
        have = s.get("have", "all")
        for i, cid in enumerate(self.uniq):
            rs = None
            if "resp" in s and str(i) in s["resp"]:
                rs = s["resp"][str(i)]
            elif "every" in s:
                rs = s["every"]
            elif have == "all" or (have != "none" and have >> i & 1):
                rs = [s.get("dflt", {"st": 200})]
            if rs is None:
                continue
            lst = []
            for r in rs:
                b = self.body(r.get("b", {}), cid, s.get("key")) if r.get("st", 200) and r.get("b") is not False else b""
                lst.append({"st": r.get("st", 200), "cc": r.get("cc", 0), "body": b,
                            "dl": r.get("dl", -1), "sg": r.get("sg") or s.get("sg")})
            st.resp[cid] = lst

    # ---- files and plan

    def store_arg(self, s):
        if s.kind == "target":
            return self.target_arg
        if s.kind == "http":
            return s.arg
        a = s.name
        if s.spec.get("hint"):
            a += ":" + s.role + ".caibx"
        return a

    def args(self):
        return [self.store_arg(s) for s in self.stores]

    def setup(self, ctx):
        """Creates all files; the target with content self.tgt0."""
        ctx.write("index.caibx", self.index)
        if not self.tgt_missing:
            ctx.write("target", self.tgt0)
        for s in self.stores:
            if s.kind != "local":
                continue
            if not s.alias and not s.spec.get("missing"):
                ctx.write(s.name, s.data)
            h = s.spec.get("hint")
            if h:
                if h["k"] == "dir":
                    os.mkdir(ctx.path(s.role + ".caibx"))
                elif s.hint_bytes is not None:
                    ctx.write(s.role + ".caibx", s.hint_bytes)

    def plan(self, ctx):
        p = []
        p.append(("role", "index", "index.caibx"))
        p.append(("role", "target", "target"))
        if self.case.get("tgt", {}).get("blk"):
            p.append(("blk", "target"))
        for s in self.stores:
            if s.kind == "local" and not s.alias:
                p.append(("role", s.role, s.name))
                if s.spec.get("blk"):
                    p.append(("blk", s.role))
                if s.spec.get("hint"):
                    p.append(("role", s.role + "h", s.role + ".caibx"))
        p.append(("http",))
        bodies = bytearray()
        bf = ctx.aux("bodies")
        cache = {}
        for s in self.stores:
            if s.kind != "http":
                continue
            for cid, lst in s.resp.items():
                p.append(("url", s.url(cid)))
                for r in lst:
                    b = r["body"]
                    if b:
                        off = cache.get(b)
                        if off is None:
                            off = cache[b] = len(bodies)
                            bodies += b
                        bd = "%s@%d+%d" % (bf, off, len(b))
                    else:
                        bd = "-"
                    p.append(("resp", r["st"], r["cc"], bd, r["dl"], ",".join(map(str, r["sg"])) if r["sg"] else "-"))
        with open(bf, "wb") as f:
            f.write(bodies)
        for f in self.case.get("faults", ()):
            p.append(("fault",) + tuple(f))
        for m in self.case.get("mutates", ()):
            fn = ctx.aux("mut%d" % len(p))
            with open(fn, "wb") as f:
                f.write(self.data(m[5]))
            p.append(("mutate", m[0], m[1], m[2], m[3], m[4], fn))
        if self.case.get("rand"):
            p.append(("rand",) + tuple(self.case["rand"]))
        if self.case.get("tty"):
            p.append(("tty",))
        for n in self.case.get("cl", ()):
            p.append(("closefd", n))
        return p

    def env(self):
        e = {}
        if self.case.get("log"):
            e["LOGLEVEL"] = self.case["log"]
        return e

    def run(self, ctx, extra=(), argv=None, env=None):
        r = ctx.run("csn", argv or ["csn", "index.caibx", self.target_arg] + self.args(), plan=self.plan(ctx) + list(extra),
                    env=dict(self.env(), **(env or {})))
        return r


# --------------------------------------------------------------------- model

class Outcome:
    def __init__(self):
        self.exit = None
        self.target = None
        self.requests = []       # (url, status, code)
        self.sleeps_at = []      # indices into requests after which a pause is due
        self.writes = []         # (off, len)
        self.hits = []           # (entry no, store no)
        self.skipped = 0
        self.stop = None         # entry number at which the run ends with failure
        self.ambiguous = None
        self.rescans = []        # store numbers
        self.disabled = []       # store numbers, in order
        self.lookups = 0
        self.labels = set()


def simulate(x, target=None, readfails=None):
    """What an extraction has to do, by the documentation.
    readfails(store number) is called for every chunk read from a seed or the target and tells whether that read fails."""
    fails = readfails or (lambda i: False)
    o = Outcome()
    t = bytearray(x.tgt0 if target is None else target)
    o.target = t
    if not x.init_ok:
        o.exit = 1
        return o
    tidx = {}
    queryable = any(s.kind == "target" for s in x.stores)
    for s in x.stores:
        if s.kind == "local":
            s.mode_hint = s.hint is not None
            s.active = True
            if s.mode_hint:
                s.hmap = {}
                for off, ln, cid in s.hint:
                    s.hmap.setdefault(cid, []).append((off, ln))
        else:
            s.active = True
            if s.kind == "http":
                s.pos = {}
                s.errors = 0

    def local_get(i, s, cid):
        if s.mode_hint:
            ents = s.hmap.get(cid)
            if not ents:
                return "miss", None
            good = [] if fails(i) else [e for e in ents if e[1] <= ref.MAXBUF and e[0] + e[1] <= len(s.data) and
                    ref.sha(s.data[e[0]:e[0] + e[1]]) == cid]
            if len(good) == len(ents):
                return "hit", s.data[good[0][0]:good[0][0] + good[0][1]]
            if good:
                o.ambiguous = "hint lists right and wrong places for one chunk"
            s.mode_hint = False
            o.rescans.append(i)
            if getattr(s, "rescan_fails", False):
                return "fail", None
        e = s.scan().get(cid)
        if not e:
            return "miss", None
        if e[1] > ref.MAXBUF or fails(i):
            return "fail", None
        if s.alias:
            b = bytes(t[e[0]:e[0] + e[1]])
            # any of several equal chunks may be the one that is used
            if any(ref.sha(bytes(t[a:a + n])) != cid for a, n in s.places[cid]):
                o.ambiguous = "aliased store changed"
                return "miss", None
            return "hit", b
        return "hit", s.data[e[0]:e[0] + e[1]]

    def http_get(i, s, cid):
        url = s.url(cid)
        lst = s.resp.get(cid)
        tries = 0
        while True:
            if lst:
                p = s.pos.get(cid, 0)
                r = lst[p]
                if p < len(lst) - 1:
                    s.pos[cid] = p + 1
            else:
                r = {"st": x.case.get("httpdefault", 404), "cc": 0, "body": b"", "dl": -1}
            o.requests.append((url, r["st"], r["cc"]))
            body = r["body"] if r["dl"] < 0 else r["body"][:r["dl"]]
            cc = r["cc"]
            if r["st"] == 0:
                body = b""
            aborted = False
            if r["st"] not in (0, 200) and body:
                aborted = True
            dec = None
            if r["st"] == 200:
                plain = body
                if s.spec.get("key"):
                    plain = ref.xchacha20(body, bytes.fromhex(s.spec["key"]), cid[:24])
                dec = ref.zdecode(plain, ref.MAXBUF)
                if not (dec[0] == "ok" and ref.sha(dec[1]) == cid):
                    # libzstd is not consistent about damaged frames: its verdict may depend on the fragmentation
                    d2 = ref.zdecode(plain, ref.MAXBUF, 1 if len(plain) < 5000 else 61)
                    if (d2[0] == "error") != (dec[0] == "error") or (ref.sha(d2[1]) == cid and d2[0] != "error"):
                        o.ambiguous = "damaged frame"
                if len(plain) < 4:
                    dec = ("short", b"")
                elif plain[:4] != b"\x28\xb5\x2f\xfd":
                    if plain[:4] == b"\x50\x2a\x4d\x18" or (plain[1:4] == b"\x2a\x4d\x18" and plain[0] & 0xf0 == 0x50):
                        o.ambiguous = "starts with a skippable frame"
                    dec = ("error", b"")
                if dec[0] == "error":
                    aborted = True
                if dec[0] == "toolong" and cc:
                    o.ambiguous = "an oversized response may be given up before the transfer fails"
            if not aborted and cc in TRANSIENT:
                o.labels.add("retry")
                if body and r["st"] == 200:
                    o.labels.add("retry-midbody")
                tries += 1
                if tries == 10:
                    s.errors += 1
                    return ("fail" if s.errors > 10 else "miss"), None
                o.sleeps_at.append(len(o.requests) - 1)
                continue
            if not aborted and cc != 0:
                return "fail", None
            if r["st"] in (404, 410):
                return "miss", None
            if r["st"] >= 400:
                s.errors += 1
                return ("fail" if s.errors > 10 else "miss"), None
            if r["st"] != 200 or dec[0] in ("short", "error"):
                return "miss", None
            if ref.sha(dec[1]) == cid and dec[0] in ("ok", "incomplete"):
                if dec[0] != "ok":
                    o.ambiguous = "complete content in an incomplete frame"
                s.errors = 0
                return "hit", dec[1]
            if s.errors:
                o.ambiguous = "undefined whether a mismatching download resets the error count"
            s.errors = 0
            return "miss", None

    def chain_get(n, cid):
        for i, s in enumerate(x.stores):
            if not s.active:
                continue
            o.lookups += 1
            if s.kind == "local":
                k, d = local_get(i, s, cid)
            elif s.kind == "http":
                k, d = http_get(i, s, cid)
            else:
                e = tidx.get(cid)
                k, d = ("miss", None) if not e else ("fail", None) if fails(i) else ("hit", bytes(t[e[0]:e[0] + e[1]]))
            if k == "hit":
                o.hits.append((n, i))
                return d
            if k == "fail":
                for s2 in x.stores:
                    if s2 is s:
                        s2.active = False
                o.disabled.append(i)
        return None

    resuming = True
    last = None
    for n, (off, ln, cid) in enumerate(x.entries):
        if ln <= 0 or ln > 0xffffffff:
            o.exit, o.stop = 1, n
            return o
        if resuming:
            if ln > ref.MAXBUF:
                o.exit, o.stop = 1, n
                return o
            if off + ln <= len(t) and ref.sha(bytes(t[off:off + ln])) == cid:
                o.skipped += 1
                if queryable:
                    tidx.setdefault(cid, (off, ln))
                continue
            resuming = False
        if last is None or last[0] != cid or last[1] != ln:
            d = chain_get(n, cid)
            if d is None or len(d) != ln:
                o.exit, o.stop = 1, n
                return o
            last = (cid, ln, d)
        else:
            o.labels.add("reuse")
        if len(t) < off:
            t.extend(b"\0" * (off - len(t)))
        t[off:off + ln] = last[2]
        o.writes.append((off, ln))
        if queryable:
            tidx.setdefault(cid, (off, ln))
    o.exit = 0
    return o


# ---------------------------------------------------------------- assertions

def merge(ws):
    """Merges adjoining writes: the order and coverage matter, not how they are split."""
    out = []
    for off, ln in ws:
        if out and out[-1][0] + out[-1][1] == off:
            out[-1][1] += ln
        else:
            out.append([off, ln])
    return [tuple(w) for w in out]


def check_integrity(x, r, final, rotten=(), torn=False):
    """C01: every entry that was written to is exactly right, and on success all of them are.
    rotten: (offset, length) of ranges of the target that the test itself has overwritten meanwhile.
    torn: writing was made to fail, so the last chunk may be incomplete (but not different)."""
    def excused(off, ln):
        return any(off < a + n and a < off + ln for a, n in rotten)
    import bisect
    ents = x.entries
    if r.exit == 0:
        last = 0
        for n, (off, ln, cid) in enumerate(ents):
            expect(0 < ln <= 0xffffffff, lambda: "exit 0 for an index whose entry %d has length %d" % (n, ln), r)
            expect(excused(off, ln) or ref.sha(final[off:off + ln]) == cid and len(final) >= off + ln,
                   lambda: "exit 0, but the target does not hold chunk %d (offset %d, length %d) of the index" % (n, off, ln), r)
    starts, usable = [], []
    last = 0
    for off, ln, cid in ents:
        if ln <= 0 or ln > 0xffffffff:
            break
        starts.append(off)
        usable.append((off, ln, cid))
    checked = set()
    ws = r.writes("target")
    if torn and ws:
        i = bisect.bisect_right(starts, ws[-1][0]) - 1
        if 0 <= i < len(usable) and usable[i][2] in x.content:
            off, ln, cid = usable[i]
            checked.add(i)
            for a, n in ws:
                lo, hi = max(a, off), min(a + n, off + ln)
                if lo < hi:
                    expect(final[lo:hi] == x.content[cid][lo - off:hi - off],
                           lambda: "bytes %d to %d, written for chunk %d, are wrong" % (lo, hi, i), r)
    for woff, wlen in ws:
        i = bisect.bisect_right(starts, woff) - 1
        pos = woff
        while pos < woff + wlen:
            expect(0 <= i < len(usable) and pos < usable[i][0] + usable[i][1],
                   lambda: "write of %d bytes at %d lies outside the chunks of the index" % (wlen, woff), r)
            if i not in checked:
                checked.add(i)
                off, ln, cid = usable[i]
                expect(excused(off, ln) or ref.sha(final[off:off + ln]) == cid,
                       lambda: "unverified content was written into the target (chunk %d, offset %d, length %d), exit status %s" % (i, off, ln, r.exit), r)
            pos = usable[i][0] + usable[i][1]
            i += 1


def check_frame(x, ctx, before, final, r, extent=None):
    """C03: nothing but target[0:extent] changes."""
    extent = x.extent if extent is None else extent
    expect(len(final) >= len(before), lambda: "the target shrank from %d to %d bytes" % (len(before), len(final)), r)
    if len(before) > extent:
        expect(len(final) == len(before), lambda: "the size of the target changed from %d to %d although it is larger than the image (%d)" % (len(before), len(final), extent), r)
        expect(final[extent:] == before[extent:], "bytes behind the image were modified", r)
    else:
        expect(len(final) <= max(extent, len(before)), lambda: "the target grew to %d bytes, beyond the image's %d" % (len(final), extent), r)
    expect(ctx.read("index.caibx") == x.index, "the index file was modified", r)
    for s in x.stores:
        if s.kind == "local" and not s.alias and not s.spec.get("missing"):
            if not any(m[3] == s.name for m in x.case.get("mutates", ())):
                expect(ctx.read(s.name) == s.data, "seed %s was modified" % s.name, r)
            if s.hint_bytes is not None:
                expect(ctx.read(s.role + ".caibx") == s.hint_bytes, "a side-loaded index was modified", r)


def check_exact(x, r, o, final, requests=True, sleeps=False):
    """Everything observable agrees with the model."""
    expect(r.exit == o.exit, lambda: "exit status %s, expected %s (%s)" % (r.exit, o.exit, "fails at entry %s" % o.stop), r)
    if o.exit == 0 or o.stop is not None:
        expect(final == bytes(o.target), lambda: "target content differs from the expected one at byte %s (lengths %d / %d)" % (
            next((i for i, (a, b) in enumerate(zip(final, o.target)) if a != b), "-"), len(final), len(o.target)), r)
    if requests:
        got, want = r.requests(), [u for u, _, _ in o.requests]
        if got != want:
            k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            raise Violation("HTTP requests differ from the expected sequence at position %d: got %s, expected %s (%d / %d requests)\n%s" % (
                k, got[k:k + 3], want[k:k + 3], len(got), len(want), r.describe()))


def labels_of(x, o, r):
    lb = set(o.labels)
    lb.add("exit%s" % o.exit)
    n = len(x.entries)
    lb.add("chunks:" + ("0" if n == 0 else "1" if n == 1 else "2-5" if n < 6 else "6-20" if n < 21 else "21+"))
    if o.skipped:
        lb.add("prefix-skipped" if o.skipped < n else "all-skipped")
    if o.rescans:
        lb.add("rescan")
    if o.disabled:
        lb.add("store-disabled")
    if o.ambiguous:
        lb.add("ambiguous")
    for _, i in o.hits:
        s = x.stores[i]
        lb.add("hit-" + s.spec["t"] + ("-hint" if s.kind == "local" and s.hint is not None and s.mode_hint else ""))
    if len(set(c for _, _, c in x.entries)) < n:
        lb.add("repeats")
    if o.stop is not None:
        lb.add("stops-midway" if o.stop else "stops-at-first")
    return sorted(lb)
