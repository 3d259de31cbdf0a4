"""C13: transient HTTP failures are retried, persistent ones disable the store."""
from hypothesis import strategies as st

from ..core import Part
from .. import gen, httpd, ref, xcase
from ..world import expect, sane

LEVEL = "fault_enumeration"
RULE = ("history part: extractions of up to 40 chunks from one to three HTTP stores where each chunk's request meets a generated sequence of transient "
        "failures (before the response or after any number of its bytes; 0 to 25 of them, concentrated around 9, 10 and 11), followed by "
        "success, 404/410, another HTTP status or a permanent transport failure, so that failure counts reach 10, 11 and 12 with and without "
        "successes in between; the requests, exit status and target must equal those of a model with the failure counter, and the recorded "
        "pauses must grow by doubling up to a bound. Server part: the same through real libcurl and a scripted HTTP server on the loopback "
        "interface (chunked, closed, cut, reset, stalled, redirected, refused; slow but steady for up to 38 s). Non-trivial: a retry took place or a store was switched off.")
I = gen.I


@st.composite
def reply(draw, kinds):
    k = gen.wsample(draw, kinds)
    if k == "ok":
        return [{"st": 200}]
    if k == "missing":
        return [{"st": draw(st.sampled_from([404, 410])), "b": draw(st.sampled_from([False, {"k": "raw", "d": [["r", 1, 30]]}]))}]
    if k == "hard":
        return [{"st": draw(st.sampled_from([400, 401, 403, 405, 409, 411, 429, 451, 500, 502, 503, 504, 599])),
                 "b": draw(st.sampled_from([False, {"k": "raw", "d": [["r", 2, 300]]}, {}]))}]
    if k == "odd":
        return [{"st": draw(st.sampled_from([201, 204, 206, 301, 304])), "b": draw(st.sampled_from([False, {}]))}]
    if k == "dead":
        return [{"st": 0, "cc": draw(st.sampled_from([6, 7, 28]))}]
    if k == "perm":
        return [{"st": draw(st.sampled_from([0, 200])), "cc": draw(st.sampled_from([56, 52, 18, 35, 47, 60])), "dl": draw(I(0, 10))}]
    n = draw(st.sampled_from([1, 1, 1, 2, 3, 5, 8, 9, 9, 10, 11]))
    out = []
    for _ in range(n):
        if draw(I(0, 1)):
            out.append({"st": 200, "cc": draw(st.sampled_from([28, 28, 7, 6])), "dl": draw(st.one_of(I(0, 8), I(0, 300)))})
        else:
            out.append({"st": 0, "cc": draw(st.sampled_from([6, 7, 28]))})
    return out + draw(reply([("ok", 8), ("missing", 1), ("hard", 1), ("perm", 1)]))


MIX = [
    [("ok", 5), ("flaky", 5), ("missing", 1), ("hard", 1), ("dead", 1), ("perm", 0), ("odd", 1)],
    [("hard", 10), ("ok", 1), ("missing", 2)],
    [("hard", 5), ("dead", 5), ("missing", 3)],
    [("hard", 12), ("dead", 3), ("ok", 1), ("flaky", 1), ("missing", 1), ("odd", 1)],
    [("ok", 6), ("flaky", 2), ("perm", 1)],
    [("missing", 8), ("odd", 2), ("ok", 1)],
]


@st.composite
def cases(draw, tier):
    p = draw(gen.params())
    n = draw(st.one_of(I(1, 6), I(9, 16), I(20, 40)))
    rep = draw(I(0, 5)) == 0
    img = [["r", (i // 2 if rep else i) + 500, 60 + ((i // 2) if rep else i)] for i in range(n)]
    c = {"params": p, "img": img, "cut": [q[2] for q in img], "tgt": {"d": []}}
    stores = []
    for j in range(draw(I(1, 2))):
        mix = draw(st.sampled_from(MIX))
        s = {"t": "http", "have": "none", "resp": {str(i): draw(reply(mix)) for i in range(n)}}
        if draw(I(0, 3)) == 0 and n > 9:
            # close to the limit
            left = draw(I(9, 12))
            for i in range(n):
                s["resp"][str(i)] = draw(reply([("hard", 4), ("dead", 2), ("missing", 1), ("odd", 1)] if left > 0 else [("ok", 3), ("flaky", 1), ("hard", 1)]))
                last = s["resp"][str(i)][-1]
                left -= last["st"] >= 400 and last["st"] not in (404, 410) or last["st"] == 0
                if draw(I(0, 30)) == 0:
                    left = draw(I(9, 12))
                    s["resp"][str(i)] = [{"st": 200}]
        if draw(I(0, 3)) == 0:
            s["key"] = draw(gen.hexkey)
        if draw(I(0, 1)):
            s["sg"] = draw(gen.segs)
        stores.append(s)
    fb = draw(I(0, 4))
    if fb in (0, 1, 2):
        stores.append({"t": "http", "have": "all"})
    elif fb == 3:
        stores.append({"t": "local", "d": [["i", 0, 1 << 40]], "hint": {"k": "image"}})
    for i, s in enumerate([s for s in stores if s["t"] == "http"]):
        s["u"] = ["http://a.example", "http://b.example/store", "http://c.example:8080/x/y"][i]
    c["stores"] = stores
    return c


def check_pauses(r):
    """Pauses between the attempts of one request: positive, doubling up to a bound."""
    seq, cur, last = [], [], None
    for e in r.events():
        if e[0] == "S":
            if cur:
                cur[-1][1] += int(e[1])
        elif e[0] == "H" and len(e) > 3:
            if cur and last == e[1] and int(cur[-1][2]) in xcase.TRANSIENT:
                cur.append([e[1], 0, e[3]])
            else:
                seq.append(cur)
                cur = [[e[1], 0, e[3]]]
            last = e[1]
    seq.append(cur)
    mx = max([p for s in seq for _, p, _ in s[:-1]] or [0])
    expect(mx <= 10_000_000, "a pause of %d us" % mx, r)
    for s in seq:
        ps = [p for _, p, _ in s[:-1]]
        for k, p in enumerate(ps):
            expect(p > 0, lambda: "attempt %d follows without a pause" % (k + 2), r)
            if k:
                expect(p == 2 * ps[k - 1] or (p == mx and ps[k - 1] <= p < 2 * ps[k - 1]),
                       lambda: "the pauses %s do not double up to a bound" % ps, r)
    return mx


def execute(ctx, case):
    x = xcase.X(case)
    x.setup(ctx)
    o = xcase.simulate(x)
    r = x.run(ctx)
    sane(r)
    final = ctx.read("target")
    if o.ambiguous:
        xcase.check_integrity(x, r, final)
    else:
        xcase.check_exact(x, r, o, final)
        check_pauses(r)
    lb = [l for l in xcase.labels_of(x, o, r) if not l.startswith("chunks")]
    n = max([s.errors for s in x.stores if s.kind == "http"] or [0])
    lb.append("failures:" + ("0" if n == 0 else "1-9" if n < 10 else str(n)))
    return {"nontrivial": not o.ambiguous and ("retry" in o.labels or bool(o.disabled)), "labels": lb}


# ------------------------------------------------------------- real transport

@st.composite
def real_cases(draw, tier):
    n = draw(I(1, 5))
    img = [["r", i + 700, draw(st.one_of(I(50, 300), I(1000, 30000), I(1000, 262144)))] for i in range(n)]
    c = {"img": img, "key": draw(st.one_of(st.none(), gen.hexkey)), "slash": draw(st.sampled_from(["", "/"])),
         "path": draw(st.sampled_from(["", "/s", "/a/b.d"])), "fallback": draw(I(0, 2))}
    resp = []
    stalls = 0
    for i in range(n):
        lst = []
        k = gen.wsample(draw, [("ok", 6), ("redir", 2), ("stall", 1), ("cut", 1), ("reset", 1), ("status", 1), ("headstall", 1)])
        if k in ("stall", "headstall") and stalls < 1:
            stalls += 1
            lst.append({"st": 200, "stall": draw(st.one_of(I(0, 10), I(0, 40000))) if k == "stall" else 0})
            k = "ok"
        elif k in ("stall", "headstall"):
            k = "ok"
        if k == "ok":
            lst.append({"st": 200})
        elif k == "redir":
            lst.append({"st": draw(st.sampled_from([301, 302, 303, 307, 308])), "to": draw(I(1, 3)), "body": draw(I(0, 1))})
        elif k == "cut":
            lst.append({"st": 200, "cut": draw(I(0, 60))})
        elif k == "reset":
            lst.append({"st": 200, "reset": 1})
        else:
            lst.append({"st": draw(st.sampled_from([404, 410, 403, 500, 204, 206]))})
        for b in lst:
            b["mode"] = draw(st.sampled_from(["cl", "chunked", "close"]))
            b["sg"] = draw(st.one_of(st.none(), st.lists(I(1, 5000), min_size=1, max_size=5)))
            b["ka"] = draw(I(0, 1))
        resp.append(lst)
    if any("cut" in b or "reset" in b or "stall" in b for l in resp for b in l):
        for l in resp:
            for b in l:
                b["ka"] = 0
    c["resp"] = resp
    if draw(I(0, 7)) == 0:
        c["refused"] = 1
    elif draw(I(0, 24)) == 7:
        # a server that takes its time, but never stops delivering
        i = draw(I(0, n - 1))
        c["img"][i] = ["r", i + 700, draw(I(2000, 60000))]
        resp[i] = [{"st": 200, "slow": draw(I(200, 450)), "sg": [c["img"][i][2] // draw(I(8, 12))], "mode": draw(st.sampled_from(["cl", "chunked", "close"])), "ka": 0}]
    return c


@st.composite
def slow_cases(draw, tier):
    """One chunk (of some) comes slowly, but steadily, for longer than any timeout for stalled transfers."""
    secs = 38 - draw(I(0, 35))
    n = draw(I(1, 3))
    img = [["r", i + 750, draw(I(2000, 60000))] for i in range(n)]
    pieces = secs * 3
    resp = [[{"st": 200, "mode": "cl", "ka": 1}] for _ in range(n)]
    i = draw(I(0, n - 1))
    resp[i] = [{"st": 200, "slow": 333, "sg": [img[i][2] // pieces], "mode": draw(st.sampled_from(["cl", "chunked", "close"])), "ka": 0}]
    return {"img": img, "key": draw(st.one_of(st.none(), gen.hexkey)), "slash": "", "path": "", "fallback": draw(st.sampled_from([0, 0, 1, 2])), "resp": resp}


def exec_real(ctx, case):
    srv = httpd.server()
    data = ref.expr(case["img"])
    ents, off = [], 0
    for p in case["img"]:
        d = ref.expr([p])
        ents.append((off, len(d), ref.sha(d), d))
        off += len(d)
    ctx.write("index.caibx", ref.caibx([(o + l, c) for o, l, c, _ in ents], [64, 128, 512]))
    ctx.write("target", b"")
    key = case["key"]
    sfx = ".cacnk.enc" if key else ".cacnk"
    script = {}
    want, ok, disabled, retried = [], True, False, False
    port = srv.deadport if case.get("refused") else srv.port
    arg = "http://127.0.0.1:%d%s%s" % (port, case["path"], case["slash"])
    if key:
        arg += "#encrypt=key:" + key
    args = [arg]
    if case["fallback"] == 1:
        ctx.write("seed", data)
        args.append("seed:index.caibx")
    elif case["fallback"] == 2:
        args.append("http://127.0.0.1:%d/fb" % srv.port)
    for i, (o, l, cid, d) in enumerate(ents):
        h = cid.hex()
        path = "%s/%s/%s%s" % (case["path"], h[:4], h, sfx)
        z = ref.zcompress(d)
        fbpath = "/fb/%s/%s.cacnk" % (h[:4], h)
        script[fbpath] = [{"st": 200, "body": z}]
        b = ref.xchacha20(z, bytes.fromhex(key), cid[:24]) if key else z
        lst = []
        got, perm = False, False
        reqs = []
        for k, e in enumerate(case["resp"][i]):
            e = dict(e, body=b if e["st"] == 200 else b"irrelevant" if e.get("body", 1) else b"")
            reqs.append(path)
            if "to" in e:
                cur = "/r%d" % i
                e["loc"] = cur + "_0"
                for j in range(e["to"]):
                    last = j == e["to"] - 1
                    script[cur + "_%d" % j] = [{"st": 200 if last else 302, "body": b if last else b"", "loc": cur + "_%d" % (j + 1), "mode": e["mode"], "sg": e["sg"]}]
                    reqs.append(cur + "_%d" % j)
                got = True
            elif "stall" in e:
                retried = True
            elif "cut" in e:
                if e["mode"] == "close" or e["cut"] >= len(b):
                    # the end of the body is not visible: an incomplete frame
                    got = e["cut"] >= len(b)
                    perm = False
                else:
                    perm = True
            elif e.get("reset"):
                perm = True
            elif e["st"] == 200:
                got = True
            lst.append(e)
        script[path] = lst
        if not disabled:
            if case.get("refused"):
                retried = True
            else:
                want += reqs
            if case.get("refused"):
                pass
            elif perm:
                disabled = True
            elif got:
                continue
        if case["fallback"] == 2:
            want.append(fbpath)
        elif not case["fallback"]:
            ok = False
            break
    srv.load(script)
    r = ctx.run("csn", ["csn", "index.caibx", "target"] + args, plan=[("lowspeed", 10 if any("slow" in e for l in case["resp"] for e in l) else 2)], wall=100)
    sane(r)
    log = list(srv.log)
    # libcurl may repeat a request on its own if a connection breaks before any response byte
    dedup = [p for i, p in enumerate(log) if i == 0 or p != log[i - 1]]
    wdedup = [p for i, p in enumerate(want) if i == 0 or p != want[i - 1]]
    final = ctx.read("target")
    expect(r.exit == (0 if ok else 1), lambda: "exit %s, expected %s; requests %s" % (r.exit, 0 if ok else 1, log), r)
    if ok:
        expect(final == data, "wrong content", r)
    expect(dedup == wdedup, lambda: "requests %s, expected %s" % (log, want), r)
    n = sum(1 for e in r.events() if e[0] == "H")
    if case.get("refused"):
        k = len(ents) if ok else 1
        expect(n - (len(ents) if case["fallback"] == 2 else 0) == 10 * k, lambda: "%d attempts at a refused connection for %d chunks" % (n, k), r)
    lb = ["exit%d" % r.exit] + [l for l, v in (("retried", retried), ("disabled", disabled), ("refused", case.get("refused"))) if v]
    for l in case["resp"]:
        for e in l:
            lb += [t for t in ("stall", "slow", "cut", "reset", "to") if t in e]
    return {"nontrivial": True, "labels": lb}


PARTS = [
    Part("history", cases, execute, quick=5000, thorough=120000),
    Part("slow", slow_cases, exec_real, quick=8, thorough=80),
    Part("server", real_cases, exec_real, quick=300, thorough=6000),
]
