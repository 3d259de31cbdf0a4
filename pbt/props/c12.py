"""C12: an HTTP response yields its chunk regardless of how it is delivered."""
import json

from hypothesis import strategies as st

from ..core import Part
from .. import gen, httpd, xcase
from ..world import expect, sane

LEVEL = "exploration"
RULE = ("extractions from one or two HTTP stores (plain and encrypted) with one generated response per chunk: zstd frames of all levels, with and without checksum "
        "and content size, block flushes, several frames per chunk (empty and skippable ones in between), delivered in generated "
        "segments (single bytes, pieces around the magic number, up to 16 KiB); mixed with responses that are not the chunk (other, changed, "
        "shorter, longer, truncated or oversized content, damaged frames, garbage, trailing garbage, wrong key, plaintext, statuses 2xx-5xx with a "
        "correct body). Oracle: outcome predicted with libzstd, SHA-256 and the reference XChaCha20; exact request sequence, exit status and target. Server part: the same through real libcurl and a real server (with length, chunked, closed). "
        "Non-trivial: some response was split into at least two pieces or consists of several frames, or a bad response preceded a good one.")
I = gen.I


@st.composite
def good(draw, n):
    """A body that decompresses to the chunk (of about n bytes)."""
    b = draw(gen.body_variant())
    if draw(I(0, 2)) == 0:
        b["fl"] = max(n // 200, draw(st.one_of(I(1, 60), I(1, max(1, n)))))
    if draw(I(0, 1)):
        k = draw(I(1, 5))
        fr = [draw(st.one_of(I(1, max(1, n)), I(0, 8)))]
        for _ in range(k):
            fr.append(draw(st.one_of(I(0, max(1, n // 2)), I(-40, 0), I(0, 20))))
        b["fr"] = fr
    return b


segs = st.one_of(st.none(), st.lists(st.one_of(I(1, 5), I(1, 40), I(1, 300), I(1000, 16384)), min_size=1, max_size=8), st.just([1]))


@st.composite
def response(draw, n):
    k = gen.wsample(draw, [("good", 12), ("lie", 3), ("cut", 1), ("tail", 1), ("status", 2), ("wrongkey", 1), ("fx", 1)])
    if k == "good":
        r = {"st": 200, "b": draw(good(n))}
    elif k == "lie":
        r = draw(gen.lie())
    elif k == "cut":
        r = {"st": 200, "b": dict(draw(good(n)), cutoff=draw(st.one_of(I(1, 8), I(1, max(1, n)))))}
    elif k == "tail":
        r = {"st": 200, "b": dict(draw(good(n)), tail=[["r", draw(gen.seed_i), draw(I(1, 400))]])}
    elif k == "status":
        r = {"st": draw(st.sampled_from([201, 204, 206, 203, 300, 301, 304, 404, 410, 403, 500, 503, 416])), "b": draw(good(n))}
    elif k == "wrongkey":
        r = {"st": 200, "b": dict(draw(good(n)), wk="11" * 32) if draw(I(0, 1)) else dict(draw(good(n)), enc=0)}
    else:
        b = draw(good(n))
        b["fx"] = [draw(I(0, 400)), draw(I(1, 255))]
        r = {"st": 200, "b": b}
    r["sg"] = draw(segs)
    return r


@st.composite
def cases(draw, tier):
    p = draw(gen.params())
    big = draw(I(0, 50)) == 0
    n = draw(I(1, 3 if big else 8))
    img, cut = [], []
    for i in range(n):
        ln = draw(st.sampled_from([262144, 262143, 131072, 100000])) if big else draw(st.one_of(I(1, 20), I(1, 2000), I(1, 12000)))
        img.append(["z", ln] if draw(I(0, 5)) == 0 else ["p", i, draw(I(1, 60)), ln] if draw(I(0, 3)) == 0 else ["r", i + 100, ln])
        cut.append(ln)
    c = {"params": p, "img": img, "cut": cut, "tgt": {"d": []}}
    stores = []
    for j in range(draw(I(1, 2))):
        s = {"t": "http", "have": "none"}
        if draw(I(0, 2)) == 0:
            s["key"] = draw(gen.hexkey)
        s["resp"] = {str(i): [draw(response(cut[i]))] for i in range(n)}
        stores.append(s)
    if draw(I(0, 2)) > 0:
        s = {"t": "http", "have": "all", "dflt": {"st": 200, "b": draw(good(cut[0]))}, "sg": draw(segs)}
        if draw(I(0, 3)) == 0:
            s["key"] = draw(gen.hexkey)
        stores.append(s)
    for i, s in enumerate(stores):
        s["u"] = ["http://a.example", "http://b.example/store", "http://c.example:8080/x/y"][i]
    c["stores"] = stores
    lv = draw(gen.loglevels)
    if lv:
        c["log"] = lv
    return c


def execute(ctx, case):
    x = xcase.X(case)
    x.setup(ctx)
    o = xcase.simulate(x)
    r = x.run(ctx)
    sane(r)
    final = ctx.read("target")
    lb = xcase.labels_of(x, o, r)
    if o.ambiguous:
        xcase.check_integrity(x, r, final)
    else:
        xcase.check_exact(x, r, o, final)
    split = multi = False
    asked = set(u for u, _, _ in o.requests)
    for s in x.stores:
        for cid, lst in s.resp.items():
            if s.url(cid) not in asked:
                continue
            d = lst[0]
            if d["st"] == 200 and len(d["body"]) > min((d["sg"] or [16384])[0], 16384):
                split = True
        for k in s.spec.get("resp", {}).values():
            if k[0].get("b", {}).get("fr"):
                multi = True
    bad = len(o.requests) > len(x.uniq)
    lb += [n for n, v in (("split", split), ("frames", multi), ("bad-response", bad)) if v]
    return {"nontrivial": not o.ambiguous and (split or multi or bad), "labels": lb}


# ------------------------------------------------------------- real transport

@st.composite
def real_cases(draw, tier):
    c = draw(cases(tier))
    c.pop("log", None)
    c["del"] = draw(st.lists(st.tuples(st.sampled_from(["cl", "chunked", "close"]), I(0, 1), st.sampled_from([0, 0, 1])).map(list), min_size=1, max_size=4))
    return c


def exec_real(ctx, case):
    srv = httpd.server()
    case = json.loads(json.dumps(case))
    for i, s in enumerate(case["stores"]):
        s["u"] = "http://127.0.0.1:%d/%d" % (srv.port, i)
    x = xcase.X(case)
    x.setup(ctx)
    o = xcase.simulate(x)
    host = "http://127.0.0.1:%d" % srv.port
    script, k = {}, 0
    for s in x.stores:
        for cid, lst in s.resp.items():
            mode, ka, pause = case["del"][k % len(case["del"])]
            k += 1
            b = {"st": lst[0]["st"], "body": lst[0]["body"], "mode": mode, "ka": ka, "sg": lst[0]["sg"]}
            if pause and b["sg"] and len(b["body"]) // min(b["sg"]) < 100:
                b["slow"] = 1
            script[s.url(cid)[len(host):]] = [b]
    srv.load(script)
    r = ctx.run("csn", ["csn", "index.caibx", "target"] + x.args(), plan=[("role", "target", "target")], env={"no_proxy": "*"}, wall=120)
    sane(r)
    log = list(srv.log)
    srv.load({})
    final = ctx.read("target")
    if o.ambiguous:
        xcase.check_integrity(x, r, final)
    else:
        expect(r.exit == o.exit, lambda: "exit %s, expected %s" % (r.exit, o.exit), r)
        expect(final == bytes(o.target), "wrong content of the target", r)
        want = [u[len(host):] for u, _, _ in o.requests]
        # libcurl may repeat a request on its own if a kept connection turns out to be closed
        log = [p for i, p in enumerate(log) if i == 0 or p != log[i - 1]]
        expect(log == want, lambda: "the server saw %s, expected %s" % (log[:5], want[:5]), r)
    return {"nontrivial": not o.ambiguous, "labels": ["real", "exit%d" % r.exit] + ["mode:" + d[0] for d in case["del"]] +
            (["big"] if any(len(l[0]["body"]) > 65536 for s in x.stores for l in s.resp.values()) else [])}


PARTS = [
    Part("responses", cases, execute, quick=6000, thorough=150000),
    Part("server", real_cases, exec_real, quick=800, thorough=16000),
]
