"""C23: HTTP requests follow the casync store layout."""
import json

from hypothesis import strategies as st

from ..core import Part
from .. import gen, httpd, ref, xcase
from ..world import expect, sane

LEVEL = "exploration"
RULE = ("extractions from one to five HTTP stores whose base URLs are generated (scheme, host, port, path of 0 to many segments, up to 4000 characters, "
        "characters of all URL classes, with and without trailing slash and empty fragment), any of them encrypted (key from key:, env: or file:), some sharing "
        "the same base, any distribution of the chunks over them; chunk IDs with leading zeros, ff and shared prefixes, and IDs no store has. "
        "Oracle: the exact sequence of requested URLs built by the documented layout, the target and the exit status. Server part: the paths a real HTTP "
        "server on the loopback interface sees. Non-trivial: at least two stores or an unusual URL (trailing slash, path, port, fragment, over 200 characters).")
I = gen.I

PATHCH = "abcXYZ0189-._~!$&'()*+;=:@%2F"


def _special():
    """(seed) of 60-byte pieces whose IDs start with particular digits"""
    want = {"00": [], "0": [], "ff": [], "f0": [], "0f": [], "a": []}
    pairs = {}
    for n in range(2000, 6000):
        h = ref.sha(ref.rnd_bytes(n, 60)).hex()
        for k, l in want.items():
            if h.startswith(k):
                l.append(n)
        pairs.setdefault(h[:4], []).append(n)
    out = [n for l in want.values() for n in l[:12]]
    return out, [l[:2] for l in pairs.values() if len(l) > 1][:20]


SPECIAL = None


def special():
    global SPECIAL
    if SPECIAL is None:
        SPECIAL = _special()
    return SPECIAL


def segment(n):
    return st.text(PATHCH, min_size=1, max_size=n).filter(lambda s: s.strip(".") and "%" not in s or "%2F" in s and s.count("%") == s.count("%2F"))


@st.composite
def base(draw):
    u = draw(st.sampled_from(["http://", "http://", "http://", "https://"]))
    u += draw(st.sampled_from(["", "", "", "user:pw@"]))
    u += draw(st.sampled_from(["a.example", "b.example", "h", "127.0.0.1", "[::1]", "x" * 60 + ".example", "UPPER.example"]))
    u += draw(st.sampled_from(["", "", ":80", ":8080", ":65535", ":1"]))
    k = draw(I(0, 9))
    if k < 3:
        pass
    elif k < 8:
        u += "".join("/" + draw(segment(12)) for _ in range(draw(I(1, 4))))
    elif k == 8:
        u += "/" + "p" * draw(st.one_of(I(1, 300), st.sampled_from([127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4000])))
    else:
        u += draw(st.sampled_from(["/s//t", "/x/default.castr", "/http://inner/x", "/a:b", "/.cacnk", "/0000", "/s?q=1", "/encrypt=key:x"]))
    return u


@st.composite
def chunks(draw):
    img = []
    sp, pairs = special()
    for _ in range(draw(I(1, 6))):
        k = draw(I(0, 5))
        if k < 2:
            img.append(["r", draw(st.sampled_from(sp)), 60])
        elif k == 2:
            img += [["r", n, 60] for n in draw(st.sampled_from(pairs))]
        else:
            img.append(["r", draw(I(0, 1000)), draw(I(30, 90))])
    return img


anyid = st.one_of(st.sampled_from(["00" * 32, "ff" * 32, "0f" * 32, "0123456789abcdef" * 4, "80" + "00" * 31, "0a" * 32, "25" * 32]),
                  st.binary(min_size=32, max_size=32).map(bytes.hex))


@st.composite
def cases(draw, tier):
    img = draw(chunks())
    c = {"params": [48, 64, 96], "img": img, "cut": [p[2] for p in img], "tgt": {"d": []}}
    stores, bases = [], []
    n = draw(I(1, 5))
    for j in range(n):
        s = {"t": "http"}
        b = draw(st.sampled_from(bases)) if bases and draw(I(0, 3)) == 0 else draw(base())
        bases.append(b)
        s["u"] = b
        s["slash"] = draw(st.sampled_from(["", "", "/"]))
        s["have"] = draw(st.one_of(I(0, 255), st.just("all"))) if j < n - 1 else "all"
        if draw(I(0, 1)):
            s["key"] = draw(gen.hexkey)
            s["ksrc"] = draw(st.sampled_from(["key", "key", "env", "file"]))
        elif draw(I(0, 5)) == 0:
            s["hash"] = 1
        stores.append(s)
    c["stores"] = stores
    if draw(I(0, 3)) == 0:
        c["emod"] = [["set", len(c["cut"]) - 1, draw(anyid)]]
    return c


def args(ctx, stores, env):
    for i, s in enumerate(stores):
        arg = s["u"] + s["slash"]
        if s.get("key"):
            if s["ksrc"] == "key":
                arg += "#encrypt=key:" + s["key"]
            elif s["ksrc"] == "env":
                env["KEY%d" % i] = s["key"]
                arg += "#encrypt=env:KEY%d" % i
            else:
                ctx.write("key%d" % i, (s["key"] + "\n").encode())
                arg += "#encrypt=file:key%d" % i
        elif s.get("hash"):
            arg += "#"
        s["arg"] = arg


def unify(x):
    """Stores that share a base are one place: both have the union of what was put there, as long as the names differ."""
    seen = {}
    for s in x.stores:
        key = (s.base, s.suffix)
        if key in seen:
            o = seen[key]
            # the first one decides
            s.resp = o.resp if s.spec.get("key") == o.spec.get("key") else None
            if s.resp is None:
                return False
        else:
            seen[key] = s
    return True


def execute(ctx, case):
    env = {}
    case = json.loads(json.dumps(case))
    args(ctx, case["stores"], env)
    x = xcase.X(case)
    if not unify(x):
        return {"nontrivial": False, "labels": ["two keys for one place"]}
    x.setup(ctx)
    o = xcase.simulate(x)
    r = x.run(ctx, env=env)
    sane(r)
    xcase.check_exact(x, r, o, ctx.read("target"))
    for u in r.requests():
        expect("#" not in u and "encrypt" not in u.replace("/encrypt=key:x", ""), lambda: "the fragment is sent: %s" % u, r)
    lb = []
    ss = case["stores"]
    for name, v in (("slash", any(s["slash"] for s in ss)), ("long", any(len(s["u"]) > 200 for s in ss)), ("path", any(s["u"].count("/") > 2 for s in ss)),
                    ("mixed", len({bool(s.get("key")) for s in ss}) > 1), ("encrypted", any(s.get("key") for s in ss)),
                    ("shared-base", len({s["u"] for s in ss}) < len(ss)), ("unknown-id", o.exit == 1), ("stores:%d" % len(ss), True)):
        if v:
            lb.append(name)
    return {"nontrivial": len(ss) > 1 or bool({"slash", "long", "path"} & set(lb)), "labels": lb}


# ------------------------------------------------------------- real transport

@st.composite
def real_cases(draw, tier):
    img = draw(chunks())
    c = {"params": [48, 64, 96], "img": img, "cut": [p[2] for p in img], "tgt": {"d": []}}
    stores = []
    n = draw(I(1, 4))
    for j in range(n):
        s = {"t": "http", "path": "".join("/" + draw(segment(10)) for _ in range(draw(I(0, 3)))), "slash": draw(st.sampled_from(["", "/"])),
             "have": draw(I(0, 255)) if j < n - 1 else "all", "host": draw(st.sampled_from(["127.0.0.1", "127.0.0.1", "localhost"]))}
        if draw(I(0, 9)) == 0:
            s["path"] += "/" + "q" * draw(I(100, 3000))
        s["path"] = "/%d" % j + s["path"] if draw(I(0, 2)) else s["path"]
        if draw(I(0, 1)):
            s["key"] = draw(gen.hexkey)
            s["ksrc"] = draw(st.sampled_from(["key", "env", "file"]))
        stores.append(s)
    c["stores"] = stores
    return c


def exec_real(ctx, case):
    srv = httpd.server()
    env = {"no_proxy": "*"}
    case = json.loads(json.dumps(case))
    for s in case["stores"]:
        s["u"] = "http://%s:%d%s" % (s["host"], srv.port, s["path"])
    args(ctx, case["stores"], env)
    x = xcase.X(case)
    if not unify(x) or len({(s["path"], bool(s.get("key"))) for s in case["stores"]}) < len(case["stores"]):
        return {"nontrivial": False, "labels": ["shared place"]}
    x.setup(ctx)
    o = xcase.simulate(x)
    script = {}
    pre = {}
    for s in x.stores:
        host = s.base[:len(s.base) - len(s.spec["path"])]
        pre[host] = 1
        for cid, lst in s.resp.items():
            script[s.url(cid)[len(host):]] = [{"st": 200, "body": lst[0]["body"], "ka": 1}]
    srv.load(script)
    r = ctx.run("csn", ["csn", "index.caibx", "target"] + x.args(), plan=[("role", "target", "target")], env=env, wall=120)
    sane(r)
    log = list(srv.log)
    srv.load({})
    want = []
    for u, _, _ in o.requests:
        host = next(h for h in pre if u.startswith(h))
        want.append(u[len(host):])
    expect(r.exit == o.exit and ctx.read("target") == bytes(o.target), "extraction fails", r)
    expect(log == want, lambda: "the server saw %s, expected %s" % (log[:5], want[:5]), r)
    return {"nontrivial": len(case["stores"]) > 1 or bool(case["stores"][0]["path"] or case["stores"][0]["slash"]), "labels": ["real", "stores:%d" % len(case["stores"])]}


PARTS = [
    Part("urls", cases, execute, quick=6000, thorough=150000),
    Part("server", real_cases, exec_real, quick=600, thorough=12000),
]
