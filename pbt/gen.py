"""Hypothesis generators for extraction scenarios."""
from hypothesis import strategies as st

SMALL_PARAMS = [[48, 64, 96], [48, 100, 400], [64, 128, 512], [64, 200, 900], [100, 256, 1024], [256, 1024, 4096]]
DEFAULT_PARAMS = [16384, 65536, 262144]
# larger chunks, and bounds that exceed what chunks (of at most 256 KiB) make use of
LARGE_PARAMS = [DEFAULT_PARAMS, DEFAULT_PARAMS, [1000, 20000, 400000], [5000, 12000, 20000], [40000, 60000, 262145], [100, 9000, (1 << 32) - 1]]
WIDE_PARAMS = [[48, 100, 262145], [64, 200, 1 << 20], [256, 1024, (1 << 32) - 1], [48, 64, 1 << 31]]

I = st.integers
seed_i = I(0, 40)


def wsample(draw, pairs):
    """weighted choice"""
    tot = sum(w for _, w in pairs)
    k = draw(I(0, tot - 1))
    for v, w in pairs:
        if k < w:
            return v
        k -= w
    raise AssertionError


@st.composite
def params(draw, big=False):
    k = draw(I(0, 59))
    if k in (17, 37) or (big and k in (18, 19)):
        return list(draw(st.sampled_from(LARGE_PARAMS)))
    if k in (20, 21, 22):
        return list(draw(st.sampled_from(WIDE_PARAMS)))
    return list(draw(st.sampled_from(SMALL_PARAMS)))


def scale_of(p):
    """typical chunk size, kept such that what is made of a few chunks stays manageable"""
    return min(p[1], 20000)


@st.composite
def pieces(draw, scale, maxn=5, minn=0):
    out = []
    for _ in range(draw(I(minn, maxn))):
        k = wsample(draw, [("r", 6), ("z", 2), ("p", 1), ("b", 1)])
        n = draw(I(1, 8 * scale))
        if k == "r":
            out.append(["r", draw(seed_i), n])
        elif k == "z":
            out.append(["z", n])
        elif k == "b":
            out.append(["b", draw(I(1, 255)), n])
        else:
            out.append(["p", draw(seed_i), draw(I(1, 60)), n])
    return out


@st.composite
def image(draw, p, maxpieces=5, cuts=True, repeat=True):
    """(img, cut)"""
    mode = wsample(draw, [("cdc", 3), ("cuts", 2 if cuts else 0)])
    if mode == "cdc":
        im = draw(pieces(scale_of(p), maxpieces))
        if p[1] >= 5000 and draw(I(0, 1)):
            # chunks of maximal size
            im.insert(draw(I(0, len(im))), ["z", min(p[2], 262144) * draw(I(1, 3)) + draw(I(0, 3)) * 1000])
        if scale_of(p) < 300 and draw(I(0, 39)) == 11:
            # many chunks
            n = scale_of(p) * draw(I(40, 1500))
            im.insert(draw(I(0, len(im))), ["z", n] if draw(I(0, 4)) == 0 else ["r", draw(seed_i), n])
        if repeat and im and draw(I(0, 3)) == 0:
            im = im + im
        if draw(I(0, 9)) == 3:
            # a round size
            im = im + [["r", draw(seed_i), -sum(pc[-1] for pc in im) % (1 << draw(I(9, 14)))]]
        return im, "cdc"
    # arbitrary cuts; repeats of whole chunks are frequent
    im, cut = [], []
    n = draw(I(0, 14))
    vocab = []
    if draw(I(0, 24)) == 7 or (p[1] >= 5000 and draw(I(0, 2)) == 0):
        # large chunks, up to the maximum
        for i in range(draw(I(1, 3))):
            ln = draw(st.sampled_from([262144, 262144, 262143, 131072, 200000, 65536, 65537]))
            pc = im[-1] if im and draw(I(0, 3)) == 0 else ["z", ln] if draw(I(0, 4)) == 0 else ["r", draw(I(0, 1000)), ln]
            im.append(pc)
            cut.append(pc[-1])
        n = draw(I(0, 4))
    for _ in range(n):
        if vocab and draw(I(0, 2)) == 0:
            pc = vocab[draw(I(0, len(vocab) - 1))] if draw(st.booleans()) else vocab[-1]
        else:
            ln = wsample(draw, [("min", 3), ("any", 3), ("big", 1), ("tiny", 1)])
            top = min(p[2], 20 * scale_of(p))
            ln = p[0] if ln == "min" else draw(I(1, top)) if ln == "any" else draw(I(top, 3 * top)) if ln == "big" else draw(I(1, 8))
            ln = min(ln, 262144)
            pc = ["z", ln] if draw(I(0, 5)) == 0 else ["r", draw(I(0, 1000)), ln]
        vocab.append(pc)
        im.append(pc)
        cut.append(pc[-1])
    return im, cut


@st.composite
def contents(draw, scale, maxn=7, corrupt=True):
    """Data derived from the image's chunks: what a seed or an old target may hold."""
    out = []
    for _ in range(draw(I(0, maxn))):
        k = wsample(draw, [("k", 8), ("r", 2), ("z", 1), ("kx", 2 if corrupt else 0), ("kp", 1), ("i", 2)])
        if k == "k":
            a, n = draw(I(0, 30)), draw(I(1, 6))
            out += [["k", a + j] for j in range(n)]
        elif k == "r":
            out.append(["r", draw(seed_i), draw(I(1, 4 * scale))])
        elif k == "z":
            out.append(["z", draw(I(1, 4 * scale))])
        elif k == "kx":
            out.append(["kx", draw(I(0, 30)), draw(I(0, 5000)), draw(I(1, 255))])
        elif k == "kp":
            out.append(["kp", draw(I(0, 30)), draw(I(1, 2 * scale))])
        else:
            out.append(["i", draw(I(0, 8 * scale)), draw(I(1, 12 * scale))])
    if draw(I(0, 9)) == 3:
        out.append(["al", 1 << draw(I(6, 13)), draw(seed_i)])
    return out


@st.composite
def target_data(draw, scale):
    k = wsample(draw, [("empty", 3), ("prefix", 4), ("mix", 4), ("garbage", 2), ("same", 1)])
    tail = [["r", 99, draw(I(0, 3 * scale))]] if draw(st.booleans()) else []
    if k == "empty":
        return []
    if k == "same":
        return [["i", 0, 1 << 40]] + tail
    if k == "prefix":
        d = [["pre", draw(I(0, 40)) if draw(I(0, 7)) else draw(I(0, 2000))]]
        m = draw(I(0, 3))
        if m == 1:
            d.append(["kp", draw(I(0, 30)), draw(I(1, scale))])
        elif m == 2:
            d.append(["r", 98, draw(I(1, 20 * scale))])
        elif m == 3:
            d += [["kx", 0, draw(I(0, 2000)), draw(I(1, 255))], ["k", 1], ["k", 2]]
        return d + tail
    if k == "mix":
        return draw(contents(scale)) + tail
    return [["r", 97, draw(I(0, 30 * scale))]]


@st.composite
def hint(draw, scale, good_only=False):
    k = wsample(draw, [("cdc", 4), ("pieces", 4), ("of", 0 if good_only else 2), ("image", 0 if good_only else 2),
                       ("raw", 0 if good_only else 1), ("missing", 0 if good_only else 1), ("dir", 0 if good_only else 1)])
    h = {"k": k}
    if k == "of":
        h["d"] = draw(contents(scale, 4))
    elif k == "raw":
        h["d"] = draw(pieces(60, 3))
    if good_only or k in ("raw", "missing", "dir"):
        return h
    m = wsample(draw, [("none", 5), ("mod", 5), ("params", 1), ("trunc", 1), ("flip", 1)])
    if m == "mod":
        mods = []
        for _ in range(draw(I(1, 3))):
            mk = wsample(draw, [("id", 2), ("flip", 2), ("end", 2), ("shift", 2), ("drop", 2), ("dup", 1), ("swap", 2), ("zero", 1), ("gap", 2)])
            if mk == "gap":
                mods.append([mk, draw(I(0, 30)), draw(I(1, 3)), draw(st.sampled_from([1, 48, 262145, 1 << 31, (1 << 32) - 1]))])
            elif mk == "flip":
                mods.append([mk, draw(I(0, 30)), draw(I(0, 31)), draw(I(0, 7))])
            elif mk in ("end", "shift", "dup"):
                mods.append([mk, draw(I(0, 30)), draw(st.sampled_from([-1, 1, -48, 48, 4096, 262144, 300000, 1 << 31, 1 << 32, 1 << 40]))
                             if draw(st.booleans()) else draw(I(-200, 200))])
            elif mk in ("drop", "zero"):
                mods.append([mk, draw(I(0, 30))])
            else:
                mods.append([mk, draw(I(0, 30)), draw(I(0, 30))])
        h["mod"] = mods
    elif m == "params":
        h["params"] = draw(st.sampled_from([[47, 100, 400], [64, 128, 513], [16384, 65536, 262144], [0, 1, 2], [10, 10, 10]]))
    elif m == "trunc":
        h["trunc"] = draw(st.sampled_from([1, 8, 20, 39, 41, 100]))
    elif m == "flip":
        h["flip"] = draw(I(0, 13))
    return h


# how often "./" is put in front of a name; at around 60, names reach the 128 bytes kept of a store's name
long_prefix = st.one_of(I(50, 70), st.sampled_from([120, 126, 127, 128, 500, 1500]), I(1, 1800))


@st.composite
def local_store(draw, scale, hints="any", missing=False):
    s = {"t": "local"}
    w = draw(I(0, 11))
    if w == 0:
        s["d"] = []
    elif w == 1:
        s["d"] = [["r", draw(seed_i), draw(I(1, 47))]]
    elif w in (2, 3):
        s["d"] = [["i", 0, 1 << 40]]
    else:
        s["d"] = draw(contents(scale))
    if hints != "none" and draw(I(0, 2)) == 0:
        s["hint"] = draw(hint(scale, hints == "good"))
    if draw(I(0, 5)) == 0:
        s["blk"] = 1
    if draw(I(0, 29)) == 29:
        s["long"] = draw(long_prefix)
    if missing and draw(I(0, 25)) == 0:
        s["missing"] = 1
        s.pop("hint", None)
    return s


segs = st.one_of(st.none(), st.lists(st.one_of(I(1, 6), I(1, 200), I(1000, 16384)), min_size=1, max_size=4))

hexkey = st.sampled_from(["00" * 32, "ff" * 32, "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f",
                          "8f1C2d3e4B5a69788796a5b4c3d2e1f00f1e2d3c4b5a69788796a5b4c3d2e1f0"])


@st.composite
def body_variant(draw):
    b = {}
    if draw(I(0, 1)):
        b["lv"] = draw(st.sampled_from([1, 3, 9, 19, -5]))
    if draw(I(0, 2)) == 0:
        b["ck"] = 1
    if draw(I(0, 2)) == 0:
        b["cs"] = 0
    if draw(I(0, 4)) == 0:
        # streamed, so that the window is that of the level (or an explicitly chosen one) rather than that of the data
        b["wl"] = draw(st.sampled_from([0, 0, 0, 10, 16, 21, 23, 24]))
        if b.get("lv", 3) > 9:
            b["lv"] = 9
    if draw(I(0, 19)) == 19:
        b["did"] = draw(I(1, 3))
    return b


@st.composite
def http_store(draw, have="any", crypt=True, lies=False, errors=False):
    s = {"t": "http"}
    h = wsample(draw, [("all", 4), ("none", 1), ("some", 4)]) if have == "any" else have
    s["have"] = h if h != "some" else draw(I(0, (1 << 24) - 1))
    s["sg"] = draw(segs)
    if crypt and draw(I(0, 3)) == 0:
        s["key"] = draw(hexkey)
    if draw(I(0, 3)) == 0:
        s["slash"] = "/"
    s["dflt"] = {"st": 200, "b": draw(body_variant())}
    resp = {}
    if lies:
        for _ in range(draw(I(0, 4))):
            resp[str(draw(I(0, 12)))] = [draw(lie())]
    if errors:
        for _ in range(draw(I(0, 4))):
            resp[str(draw(I(0, 12)))] = draw(flaky())
    if resp:
        s["resp"] = resp
    return s


@st.composite
def lie(draw):
    """A response that is not the requested chunk."""
    k = draw(st.sampled_from(["other", "bad", "short", "long", "zeros", "raw", "plain", "empty", "ok-cut", "ok-fx"]))
    b = {"k": k}
    if k == "other":
        b["j"] = draw(I(0, 30))
    elif k == "bad":
        b["at"], b["x"] = draw(I(0, 5000)), draw(I(1, 255))
    elif k in ("short", "long"):
        b["by"] = draw(st.one_of(I(1, 4), I(1, 3000)))
    elif k == "zeros":
        b["by"] = draw(st.sampled_from([0, 1, 262143, 262144, 262145, 300000]))
    elif k == "raw":
        b["d"] = [["r", draw(seed_i), draw(I(0, 300))]]
    elif k == "ok-cut":
        b["k"] = "ok"
        b["keep"] = draw(I(0, 30))
    elif k == "ok-fx":
        b["k"] = "ok"
        b["fx"] = [draw(I(0, 400)), draw(I(1, 255))]
    b.update(draw(body_variant()))
    if draw(I(0, 5)) == 0:
        b["tail"] = [["r", draw(seed_i), draw(I(1, 100))]]
    return {"st": 200, "b": b}


@st.composite
def flaky(draw):
    """A sequence of responses, transient failures first; the last one repeats."""
    out = []
    n = wsample(draw, [(0, 2), (1, 3), (2, 2), (3, 1), (8, 1), (9, 2), (10, 2), (11, 1), (20, 1)])
    for _ in range(n):
        if draw(I(0, 2)) == 0:
            out.append({"st": 200, "cc": 28, "dl": draw(st.one_of(I(0, 8), I(0, 500)))})
        else:
            out.append({"st": 0, "cc": draw(st.sampled_from([6, 7, 28]))})
    f = wsample(draw, [("ok", 5), ("404", 1), ("410", 1), ("500", 2), ("403", 1), ("56", 1)])
    if f == "ok":
        out.append({"st": 200})
    elif f == "56":
        out.append({"st": 0, "cc": draw(st.sampled_from([56, 52, 18, 35]))})
    else:
        out.append({"st": int(f), "b": draw(st.sampled_from([False, {"k": "raw", "d": [["r", 1, 40]]}]))})
    return out


loglevels = st.sampled_from(["", "", "", "", "debug", "info", "warn", "err", "bogus", "error"])


@st.composite
def extraction(draw, locals_=2, https=2, hints="any", lies=False, errors=False, targets=True, full=None, cuts=True,
               crypt=True, missing=False, blk=True, big=False, alias=False, closed=False):
    p = draw(params(big))
    im, cut = draw(image(p, cuts=cuts))
    scale = scale_of(p)
    c = {"params": p, "img": im, "cut": cut}
    tg = {"d": draw(target_data(scale))}
    if blk and draw(I(0, 4)) == 0:
        tg["blk"] = 1
    if missing and draw(I(0, 40)) == 0:
        tg["missing"] = 1
        tg.pop("d")
    if draw(I(0, 39)) == 39:
        tg["long"] = draw(long_prefix)
    c["tgt"] = tg
    stores = []
    for _ in range(draw(I(0, locals_))):
        stores.append(draw(local_store(scale, hints, missing)))
    if targets and draw(I(0, 2)) == 0:
        stores.insert(draw(I(0, len(stores))), {"t": "target"})
    if alias and draw(I(0, 3)) == 0:
        stores.insert(draw(I(0, len(stores))), {"t": "alias"})
    nh = draw(I(0, https))
    for i in range(nh):
        pos = len(stores) if draw(I(0, 2)) else draw(I(0, len(stores)))
        stores.insert(pos, draw(http_store(crypt=crypt, lies=lies, errors=errors)))
    f = full if full is not None else draw(I(0, 2)) > 0
    if (f or not stores) and https:
        stores.append(draw(http_store(have="all", crypt=crypt)))
    if not stores:
        stores.append({"t": "local", "d": [["i", 0, 1 << 40]]})
    long = draw(I(0, 5)) == 0
    for i, s in enumerate([s for s in stores if s["t"] == "http"]):
        s["u"] = ("http://mirror.example.org/images/some-product/releases/2026-11/channel-stable/default.castr/v%d" % i if long else
                  ["http://a.example", "http://b.example/store", "http://c.example:8080/x/y", "http://d.example/d"][i % 4])
    c["stores"] = stores
    lv = draw(loglevels)
    if lv:
        c["log"] = lv
    if draw(I(0, 5)) == 0:
        c["tty"] = 1
    if closed and draw(I(0, 11)) == 0:
        c["cl"] = draw(closed_fds)
    return c


# standard descriptors that are closed when the program starts
closed_fds = st.sampled_from([[0], [1], [2], [0, 1], [0, 2], [1, 2], [0, 1, 2]])
