"""C21: chunk lookup is exact however many chunks there are and in whatever order."""
import random

from hypothesis import strategies as st

from ..core import Part
from .. import api, gen, ref, xcase
from ..world import expect, sane

LEVEL = "exploration"
RULE = ("end-to-end part: seeds with up to 4000 chunks in a generated order (scanned, with far more chunks than the average size suggests, or side-loaded with "
        "entries whose IDs differ from real ones in one bit, and with duplicates), images that ask for them in another order, interleaved with chunks only a server has, with the target as "
        "further store; exit status, target and the exact requests against the model, a right hint must not lead to a scan. API part: model-based histories of recordings and lookups on the index (a dictionary is the model), with "
        "initial capacities from 0 on, interleaved, IDs drawn from families that share all but one bit or byte, duplicates. Non-trivial: more than 8 chunks (recordings) "
        "and at least one successful lookup after the initial capacity was exceeded, a near-duplicate ID, or at least 100 chunks.")
I = gen.I


@st.composite
def cases(draw, tier):
    c = {"rs": draw(I(0, 1 << 30)), "mode": draw(st.sampled_from(["scan", "scan", "scan-short", "hint", "hint"])),
         "n": draw(st.one_of(I(1, 12), I(8, 80), I(50, 400), I(300, 1500 if tier == "quick" else 4000) if draw(I(0, 3)) == 0 else I(1, 40))),
         "p": draw(st.sampled_from([[48, 64, 96], [48, 100, 400], [64, 128, 512], [48, 1000, 4000]])),
         "near": draw(I(0, 6)), "dups": draw(I(0, 3)), "absent": draw(st.sampled_from([0, 0, 1, 2, 10])),
         "tgt": draw(st.sampled_from(["none", "none", "first", "last"])), "two": draw(I(0, 3)) == 0,
         "rep": draw(st.sampled_from([0, 0, 1, 5])), "pre": draw(st.sampled_from([0, 0, 1, 7])),
         "http": draw(I(0, 3)) > 0, "hone": draw(I(0, 9)) == 0}
    return c


def execute(ctx, case):
    rs = random.Random(case["rs"])
    p = case["p"] if case["mode"] != "scan-short" else [48, 1000, 4000]
    n = case["n"]
    # distinct chunks as the chunker cuts them: cutting is independent of what comes before
    chunks = []
    k = 0
    while len(chunks) < n + case["absent"]:
        d = ref.rnd_bytes(case["rs"] % 1000 + 7 * k, 65536)
        k += 1
        for off, ln, cid in ref.chunk(d, p)[:-1]:
            if case["mode"] == "scan-short" and ln > 250:
                continue
            chunks.append(d[off:off + ln])
            if len(chunks) == n + case["absent"]:
                break
    have, absent = chunks[:n], chunks[n:]
    order = list(have)
    rs.shuffle(order)
    for _ in range(case["dups"]):
        order.insert(rs.randrange(len(order) + 1), rs.choice(have))
    img = list(have) + [rs.choice(have) for _ in range(case["rep"])]
    rs.shuffle(img)
    for a in absent:
        img.insert(rs.randrange(len(img) + 1), a)
    image = b"".join(img)
    ctx_img = image
    seed = b"".join(order)
    hint = None
    ents = None
    if case["mode"] == "hint":
        # fillers between the chunks, listed under IDs that differ from real ones in one bit
        raw, out, pos = [], [], 0
        nears = {}
        for _ in range(case["near"]):
            nears.setdefault(rs.randrange(len(order)), []).append(rs.choice(img))
        for i, d in enumerate(order):
            for o in nears.get(i, ()):
                f = rs.randbytes(rs.randrange(48, 90))
                cid = bytearray(ref.sha(o))
                bit = rs.choice([0, 7, 248, 255, rs.randrange(256), rs.randrange(256)])
                cid[bit // 8] ^= 1 << (bit % 8)
                out.append(f)
                pos += len(f)
                raw.append((pos, bytes(cid)))
            out.append(d)
            pos += len(d)
            raw.append((pos, ref.sha(d)))
        seed = b"".join(out)
        hint = ref.caibx(raw, p)
        last = 0
        ents = []
        for e, cid in raw:
            ents.append((last, e - last, cid))
            last = e
    spec = {"params": p, "img": [], "cut": "cdc", "tgt": {}, "stores": []}
    x = xcase.X(spec)
    x.image = ctx_img
    off = 0
    x.entries = []
    for d in img:
        x.entries.append((off, len(d), ref.sha(d)))
        x.content[x.entries[-1][2]] = d
        off += len(d)
    x.chunks = list(x.entries)
    x.extent = off
    x.uniq = list(dict.fromkeys(c for _, _, c in x.entries))
    x.index = ref.caibx([(o + l, c) for o, l, c in x.entries], p)
    x.tgt0 = image[:sum(l for _, l, _ in x.entries[:case["pre"]])]
    parts = [(seed, hint, ents)]
    if case["two"] and case["mode"] != "hint":
        # cut at a chunk boundary
        m = sum(map(len, order[:len(order) // 2]))
        parts = [(seed[:m], None, None), (seed[m:], None, None)]
    for i, (d, h, e) in enumerate(parts):
        s = xcase.LocalStore({"t": "local", "d": [], "hint": {"k": "cdc"} if h else None}, d, e, p, "seed%d" % i)
        s.name = s.role
        s.hint_bytes = h
        x.stores.append(s)
    if case["tgt"] == "first":
        x.stores.insert(0, xcase.TargetStore({"t": "target"}))
    elif case["tgt"] == "last":
        x.stores.append(xcase.TargetStore({"t": "target"}))
    if case["http"]:
        s = xcase.HttpStore({"t": "http", "have": "all"}, "http://a.example", ".cacnk")
        s.arg = "http://a.example"
        pool = absent if not case["hone"] else absent[:-1]
        for d in pool:
            s.resp[ref.sha(d)] = [{"st": 200, "cc": 0, "body": ref.zcompress(d, 1, 0, 1, 0), "dl": -1, "sg": None}]
        x.stores.append(s)
    x.setup(ctx)
    r = x.run(ctx)
    sane(r)
    o = xcase.simulate(x)
    final = ctx.read("target")
    expect(not o.ambiguous, "the model is unsure: %s" % o.ambiguous)
    xcase.check_exact(x, r, o, final)
    if case["mode"] == "hint":
        expect(not r.reads("seed0"), "the seed was scanned although everything that was looked up is right in the side-loaded index", r)
    lb = [case["mode"], "exit%d" % r.exit, "n:%s" % ("<9" if n < 9 else "<100" if n < 100 else "<1000" if n < 1000 else "1000+")]
    if case["mode"] == "hint" and case["near"]:
        lb.append("near-ids")
    if case["tgt"] != "none":
        lb.append("target-store")
    over = case["mode"] == "scan-short"
    return {"nontrivial": n > 8 and (over or n >= 100 or "near-ids" in lb), "labels": lb}


@st.composite
def api_cases(draw, tier):
    return {"rs": draw(I(0, 1 << 40)), "cap": draw(st.sampled_from([0, 1, 2, 3, 5, 10, 100])),
            "n": draw(st.one_of(I(1, 30), I(1, 200), I(100, 3000) if draw(I(0, 4)) == 0 else I(1, 50))),
            "fam": draw(st.sampled_from([1, 2, 5, 1000])), "pq": draw(st.sampled_from([0, 5, 50, 90])),
            "dup": draw(st.sampled_from([0, 0, 10, 40])), "reinit": draw(I(0, 3)) == 0}


def exec_api(ctx, case):
    rs = random.Random(case["rs"])
    base = [rs.randbytes(32) for _ in range(case["fam"])]
    if case["fam"] < 1000:
        base += [b"\0" * 32, b"\xff" * 32, b"\x7f" * 32, b"\x80" * 32]

    def new_id():
        b = bytearray(rs.choice(base))
        k = rs.randrange(4)
        if k == 0:
            bit = rs.randrange(256)
            b[bit // 8] ^= 1 << (bit % 8)
        elif k == 1:
            b[rs.choice([0, 3, 4, 7, 8, 15, 16, 30, 31])] = rs.randrange(256)
        elif k == 2:
            b[rs.randrange(32)] ^= 0x80
        return bytes(b)
    lines, want = ["idx %d" % case["cap"]], ["idx 1"]
    model = {}
    hits = over = 0
    for i in range(case["n"]):
        if case["reinit"] and i == case["n"] // 2:
            lines.append("idx %d" % rs.randrange(4))
            want.append("idx 1")
            model = {}
        if rs.randrange(100) < case["pq"]:
            cid = rs.choice(list(model)) if model and rs.randrange(2) else new_id()
            lines.append("q " + cid.hex())
            want.append(["q %d %d own" % e for e in model[cid]] if cid in model else "q -")
            hits += cid in model
        else:
            cid = rs.choice(list(model)) if model and rs.randrange(100) < case["dup"] else new_id()
            if cid in model and rs.randrange(100) >= case["dup"]:
                continue
            e = (rs.choice([i * 100, rs.getrandbits(40), (1 << 32) - 1 + rs.randrange(3)]), rs.choice([1, 262144, rs.randrange(1, 1 << 32), (1 << 32) - 1]))
            lines.append("ins %d %d %s" % (*e, cid.hex()))
            model.setdefault(cid, []).append(e)
            over += 1
    for cid in rs.sample(list(model), min(len(model), 40)):
        lines.append("q " + cid.hex())
        want.append(["q %d %d own" % e for e in model[cid]])
        hits += 1
        # its neighbours
        b = bytearray(cid)
        bit = rs.randrange(256)
        b[bit // 8] ^= 1 << (bit % 8)
        b = bytes(b)
        lines.append("q " + b.hex())
        want.append(["q %d %d own" % e for e in model[b]] if b in model else "q -")
    r, out = api.run(ctx, lines)
    expect(len(out) == len(want), lambda: "%d answers for %d operations" % (len(out), len(want)), r)
    for a, w in zip(out, want):
        expect(a in w if isinstance(w, list) else a == w, lambda: "an index lookup gives %r, expected %r" % (a, w), r)
    return {"nontrivial": over > 8 and hits > 0, "labels": ["over-capacity" if over > case["cap"] else "within", "dups" if case["dup"] else "unique"]}


def size_cases(tier):
    """Lookups around every round number of recordings."""
    out = []
    for cap in (0, 1, 100, 4096, 1000, 65536, 70000):
        for rs in (1, 2) if tier == "quick" else range(1, 20):
            out.append({"rs": rs, "cap": cap, "n": 70000 if rs == 1 else 5000})
    return out


def exec_sizes(ctx, case):
    rs = random.Random(case["rs"] * 1000 + case["cap"])
    marks = {1 << k for k in range(3, 18)} | {10 ** k for k in range(1, 5)} | {case["cap"]} | {rs.randrange(1, case["n"]) for _ in range(3)}
    lines, want = ["idx %d" % case["cap"]], ["idx 1"]
    ids = []

    def ask(k):
        lines.append("q " + ids[k].hex())
        want.append("q %d %d own" % (k * 7, k % 9000 + 1))
    for i in range(case["n"]):
        ids.append(rs.randbytes(32))
        lines.append("ins %d %d %s" % (i * 7, i % 9000 + 1, ids[-1].hex()))
        if any(m in marks for m in range(i - 1, i + 4)):
            ask(i)
            ask(0)
            ask(rs.randrange(i + 1))
            lines.append("q " + rs.randbytes(32).hex())
            want.append("q -")
    for k in [0, case["n"] - 1] + [rs.randrange(case["n"]) for _ in range(200)] + [m + d for m in marks for d in (-2, -1, 0, 1) if 0 <= m + d < case["n"]]:
        ask(k)
    r, out = api.run(ctx, lines)
    expect(len(out) == len(want), lambda: "%d answers for %d operations" % (len(out), len(want)), r)
    for a, w in zip(out, want):
        expect(a == w, lambda: "an index lookup gives %r, expected %r" % (a, w), r)
    return {"nontrivial": True, "labels": ["recordings:%d" % case["n"]]}


def big_cases(tier):
    out = []
    for i, mode in enumerate(("scan", "scan-short", "hint")):
        for j, n in enumerate((4500, 9000) if tier == "quick" else (4500, 9000, 17000, 33000)):
            out.append({"rs": 1000 * i + j, "mode": mode, "n": n, "p": [48, 64, 96], "near": 3, "dups": 2, "absent": 1, "tgt": "last" if j else "none",
                        "two": False, "rep": 3, "pre": 0, "http": True, "hone": False})
    return out


PARTS = [
    Part("sizes", execute=exec_sizes, cases=size_cases, needs="apix"),
    Part("big", execute=execute, cases=big_cases),
    Part("seeds", cases, execute, quick=3000, thorough=50000),
    Part("history", api_cases, exec_api, quick=3000, thorough=60000, needs="apix"),
]
