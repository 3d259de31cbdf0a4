"""C20: the casync command line is equivalent to the csn command line."""
from hypothesis import strategies as st

from ..core import Part
from .. import gen, xcase
from ..world import expect, sane

LEVEL = "exploration"
RULE = ("generated extractions are run twice, as csn and as casync with the same stores given by a random mixture of --store/--seed, both spellings of the "
        "argument, --seed-output in between, and the word extract at any place before INDEX TARGET; exit status, target, requests and writes have to agree "
        "(and to agree with the model). Second part: refused command lines (missing parts, unknown options, other commands, missing arguments, other program names) may not "
        "touch the target or send requests. Non-trivial: at least two stores, or the command line has to be refused.")
I = gen.I


@st.composite
def layout(draw, n):
    """how to spell n stores; positions are relative: list of tokens, ints stand for stores, 'X' for extract"""
    toks = []
    for i in range(n):
        toks.append([i, draw(st.sampled_from(["--store", "--seed"])), draw(I(0, 1))])
    for _ in range(draw(I(0, 2))):
        toks.insert(draw(I(0, len(toks))), [-1, draw(st.sampled_from(["yes", "no", "x"])), draw(I(0, 1))])
    toks.insert(draw(st.one_of(st.just(len(toks)), I(0, len(toks)))), ["X"])
    return toks


@st.composite
def cases(draw, tier):
    c = draw(gen.extraction(locals_=3, https=3, hints="any", alias=True))
    if draw(I(0, 3)) == 0:
        # many stores
        for _ in range(draw(I(1, 8))):
            s = draw(st.sampled_from([{"t": "local", "d": [["r", 1, 30]]}, {"t": "local", "d": [["i", 0, 100]]}, {"t": "http", "have": "none", "u": "http://e.example/e"}]))
            c["stores"].insert(draw(I(0, len(c["stores"]))), dict(s))
        nl = [s for s in c["stores"] if s["t"] in ("local", "alias")]
        while len(nl) > 6:
            c["stores"].remove(nl.pop())
    c["lay"] = draw(layout(len(c["stores"])))
    c["name"] = draw(st.sampled_from(["casync", "casync", "/usr/bin/casync", "./casync", "x/../casync", "csn/casync"]))
    c["cname"] = draw(st.sampled_from(["csn", "csn", "/usr/bin/csn", "./csn", "casync/csn"]))
    if draw(I(0, 4)) == 0:
        c["index"] = draw(st.sampled_from(["./index.caibx", "nothing", "target", "."]))
    return c


def casync_args(case, stores):
    out = [case["name"]]
    for t in case["lay"]:
        if t[0] == "X":
            out.append("extract")
        elif t[0] == -1:
            out += ["--seed-output=" + t[1]] if t[2] else ["--seed-output", t[1]]
        else:
            out += [t[1] + "=" + stores[t[0]]] if t[2] else [t[1], stores[t[0]]]
    return out


def execute(ctx, case):
    x = xcase.X(case)
    idx = case.get("index", "index.caibx")
    args = x.args()
    res = []
    for argv in ([case["cname"], idx, x.target_arg] + args, casync_args(case, args) + [idx, x.target_arg]):
        ctx.reset()
        x.setup(ctx)
        r = x.run(ctx, argv=argv)
        sane(r)
        res.append((r, ctx.read("target") if not x.tgt_missing else None))
    (r1, t1), (r2, t2) = res
    expect(r1.exit == r2.exit, lambda: "exit status %s as casync, %s as csn" % (r2.exit, r1.exit), r2)
    expect(t1 == t2, "the target differs between casync and csn", r2)
    expect(r1.requests() == r2.requests(), lambda: "the requests differ: %r as casync, %r as csn" % (r2.requests()[:4], r1.requests()[:4]), r2)
    expect(xcase.merge(r1.writes("target")) == xcase.merge(r2.writes("target")), "the writes differ between casync and csn", r2)
    for s in x.stores:
        if s.kind == "local" and not s.alias:
            # which seeds were used
            expect(bool(r1.preads(s.role)) == bool(r2.preads(s.role)), "a seed is used by only one of casync and csn", r2)
    if idx == "index.caibx":
        o = xcase.simulate(x)
        if not o.ambiguous and not x.tgt_missing:
            xcase.check_exact(x, r2, o, t2)
    n = len(args)
    lb = ["stores:%s" % ("1" if n == 1 else "2-3" if n < 4 else "4+"), "exit%d" % r2.exit]
    ix = [t[0] for t in case["lay"]].index("X")
    if ix < len(case["lay"]) - 1:
        lb.append("options-after-extract")
    if any(t[0] == -1 for t in case["lay"]):
        lb.append("seed-output")
    return {"nontrivial": n >= 2, "labels": lb}


@st.composite
def refused(draw, tier):
    k = draw(st.sampled_from(["no-extract", "other-word", "unknown", "short", "noarg", "csn-short", "name", "help", "none"]))
    lay = draw(layout(draw(I(1, 3))))
    c = {"k": k, "lay": lay, "w": draw(I(0, 100)), "name": "casync"}
    if k == "other-word":
        c["word"] = draw(st.sampled_from(["make", "Extract", "extrac", "extractx", "list", "", "-", "digest", "EXTRACT", "mount"]))
    elif k == "unknown":
        c["opt"] = draw(st.sampled_from(["--foo", "--cache=x", "--with=all", "-x", "-v", "--chunk-size=1", "--storex=y", "--stores", "--seedx", "--verbose", "-s", "--seed-outputs=1", "--delete=no"]))
    elif k == "noarg":
        c["opt"] = draw(st.sampled_from(["--store", "--seed", "--seed-output"]))
    elif k == "name":
        c["name"] = draw(st.sampled_from(["csn2", "casync-nano", "CSN", "Casync", "csn.exe", "sh", "csnx", "casyn", "cs", "./csn-", "csn-tool", "xcsn", "a/b", "casync.", "/x/csn2"]))
    elif k == "help":
        c["opt"] = draw(st.sampled_from(["-h", "--help"]))
    elif k == "short":
        c["drop"] = draw(st.sampled_from([1, 2]))
    return c


def exec_refused(ctx, case):
    k = case["k"]
    x = xcase.X({"params": [48, 64, 96], "img": [["r", 5, 700]], "stores": [
        {"t": "http"}, {"t": "local", "d": [["i", 0, 400]]}, {"t": "target"}][:sum(isinstance(t[0], int) and t[0] >= 0 for t in case["lay"])],
        "tgt": {"d": [["r", 9, 100]]}, "cut": "cdc"})
    x.setup(ctx)
    lay = list(case["lay"])
    toks = casync_args({"lay": lay, "name": case["name"]}, x.args())
    head, tail = toks, ["index.caibx", "target"]
    if k == "no-extract":
        head = [t for t in head if t != "extract"]
    elif k == "other-word":
        head = [case["word"] if t == "extract" else t for t in head]
    elif k == "unknown":
        # not between an option and its argument
        spots = [i for i in range(1, len(head) + 1) if head[i - 1] not in ("--store", "--seed", "--seed-output")]
        head.insert(spots[case["w"] % len(spots)], case["opt"])
    elif k == "help":
        spots = [i for i in range(1, len(head) + 1) if head[i - 1] not in ("--store", "--seed", "--seed-output")]
        head.insert(spots[case["w"] % len(spots)], case["opt"])
    elif k == "short":
        tail = tail[:2 - case["drop"]] if case["w"] % 2 else tail[case["drop"]:]
    elif k == "noarg":
        # the option swallows the word extract
        head = [case["name"]] + [case["opt"] if t == "extract" else t for t in head[1:]]
        i = len(head) - 1
        head.remove(case["opt"])
        head.append(case["opt"])
    elif k == "csn-short":
        head, tail = ["csn"] + ["index.caibx", "target"][:case["w"] % 3], []
    elif k == "none":
        head, tail = [["casync"], ["casync", "extract"], ["csn"], ["casync", "--store", "x"]][case["w"] % 4], []
    r = x.run(ctx, argv=head + tail)
    sane(r)
    if k == "help":
        expect(r.exit in (0, 1), "abnormal exit", r)
    else:
        expect(r.exit == 1, "the command line is not refused: %r" % (head + tail), r)
    expect(ctx.read("target") == x.tgt0 and not r.writes("target"), "the target is modified by a command line that is refused: %r" % (head + tail), r)
    expect(not r.requests(), "requests are sent for a command line that is refused: %r" % (head + tail), r)
    return {"nontrivial": True, "labels": [k]}


PARTS = [
    Part("equivalence", cases, execute, quick=3000, thorough=60000),
    Part("refused", refused, exec_refused, quick=2000, thorough=20000),
]
