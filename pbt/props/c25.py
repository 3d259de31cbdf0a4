"""C25: progress, statistics and messages tell what was done."""
import re
import numpy as np

from hypothesis import strategies as st

from ..core import Part
from .. import gen, ref, xcase
from ..world import expect, sane
from . import c19

LEVEL = "exploration"
RULE = ("extraction scenarios (also failing ones), patchdd pairs and csn-tool invocations, each run several times: with all messages, with the level drawn, on a "
        "terminal. Standard output is parsed: one progress update per chunk (model) or MiB, the exact percentage, nothing else; the messages of the run with the "
        "level drawn must be those of the full run of that level and above, whole lines each; the numbers reported at the end are compared with the model and with the write log; "
        "exit status, files and requests must be the same in all runs. Non-trivial: at least two updates and, for csn, a reported statistic or a failure. Part 'volume' has more than 65536 kept chunks, lookups and answers.")
I = gen.I
UPD = re.compile(rb"\x1b\[0G\[.\] \|[= ]*\| +(\d+)%\n?", re.S)
TAGS = {b"ERR": 0, b"WRN": 1, b"INF": 2, b"DBG": 3}
COLORS = {b"196": 0, b"202": 1, b"40": 2, b"75": 3}
LIMIT = {"": 2, "err": 0, "error": 0, "warn": 1, "warning": 1, "info": 2, "debug": 3, "bogus": 2}


def progress(r, out):
    """the percentages shown; nothing else may be there"""
    got = [int(v) for v in UPD.findall(out)]
    rest = UPD.sub(b"", out)
    expect(not rest, lambda: "standard output contains %r" % rest[:80], r)
    return got


def lines(r, tty):
    """(level, message) of each line"""
    out = []
    ls = r.err.split(b"\n")
    expect(not ls[-1] or tty, lambda: "the last message %r is not a whole line" % ls[-1], r)
    for ln in ls:
        if not ln or ln == b"\x1b[0m":
            continue
        m = re.match(rb"\x1b\[38;5;(\d+)m[^\t]*:\d+\t(.*?)(?:\x1b\[0m)?$" if tty else rb"(ERR|WRN|INF|DBG) \S+:\d+ (.*)$", ln, re.S)
        if not m:
            expect(ln.startswith((b"usage", b"casync", b"\t", b"  ")), lambda: "a message starts with %r" % ln[:60], r)
            out.append((-1, ln))
            continue
        expect(not re.search(rb"(?:ERR|WRN|INF|DBG) [\w.-]+:\w+:\d+ ", m.group(2)), lambda: "two messages on one line: %r" % ln, r)
        out.append(((COLORS if tty else TAGS).get(m.group(1), 9), re.sub(rb"0x[0-9a-f]+", b"P", re.sub(rb"after \d+ seconds", b"after N seconds", m.group(2)))))
    return out


def check_levels(full, r, lv, tty):
    lim = LIMIT[lv]
    got = lines(r, tty)
    if lv == "bogus":
        expect(got and got[0][0] == 1, "no warning about an unknown level", r)
        del got[0]
    want = [e for e in lines(full, False) if e[0] <= lim]
    if got != want:
        k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        expect(False, "with LOGLEVEL=%s message %d is %r, expected %r" % (lv, k, got[k:k + 1], want[k:k + 1]), r)


def pct(n, k):
    return [100 * (i + 1) // n for i in range(k)]


# ------------------------------------------------------------------------ csn

@st.composite
def csn_cases(draw, tier):
    c = draw(gen.extraction(locals_=3, https=2, hints="any", errors=draw(I(0, 3)) == 0, full=draw(I(0, 3)) > 0))
    if draw(I(0, 3)) == 0 and c["cut"] != "cdc":
        k = draw(st.sampled_from([2, 3, 10, 50]))
        if len(c["cut"]) * k <= 300:
            c["img"], c["cut"] = c["img"] * k, c["cut"] * k
    c.pop("log", None)
    c.pop("tty", None)
    c["lv"] = draw(st.sampled_from(sorted(LIMIT)))
    return c


def exec_csn(ctx, case):
    runs = []
    for env, tty in (("debug", 0), (case["lv"], 0), (case["lv"], 1)):
        ctx.reset()
        x = xcase.X(case)
        x.setup(ctx)
        r = x.run(ctx, env={"LOGLEVEL": env} if env else {}, extra=[("tty",)] if tty else [])
        sane(r)
        runs.append((r, ctx.read("target") if ctx.exists("target") else None))
    full, plain, term = [r for r, _ in runs]
    for r, t in runs[1:]:
        expect(r.exit == full.exit and t == runs[0][1], "the result depends on the level of messages or the terminal", r)
        expect(r.requests() == full.requests(), "the requests depend on the level of messages or the terminal", r)
    for r in (full, plain):
        expect(not r.out, lambda: "standard output contains %r without a terminal" % r.out[:80], r)
    check_levels(full, plain, case["lv"], False)
    check_levels(full, term, case["lv"], True)
    got = progress(term, term.out)
    n = len(x.entries)
    lb = ["level:" + (case["lv"] or "unset"), "exit%s" % full.exit]
    if case["lv"] == "debug":
        expect(not got, "progress is shown among debug messages", term)
    else:
        expect(got == pct(n, len(got)), lambda: "the percentages %s are not those of %d chunks" % (got[:20], n), term)
        expect(full.exit != 0 or len(got) == n, lambda: "%d updates for %d chunks" % (len(got), n), term)
        expect(full.exit == 0 or 100 not in got, "a failed run shows 100 %", term)
    x = xcase.X(case)
    o = xcase.simulate(x)
    stat = False
    if not o.ambiguous:
        expect(full.exit == o.exit, "unexpected exit status", full)
        if case["lv"] != "debug":
            done = n if o.exit == 0 else o.stop or 0
            expect(len(got) == done, lambda: "%d updates, but %d chunks were processed" % (len(got), done), term)
        if o.exit == 0:
            m = [[int(a) for a in v] for v in (re.findall(rb"skipped prefix of (\d+)", full.err), re.findall(rb"(\d+) queries received", full.err), re.findall(rb"(\d+) answered by", full.err))]
            expect(m[0] == ([o.skipped] if o.skipped else []), lambda: "%s skipped chunks are reported, not %d" % (m[0], o.skipped), full)
            expect(m[1] == [len(o.hits)], lambda: "%s lookups are reported, not %d" % (m[1], len(o.hits)), full)
            want = [sum(1 for _, i in o.hits if i == k) for k in range(len(x.stores))]
            expect(m[2] == want, lambda: "the answers of the stores are reported as %s, not %s" % (m[2], want), full)
            stat = True
    return {"nontrivial": n >= 2 and (stat or full.exit == 1), "labels": lb + (["statistics"] if stat else [])}


# more than 65536 of everything
@st.composite
def volume_cases(draw, tier):
    return {"kept": draw(I(65536, 66000)), "looked": draw(I(65600, 66000)), "len": draw(I(1, 60)), "tty": draw(st.sampled_from([1, 1, 0]))}


def exec_volume(ctx, case):
    ln, a, b = case["len"], case["kept"], case["looked"]
    x, y, z = [bytes([k]) * ln for k in b"xyz"]
    params = [1, 30, 64]
    seq = [x] * a + ([y, z] * (b // 2 + 1))[:b]
    ids = {c: ref.sha(c) for c in (x, y, z)}
    ctx.write("index.caibx", ref.caibx([((i + 1) * ln, ids[c]) for i, c in enumerate(seq)], params))
    ctx.write("target", x * a)
    ctx.write("none", b"")
    ctx.write("seed", y + z)
    ctx.write("hint", ref.caibx([(ln, ids[y]), (2 * ln, ids[z])], params))
    r = ctx.run("csn", ["csn", "index.caibx", "target", "none", "seed:hint"], plan=[("tty",)] if case["tty"] else [], cpu=120, wall=300)
    sane(r)
    expect(r.exit == 0, "the extraction fails", r)
    expect(ctx.read("target") == b"".join(seq), "wrong content", r)
    m = [[int(v) for v in re.findall(p, r.err)] for p in (rb"skipped prefix of (\d+)", rb"(\d+) queries received", rb"(\d+) answered by")]
    expect(m == [[a], [b], [0, b]], lambda: "the statistic is %s, expected %s" % (m, [[a], [b], [0, b]]), r)
    got = progress(r, r.out)
    expect(got == (pct(a + b, a + b) if case["tty"] else []), "wrong percentages", r)
    return {"nontrivial": True, "labels": ["volume"]}


# -------------------------------------------------------------------- patchdd

@st.composite
def pdd_cases(draw, tier):
    return {"p": draw(c19.pair()), "lv": draw(st.sampled_from(sorted(LIMIT)))}


def exec_pdd(ctx, case):
    src, dst = c19.make(case["p"])
    runs = []
    for env, tty in (("debug", 0), (case["lv"], 0), (case["lv"], 1)):
        ctx.reset()
        ctx.write("src", src)
        ctx.write("dst", dst)
        r = ctx.run("patchdd", ["patchdd", "src", "dst"], plan=[("role", "dst", "dst")] + ([("tty",)] if tty else []), env={"LOGLEVEL": env} if env else {})
        sane(r)
        runs.append((r, ctx.read("dst")))
    full, plain, term = [r for r, _ in runs]
    for r, t in runs[1:]:
        expect(r.exit == full.exit and t == runs[0][1], "the result depends on the level of messages or the terminal", r)
    check_levels(full, plain, case["lv"], False)
    check_levels(full, term, case["lv"], True)
    n = len(src)
    lb = ["exit%s" % full.exit]
    if full.exit:
        for r in (full, plain, term):
            expect(not r.out, "standard output is used although nothing is done", r)
        return {"nontrivial": False, "labels": lb}
    tail = re.compile(rb"synchronization finished after \d+ seconds\nskipped a total of (\d+) bytes \((\d+\.\d\d)% of the input\)\n$")
    equal = 0
    for o in range(0, n, 1 << 20):
        a, b = src[o:o + (1 << 20)], dst[o:o + (1 << 20)]
        d = np.flatnonzero(np.frombuffer(a, np.uint8) != np.frombuffer(b[:len(a)], np.uint8))
        equal += int(d[0]) if len(d) else len(a)
    for r, _ in runs:
        m = tail.search(r.out)
        expect(m, "no statistic of whole numbers at the end", r)
        wr = sum(int(e[3]) for e in r.events() if e[0] in "wW" and e[1] == "dst")
        # what is equal in front of the first difference of each step need not be written; a program that
        # writes even less may count that or not
        sk = int(m.group(1))
        expect(sk in (n - wr, equal), lambda: "%d skipped bytes are reported, %d of %d were written" % (sk, wr, n), r)
        if n:
            expect(abs(float(m.group(2)) - 100 * sk / n) < 0.0051, "the share of skipped bytes is wrong", r)
        head = r.out[:m.start()]
        if r is not term:
            expect(not head, "progress is shown without a terminal", r)
        else:
            got = progress(r, head)
            expect(got == [100 * min(n, (k + 1) << 20) // n for k in range((n + (1 << 20) - 1) >> 20)], lambda: "the percentages %s are not those of %d bytes in steps of 1 MiB" % (got, n), r)
    return {"nontrivial": n > 1 << 20, "labels": lb + ["mib:%d" % (n >> 20)]}


# ------------------------------------------------------------------- csn-tool

@st.composite
def tool_cases(draw, tier):
    names = []
    for _ in range(draw(I(0, 6))):
        names.append([draw(st.sampled_from(["ok", "ok", "ok", "enc", "short", "long", "nothex", "missing", "suffix", "exists"])), draw(I(0, 3))])
    return {"names": names, "key": draw(st.sampled_from(["ok", "ok", "ok", "ok", "short", "long", "nothex", "source", "nofile", "noenv"])), "how": draw(st.sampled_from(["stdin", "arg", "out", "stdout"])),
            "lv": draw(st.sampled_from(sorted(LIMIT)))}


def exec_tool(ctx, case):
    key = {"ok": "key:" + "0f" * 32, "short": "key:0f", "long": "key:" + "0f" * 200, "nothex": "key:" + "xx" * 32, "source": "foo:1", "nofile": "file:none", "noenv": "env:NONE"}[case["key"]]
    runs = []
    for env, tty in (("debug", 0), (case["lv"], 0), (case["lv"], 1)):
        ctx.reset()
        names = []
        for k, i in case["names"]:
            cid = ref.sha(bytes([i])).hex()
            nm = {"short": cid[:20], "long": cid * 3 + ".cacnk", "nothex": "zz" + cid[2:] + ".cacnk", "suffix": cid + ".cacnx", "enc": cid + ".cacnk.enc"}.get(k, cid + ".cacnk")
            names.append(nm)
            if k != "missing":
                ctx.write(nm, ref.rnd_bytes(i, 100))
            if k == "exists":
                ctx.write(nm + ".enc", b"")
        if case["how"] == "stdin":
            a, sin = [], "".join(x + "\n" for x in names).encode()
        else:
            a, sin = (names or ["x"])[:1] + {"arg": [], "out": ["out"], "stdout": ["-"]}[case["how"]], b""
        r = ctx.run("csn-tool", ["csn-tool", "crypt", key] + a, stdin=sin, plan=[("tty",)] if tty else [], env={"LOGLEVEL": env} if env else {})
        sane(r)
        runs.append(r)
    full, plain, term = runs
    for r in runs[1:]:
        expect(r.exit == full.exit and r.out == full.out, "the result depends on the level of messages or the terminal", r)
    if case["how"] != "stdout":
        expect(not full.out, "something is written to standard output", full)
    check_levels(full, plain, case["lv"], False)
    check_levels(full, term, case["lv"], True)
    expect(full.exit == 0 or any(l <= 0 for l, _ in lines(full, False)), "a failure without an error message", full)
    return {"nontrivial": bool(full.err), "labels": ["exit%s" % full.exit, case["how"]]}


PARTS = [
    Part("csn", csn_cases, exec_csn, quick=2500, thorough=50000),
    Part("patchdd", pdd_cases, exec_pdd, quick=500, thorough=8000),
    Part("volume", volume_cases, exec_volume, quick=4, thorough=40),
    Part("csn-tool", tool_cases, exec_tool, quick=1500, thorough=25000),
]
