"""C16: csn-tool crypt maps files as documented and never alters existing ones."""
import os

from hypothesis import strategies as st

from ..core import Part
from .. import gen, ref
from ..world import expect, sane

LEVEL = "exploration"
RULE = ("a scratch directory with generated files (valid chunk names in either direction, almost valid names, existing outputs, a file called '-', "
        "subdirectories, missing and unreadable inputs) and an invocation of csn-tool crypt with explicit output, '-', no output, or a list on "
        "standard input (LF, CRLF, no final line break, empty and over-long lines), with write errors at generated points, standard descriptors closed, the list unreadable, links to nothing in the place of an output, or an output that "
        "another program creates at the last moment; lists of up to 400 files. Oracle: a model of the "
        "documented mapping over a snapshot of the directory before and after. Non-trivial: an output was produced, or something existed or failed that had "
        "to keep one from being produced.")
I = gen.I
KEY = "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"


@st.composite
def name(draw, good=False):
    cid = draw(st.sampled_from(["00", "ab", "7F", "e1", "12"])) * 32
    sfx = draw(st.sampled_from([".cacnk", ".cacnk.enc"]))
    k = "ok" if good else gen.wsample(draw, [("ok", 12), ("len", 3), ("char", 1), ("sfx", 2), ("weird", 1)])
    d = draw(st.sampled_from(["", "", "", "sub/", "./", "a.cacnk/", "0123/"]))
    if k == "len":
        n = draw(st.sampled_from([0, 1, 54, 60, 63, 65, 66, 68, 70, 74, 128]))
        if draw(I(0, 1)):
            # the total length of the other kind
            n, sfx = draw(st.sampled_from([(68, ".cacnk"), (60, ".cacnk.enc")]))
        cid = ("0123456789abcdef" * 10)[:n]
    elif k == "char":
        i = draw(I(0, 63))
        cid = cid[:i] + draw(st.sampled_from("gGxz -_.\xe4")) + cid[i + 1:]
    elif k == "sfx":
        sfx = draw(st.sampled_from([".cacnk.en", ".cacnk.ENC", ".CACNK", ".cacnx", "", ".enc", "xcacnk", ".cacnk.enc.enc", ".cacnkxenc", "cacnk", ".cacnk.", ".cacnk.enc\\"]))
    elif k == "weird":
        return draw(st.sampled_from(["", "/", "x", "-", ".cacnk", ".cacnk.enc", "sub", "sub/", "..", "0" * 64]))
    return d + cid + sfx


@st.composite
def cases(draw, tier):
    names = draw(st.lists(name(), min_size=1, max_size=4, unique=True))
    c = {"files": {}, "how": gen.wsample(draw, [("stdin", 4), ("path", 3), ("out", 3), ("stdout", 2)])}
    for n in names:
        k = gen.wsample(draw, [("file", 10), ("missing", 2), ("dir", 1)])
        if k == "file":
            c["files"][n] = draw(st.sampled_from([0, 1, 64, 100, 1000, 5000]))
        elif k == "dir":
            c["files"][n] = -1
        if draw(I(0, 4)) == 0:
            o = n[:-4] if n.endswith(".enc") else n + ".enc"
            c["files"][o] = draw(st.sampled_from([0, 7, 100, -1, -2, -3]))
    if draw(I(0, 4)) == 0:
        c["files"]["-"] = draw(I(0, 20))
    c["modes"] = {}
    for n in sorted(c["files"]):
        if c["files"][n] >= 0 and draw(I(0, 5)) == 0:
            c["modes"][n] = draw(st.sampled_from([0, 0o200, 0o400, 0o111, 0o777]))
    if draw(I(0, 5)) == 0:
        # the same files under longer names: "./" in front, up to the longest path the system takes and beyond
        c["dots"] = draw(st.one_of(I(90, 600), I(1900, 2100), st.sampled_from([500, 1000, 2000])))
    c["names"] = names
    c["out"] = draw(st.sampled_from(["out", "out", "out", "sub/out", "nodir/out", "exists", "sub", "a.cacnk/x.y", "-x", "same"]))
    c["eol"] = draw(st.sampled_from(["\n", "\n", "\r\n"]))
    c["last"] = draw(I(0, 3)) > 0
    if draw(I(0, 8)) == 0:
        c["lines"] = [[draw(I(0, len(names))), draw(st.sampled_from(["", " ", "x" * 5000, "/" * 4090 + "0" * 64 + ".cacnk", "\r"]))]]
    if draw(I(0, 4)) == 0:
        # (which output, which write, how): errors while writing
        c["fault"] = [draw(I(0, 3)), draw(I(1, 2)), draw(st.sampled_from([28, 5, 27])), draw(I(0, 70))]
    elif draw(I(0, 9)) == 0:
        c["rfault"] = [draw(I(0, 3)), draw(I(1, 2)), draw(st.sampled_from(["errno", "eof"]))]
    if draw(I(0, 9)) == 0:
        # which output turns up at the last moment, and its size
        c["appear"] = [draw(I(0, 3)), draw(st.sampled_from([0, 5, 3000]))]
    if draw(I(0, 7)) == 0:
        c["cl"] = draw(gen.closed_fds)
    elif draw(I(0, 30)) == 0:
        c["badin"] = 1          # standard input that cannot be read
    return c


def parse(n):
    """(id, automatic output) or None if the name is not acceptable"""
    b = n.rsplit("/", 1)[-1]
    for sfx in (".cacnk", ".cacnk.enc"):
        h = b[:64]
        if len(b) == 64 + len(sfx) and b.endswith(sfx) and all(ch in "0123456789abcdefABCDEF" for ch in h):
            return bytes.fromhex(h), (n + ".enc" if sfx == ".cacnk" else n[:-4])
    return None


def read(p):
    try:
        return open(p, "rb").read()
    except PermissionError:
        m = os.stat(p).st_mode & 0o7777
        os.chmod(p, m | 0o400)
        b = open(p, "rb").read()
        os.chmod(p, m)
        return b


def snapshot(ctx):
    out = {}
    for root, dirs, files in os.walk(ctx.dir):
        for f in files:
            p = os.path.join(root, f)
            if os.path.exists(p):
                out[os.path.relpath(p, ctx.dir)] = read(p)
            if os.path.islink(p):
                out["link:" + os.path.relpath(p, ctx.dir)] = os.readlink(p)
        for d in dirs:
            out[os.path.relpath(os.path.join(root, d), ctx.dir) + "/"] = None
    return out


def execute(ctx, case):
    for d in ("sub", "a.cacnk", "0123"):
        os.makedirs(ctx.path(d), exist_ok=True)
    ctx.write("exists", b"already here")
    modes = {}
    for i, (n, sz) in enumerate(sorted(case["files"].items())):
        if n in ("", "..") or n[:1] == "/" or n.endswith("/") or os.path.lexists(ctx.path(n)):
            continue
        if sz == -2:
            # a link to something that exists
            if os.path.isdir(os.path.dirname(ctx.path(n))):
                os.symlink(ctx.path("exists"), ctx.path(n))
        elif sz == -3:
            # a link to something that does not exist
            if os.path.isdir(os.path.dirname(ctx.path(n))):
                os.symlink(ctx.path("ghost"), ctx.path(n))
        elif sz < 0:
            os.makedirs(ctx.path(n), exist_ok=True)
        else:
            ctx.write(n, ref.rnd_bytes(i, sz))
            if n in case.get("modes", {}):
                os.chmod(ctx.path(n), case["modes"][n])
                modes[os.path.normpath(n)] = case["modes"][n]
    before = snapshot(ctx)
    names = case["names"]
    if case.get("dots"):
        k = case["dots"]
        # on standard input, a line takes its line break along; whether exactly 4095 bytes still fit is not looked at,
        # nor is an input name that is too long while that of its existing output is not
        edge = (4092 if case["how"] == "stdin" else 4096, 4100)
        names = ["./" * (k - 4 if edge[0] <= 2 * k + len(n) < edge[1] else k) + n if n[:1] != "/" else n for n in names]
    argv = ["csn-tool", "crypt", "key:" + KEY]
    stdin = b""
    jobs = []           # (input, output or None for the automatic one)
    if case["how"] == "stdin":
        lines = list(names)
        for pos, t in case.get("lines", ()):
            lines.insert(pos, t)
        text = case["eol"].join(lines) + (case["eol"] if case["last"] or not lines[-1] else "")
        stdin = text.encode("latin1")
        jobs = [(n, None) for n in text.replace("\r\n", "\n").split("\n")]
        if jobs[-1][0] == "":
            jobs.pop()
    else:
        n = names[0]
        argv.append(n.encode("latin1"))
        o = None
        if case["how"] == "out":
            o = n if case["out"] == "same" else case["out"]
            argv.append(o.encode("latin1"))
        elif case["how"] == "stdout":
            o = "-"
            argv.append("-")
        jobs = [(n, o)]
    # the model
    norm = os.path.normpath
    faulted = None
    plan = []
    overlong = any(len(n) > 4000 for n, _ in jobs)
    targets = []
    for n, o in jobs:
        p = parse(n)
        if p:
            targets.append(p[1] if o is None else o)
    if case.get("fault") and targets:
        t = targets[case["fault"][0] % len(targets)]
        if t == "-":
            pass
        elif not os.path.exists(ctx.path(t)):
            plan = [("role", "o", t), ("fault", "write", "o", 1, "short", max(1, case["fault"][3])),
                    ("fault", "write", "o", case["fault"][1], "errno", case["fault"][2])]
            faulted = t
    rf = case.get("rfault")
    if rf:
        t = jobs[rf[0] % len(jobs)][0]
        if parse(t) and before.get(norm(t)) is not None and len(before[norm(t)]) > 3:
            plan = [("role", "i", t), ("fault", "read", "i", 1, "short", 2), ("fault", "read", "i", rf[1], rf[2], 5)]
        else:
            rf = None
    cl = case.get("cl", [])
    plan = plan + [("closefd", n) for n in cl]
    noin = case["how"] == "stdin" and (0 in cl or case.get("badin"))
    if noin:
        jobs = []
    late = None
    if case.get("appear") and targets and not faulted:
        t = targets[case["appear"][0] % len(targets)]
        if t != "-" and len(t) < 4000 and not os.path.lexists(ctx.path(t)) and os.path.isdir(os.path.dirname(ctx.path(t))):
            late = norm(t)
            ctx.write("late", ref.rnd_bytes(99, case["appear"][1]))
            before = snapshot(ctx)
            plan = plan + [("appear", t, "late")]
    r = ctx.run("csn-tool", argv, stdin=stdin, plan=plan, stdin_path=ctx.dir if case.get("badin") else None)
    sane(r)
    # only faults that really happened count
    hit = {e[2] for e in r.events() if e[0] == "F" and e[3] in ("0", "3")}
    if "o" not in hit:
        faulted = None
    if "i" not in hit:
        rf = None
    norm = os.path.normpath
    if not any(e[0] == "V" and e[1] == "1" for e in r.events()):
        late = None
    state = dict(before)
    expected_out = b""
    ok = not noin
    stop = False
    for n, o in jobs:
        p = parse(n)
        if not p:
            ok = False
            stop = True
            break
        cid, auto = p
        out = auto if o is None else o
        fits = lambda q: len(q.encode("latin1")) < 4096
        if out != "-" and fits(out) and (norm(out) in state or norm(out) + "/" in state):
            continue
        src = state.get(norm(n))
        if src is None or not fits(n) or out != "-" and not fits(out) or not modes.get(norm(n), 0o400) & 0o400:
            ok = False
            stop = True
            break
        res = ref.xchacha20(src, bytes.fromhex(KEY), cid[:24])
        if rf and norm(n) == norm(jobs[rf[0] % len(jobs)][0]):
            ok = False
            stop = True
            break
        if out == "-" and 1 in cl:
            ok = not res
            continue
        if out == "-":
            expected_out += res
            continue
        if os.path.dirname(out) and not os.path.isdir(ctx.path(os.path.dirname(out))):
            ok = False
            stop = True
            break
        if "link:" + norm(out) in state:
            ok = False
            stop = True
            break
        if late == norm(out):
            # whether this is an error is not said, but it is left alone
            state[late] = before["late"]
            if r.exit:
                ok = False
                stop = True
                break
            continue
        if faulted and norm(faulted) == norm(out):
            ok = False
            stop = True
            break
        state[norm(out)] = res
    after = snapshot(ctx)
    expect(r.exit == (0 if ok else 1), lambda: "exit status %s, expected %s" % (r.exit, 0 if ok else 1), r)
    for k, v in before.items():
        expect(k in after, lambda: "%s has vanished" % k, r)
        expect(after[k] == v, lambda: "existing file %s was changed" % k, r)
    for k, v in state.items():
        if k in before:
            continue
        expect(k in after, lambda: "no output file %s" % k, r)
        expect(after[k] == v, lambda: "wrong content of output %s" % k, r)
    # after a failing line the remaining ones may or may not be processed
    allowed = set()
    if stop and case["how"] == "stdin":
        for n, o in jobs:
            p = parse(n)
            if p:
                allowed.add(norm(p[1]))
        if faulted:
            allowed.discard(norm(faulted))
    for k in after:
        if k not in state and k not in before:
            expect(k in allowed, lambda: "unexpected file %s%s" % (k, " (truncated output left behind)" if faulted and k == norm(faulted) else ""), r)
    if case["how"] == "stdout":
        expect(r.out == expected_out if ok else r.out == b"", lambda: "standard output has %d bytes, expected %d" % (len(r.out), len(expected_out)), r)
    lb = [case["how"], "exit%d" % r.exit]
    if faulted:
        lb.append("write-error")
    if rf:
        lb.append("read-error")
    if cl:
        lb.append("closed")
    if late:
        lb.append("appeared")
    if noin:
        lb.append("unreadable-list")
    made = len(state) - len(before)
    if made:
        lb.append("output")
    if any(parse(n) and o != "-" and norm(o or parse(n)[1]) in before for n, o in jobs):
        lb.append("exists")
    if "-" in before and case["how"] == "stdout":
        lb.append("file-called-dash")
    if overlong:
        lb.append("long-line")
    return {"nontrivial": bool(made or expected_out or stop or "exists" in lb), "labels": lb}


@st.composite
def list_cases(draw, tier):
    return {"n": draw(I(60, 400)), "sizes": draw(st.lists(I(0, 3000), min_size=1, max_size=7)), "exist": draw(I(0, 9)), "enc": draw(I(0, 1)), "eol": draw(st.sampled_from(["\n", "\r\n"]))}


def exec_list(ctx, case):
    """a long list; every exist-th output is there already"""
    key = bytes.fromhex(KEY)
    sfx, osfx = (".cacnk.enc", ".cacnk") if case["enc"] else (".cacnk", ".cacnk.enc")
    want, text = {}, ""
    for i in range(case["n"]):
        cid = ref.sha(b"%d" % i)
        d = ref.rnd_bytes(i, case["sizes"][i % len(case["sizes"])])
        ctx.write(cid.hex() + sfx, d)
        want[cid.hex() + sfx] = d
        o = ref.xchacha20(d, key, cid[:24])
        if case["exist"] and i % case["exist"] == 0:
            o = b"old"
            ctx.write(cid.hex() + osfx, o)
        want[cid.hex() + osfx] = o
        text += cid.hex() + sfx + case["eol"]
    r = ctx.run("csn-tool", ["csn-tool", "crypt", "key:" + KEY], stdin=text.encode())
    sane(r)
    expect(r.exit == 0, "unexpected exit status", r)
    got = snapshot(ctx)
    expect(sorted(got) == sorted(want), lambda: "files missing or unexpected: %s" % sorted(set(got) ^ set(want))[:3], r)
    for k, v in want.items():
        expect(got[k] == v, lambda: "wrong content of %s" % k, r)
    return {"nontrivial": True, "labels": ["long-list"]}


PARTS = [Part("long-list", list_cases, exec_list, quick=120, thorough=2000),
         Part("files", cases, execute, quick=12000, thorough=200000)]
