"""C15: an encryption key is exactly 64 hex digits from its declared source."""
import os

from hypothesis import strategies as st

from ..core import Part
from .. import api, gen, ref
from ..world import expect, sane

LEVEL = "exploration"
RULE = ("key specifications from a grammar: source key:/env:/file: or a damaged prefix, content of 64 hex digits or close to that (63, 65, 128 and other lengths, "
        "single wrong characters next to the hex ranges in ASCII and beyond, spaces, NUL bytes, line breaks inside, before or after), missing "
        "variables and files, directories, empty files; each given to the parser, to csn-tool and to csn as store attribute, together with "
        "other attributes. Oracle: the grammar; the key in effect is read off the key stream. Non-trivial: the content differs from 64 hex digits in at most three "
        "characters, or is valid.")
I = gen.I
HEX = "0123456789abcdefABCDEF"
BADCH = "gG/:@`[{xX zZ-+.,_\t\x01\x10\x19\x7f\x80\xb0\xff\xe6\r\n"


@st.composite
def content(draw, src):
    """(text as a latin1 string)"""
    k = draw(I(0, 3))
    if k == 0:
        body = draw(st.text(HEX, min_size=64, max_size=64))
    elif k == 1:
        body = draw(gen.hexkey)
    else:
        n = draw(st.one_of(I(0, 3), I(60, 68), st.sampled_from([32, 62, 63, 65, 66, 127, 128, 129, 64 * 3]), I(0, 300)))
        body = draw(st.sampled_from([1, 7, 13]).map(lambda q: "".join(HEX[(i * q) % 22] for i in range(n))))
    m = gen.wsample(draw, [("none", 5), ("char", 3), ("ins", 2), ("del", 1), ("dup", 1)])
    if body and m != "none":
        i = draw(I(0, len(body) - 1))
        ch = draw(st.sampled_from(BADCH)) if draw(I(0, 3)) else draw(st.characters(min_codepoint=1, max_codepoint=255))
        if m == "char":
            body = body[:i] + ch + body[i + 1:]
        elif m == "ins":
            if draw(I(0, 1)):
                i = draw(st.sampled_from([0, len(body)]))
            body = body[:i] + draw(st.sampled_from([ch, "\n", "\r\n", "0x", " ", "0", "00"])) + body[i:]
        elif m == "del":
            body = body[:i] + body[i + 1:]
        else:
            body = body + body[:draw(I(1, 64))]
    if src == "file":
        t = gen.wsample(draw, [("none", 3), ("nl", 4), ("garbage", 3), ("nul", 1), ("lead", 1)])
        if t == "nl":
            body += draw(st.sampled_from(["\n", "\r\n", "\r", "\n\n", "\r\n\r\n\n", "\n" * 50]))
        elif t == "garbage":
            body += draw(st.sampled_from(["\n", "\r\n", "\n\n"])) + draw(st.sampled_from(["x", "0", "# comment", " ", "00\n", "x\n", "\t\n", body[:64] + "\n"]))
        elif t == "nul":
            i = draw(st.sampled_from([0, len(body), draw(I(0, len(body)))]))
            body = body[:i] + "\0" + draw(st.sampled_from(["", "x", "\n", "00"])) + body[i:]
        elif t == "lead":
            body = draw(st.sampled_from(["\n", "\r\n", " ", "\xef\xbb\xbf"])) + body
    return body


@st.composite
def spec(draw):
    src = draw(st.sampled_from(["key", "env", "file"]))
    c = {"src": src, "c": draw(content(src))}
    k = gen.wsample(draw, [("ok", 14), ("missing", 1), ("prefix", 2), ("dir", 1)])
    if k == "missing" and src != "key":
        c["missing"] = 1
    elif k == "dir" and src == "file":
        c["dir"] = 1
    elif k == "prefix":
        c["prefix"] = draw(st.sampled_from(["", "KEY:", "key", "keys:", "hex:", " key:", "ENV:", "env", "File:", "file", "fil:", ":", "key=", "envfile:"]))
    if src == "env" and "prefix" not in c and draw(I(0, 3)) == 0:
        # names that might pass for the key itself or for something else
        c["name"] = draw(st.sampled_from(["0123456789abcdef" * 4, "f" * 64, "k", "key:" + "ab" * 32, "keyfile", "file:keyfile", "K" * 300, "env:K", "A.B", "1"]))
        if "missing" not in c and draw(I(0, 2)) == 0:
            c["missing"] = 1
    if src == "file" and "prefix" not in c and draw(I(0, 4)) == 0:
        c["path"] = draw(st.sampled_from(["sub/key", "./k", "key:k", "env:K", "k k", "#k"]))
    elif src == "file" and "missing" in c and draw(I(0, 1)):
        c["path"] = "0123456789abcdef" * 4
    return c


def valid(c):
    """The 32 key bytes, or None."""
    t = c["c"]
    if c.get("missing") or c.get("dir"):
        return None
    if c["src"] == "file":
        t = t.rstrip("\r\n")
    if "prefix" in c:
        return None
    if len(t) != 64 or any(ch not in HEX for ch in t):
        return None
    return bytes.fromhex(t)


def make(ctx, c):
    """-> (keyspec bytes, environment)"""
    raw = c["c"].encode("latin1")
    env = {}
    if c["src"] == "key":
        arg = raw
        pre = b"key:"
    elif c["src"] == "env":
        pre = b"env:"
        arg = c.get("name", "THEKEY").encode()
        if not c.get("missing"):
            env[arg.decode()] = raw
    else:
        pre = b"file:"
        path = c.get("path", "keyfile")
        arg = path.encode()
        os.makedirs(ctx.path("sub"), exist_ok=True)
        if c.get("dir"):
            os.makedirs(ctx.path(path), exist_ok=True)
        elif not c.get("missing"):
            ctx.write(path, raw)
    if c.get("name") in ("keyfile", "file:keyfile"):
        ctx.write("keyfile", b"0123456789abcdef" * 4)
    if "prefix" in c:
        pre = c["prefix"].encode()
        if pre in (b"", b"key", b"env", b"file") and arg[:1] == b":":
            arg = b"x" + arg
    return pre + arg, env


def nontrivial(c, key):
    return key is not None or 61 <= len(c["c"].rstrip("\r\n")) <= 67


def labels(c, key):
    return [c["src"], "valid" if key else "refused"] + [k for k in ("missing", "dir", "prefix") if k in c]


def exec_api(ctx, case):
    specb, env = make(ctx, case)
    if b"\n" in specb:
        return {"nontrivial": False, "labels": ["not-a-line"]}
    key = valid(case)
    r, out = api.run(ctx, ["keyspec " + specb.decode("latin1")], env=env)
    want = "key 0 " + key.hex() if key else "key -1 "
    expect(out == [want], lambda: "parser says %r, expected %r for %r" % (out, want, case), r)
    return {"nontrivial": nontrivial(case, key), "labels": labels(case, key)}


NAME = "00112233445566778899aabbccddeeff" * 2 + ".cacnk"


def exec_tool(ctx, case):
    specb, env = make(ctx, case["k"])
    key = valid(case["k"])
    data = b"\0" * 100
    ctx.write(NAME, data)
    how = case["how"]
    argv = ["csn-tool", "crypt", specb]
    stdin = b""
    if how == "stdin":
        stdin = NAME.encode() + b"\n"
    elif how == "path":
        argv.append(NAME)
    elif how == "out":
        argv += [NAME, "out"]
    else:
        argv += [NAME, "-"]
    before = set(os.listdir(ctx.dir))
    r = ctx.run("csn-tool", argv, env=env, stdin=stdin)
    sane(r)
    new = set(os.listdir(ctx.dir)) - before
    if key is None:
        expect(r.exit == 1, "an invalid key specification is accepted", r)
        expect(not new and not r.out, lambda: "output %s is produced for an invalid key specification" % (new or "on stdout"), r)
    else:
        expect(r.exit == 0, "a valid key specification is refused", r)
        outp = r.out if how == "stdout" else ctx.read("out" if how == "out" else NAME + ".enc")
        expect(outp == ref.xchacha20(data, key, bytes.fromhex(NAME[:64])[:24]), "another key is used than the one given", r)
    return {"nontrivial": nontrivial(case["k"], key), "labels": labels(case["k"], key) + [how]}


def exec_csn(ctx, case):
    specb, env = make(ctx, case["k"])
    key = valid(case["k"])
    if b"," in specb or b"#" in specb or b"\n" in specb or b"\t" in specb:
        return {"nontrivial": False, "labels": ["delimiter"]}
    d = ref.rnd_bytes(3, 200)
    cid = ref.sha(d)
    ctx.write("index.caibx", ref.caibx([(200, cid)], [64, 128, 512]))
    ctx.write("target", b"old")
    frag = b"encrypt=" + specb
    ok = key is not None
    if case["attr"] == "unknown":
        frag = case["name"].encode()
        ok = False
    elif case["attr"] == "unknown-after":
        frag += b"," + case["name"].encode()
        ok = False
    elif case["attr"] == "unknown-before":
        frag = case["name"].encode() + b"," + frag
        ok = False
    elif case["attr"] in ("twice-bad", "bad-twice"):
        # one invalid attribute spoils the store
        good = b"encrypt=key:" + b"c4" * 32
        frag = good + b"," + frag if case["attr"] == "twice-bad" else frag + b"," + good
        ok = None if ok else False      # which of two keys counts is not specified
    elif case["attr"] == "comma":
        frag += b","
        ok = None if ok else False
    url = "http://a.example"
    h = cid.hex()
    z = ref.zcompress(d)
    plan = [("http",), ("httpdefault", 404), ("role", "target", "target")]
    body = ref.xchacha20(z, key, cid[:24]) if key else z
    with open(ctx.aux("bodies"), "wb") as f:
        f.write(body)
    for sfx in (".cacnk.enc", ".cacnk"):
        plan += [("url", "%s/%s/%s%s" % (url, h[:4], h, sfx)), ("resp", 200, 0, "%s@0+%d" % (ctx.aux("bodies"), len(body)), -1, "-")]
    args = [url.encode() + case["slash"].encode() + b"#" + frag]
    if case["pos"] == 0:
        args.append(b"http://good.example")
    elif case["pos"] == 1:
        args.insert(0, b"http://good.example")
    r = ctx.run("csn", ["csn", "index.caibx", "target"] + args, plan=plan, env=env)
    sane(r)
    if ok is None:
        expect(ctx.read("target")[:200] in (b"old", d), "the target is damaged", r)
    elif ok:
        expect(r.exit == 0 and ctx.read("target") == d, "a store with a valid key is not usable", r)
        expect(all(q.endswith(".enc") for q in r.requests() if q.startswith(url)), "an encrypted store is asked for a plain chunk", r)
    else:
        expect(r.exit == 1, "an invalid store attribute is accepted", r)
        expect(not r.requests(), "a request is made although a store attribute is invalid", r)
        expect(ctx.read("target") == b"old", "the target is touched although a store attribute is invalid", r)
    return {"nontrivial": nontrivial(case["k"], key) or case["attr"] != "none", "labels": labels(case["k"], key) + ["attr-" + case["attr"], "open" if ok is None else "ok" if ok else "bad"]}


@st.composite
def tool_cases(draw, tier):
    return {"k": draw(spec()), "how": draw(st.sampled_from(["stdin", "path", "out", "stdout"]))}


@st.composite
def csn_cases(draw, tier):
    return {"k": draw(spec()), "attr": gen.wsample(draw, [("none", 8), ("unknown", 1), ("unknown-after", 1), ("unknown-before", 1), ("twice-bad", 1), ("bad-twice", 1), ("comma", 1)]),
            "name": draw(st.sampled_from(["foo", "encrypt", "encrypt:key", "Encrypt=key:" + "0" * 64, "encrypted=1", "foo=bar", " encrypt=key:" + "0" * 64, "=", "x="])),
            "slash": draw(st.sampled_from(["", "/"])), "pos": draw(I(0, 2))}


PARTS = [
    Part("parser", lambda tier: spec(), exec_api, quick=6000, thorough=80000, needs="apix"),
    Part("csn-tool", tool_cases, exec_tool, quick=6000, thorough=80000),
    Part("csn", csn_cases, exec_csn, quick=6000, thorough=80000),
]
