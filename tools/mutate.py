#!/usr/bin/env python3
"""Systematic mutation of /repo's sources, to look for what the checks do not notice.

mutate.py list [SEED [COUNT]]         print a sample of mutants
mutate.py run OUT.jsonl [SEED [COUNT [SCALE]]]
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = "caibx.c chunk.c chunker.c csn-tool.c encrypt.c index.c log.c main.c patchdd.c sha.c store-http.c store-local.c store.c target.c ui.c utils.c".split()
ORDER = {
    "caibx.c": "10 11 02 22 18", "chunk.c": "23 05 12", "chunker.c": "08 09 11 10 18 02", "csn-tool.c": "16 14 15 25 24 18", "encrypt.c": "14 15 12 24",
    "index.c": "21 05 07 02 26", "log.c": "25", "main.c": "01 02 04 20 25 05 03", "patchdd.c": "19 25 18 22", "sha.c": "17", "store-http.c": "12 13 23 06 14 15 24 11 26",
    "store-local.c": "07 01 05 06 02 22 18", "store.c": "06 05 02 25", "target.c": "04 01 05 22 03 18", "ui.c": "25 02 19", "utils.c": "18 19 15 16 11 24 25 26",
}
ALL = ["%02d" % i for i in range(1, 27) if i != 22] + ["22"]


def mutants():
    out = []
    for f in FILES:
        src = open("/repo/" + f).read()
        lines = src.split("\n")
        incomment = False
        for n, l in enumerate(lines):
            s = l.strip()
            if s.startswith("/*"):
                incomment = True
            if incomment:
                if "*/" in s:
                    incomment = False
                continue
            if not s or s.startswith(("//", "#", "0x", "u_log", "u_assert", "static const uint32_t", '"')) or "u_build_assert" in s:
                continue
            code = l
            if s.endswith("\\"):
                continue

            def add(new, kind):
                if new != l:
                    out.append((f, n, l, new, kind))
            # operators
            for a, bs in ((" < ", [" <= "]), (" <= ", [" < "]), (" > ", [" >= "]), (" >= ", [" > "]), (" == ", [" != "]), (" != ", [" == "]),
                          (" && ", [" || "]), (" || ", [" && "]), (" + ", [" - "]), (" - ", [" + "]), (" += ", [" = ", " -= "]), (" |= ", [" = "]),
                          (" * ", [" / "]), (" / ", [" * "]), (" % ", [" / "]), (" << ", [" >> "]), (" ^ ", [" | "])):
                for m in re.finditer(re.escape(a), code):
                    for b in bs:
                        add(code[:m.start()] + b + code[m.end():], "op" + a + "->" + b)
            for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
                if '"' in code[:m.start()] and code[:m.start()].count('"') % 2:
                    continue
                v = int(m.group(1))
                for w in {v + 1, max(0, v - 1)} - {v}:
                    add(code[:m.start()] + str(w) + code[m.end():], "const")
            m = re.match(r"^(\s*)(?:\} else )?if \((.*)\) ?\{?$", code)
            if m and code.count("(") == code.count(")"):
                c = m.group(2)
                i = code.index("if (") + 4
                j = code.rindex(")")
                add(code[:i] + "0 && (" + c + ")" + code[j:], "if0")
                add(code[:i] + "1 || (" + c + ")" + code[j:], "if1")
            if re.match(r"^\s*(\w[\w\->\.\[\]\*&]*\s*([-+|]?=)\s.*|\w+\(.*\)|.*\+\+|.*--|break|continue|goto \w+|checked\(.*\));$", code) and code.count("(") == code.count(")"):
                add(re.match(r"\s*", code)[0] + ";", "delete")
            if s == "break;":
                add(code.replace("break", "continue"), "b2c")
            if s == "continue;":
                add(code.replace("continue", "break"), "c2b")
            if s == "return -1;":
                add(code.replace("-1", "0"), "ret0")
            if s == "return 0;":
                add(code.replace("0", "-1"), "ret-1")
            if s == "return EXIT_FAILURE;":
                add(code.replace("FAILURE", "SUCCESS"), "retsucc")
            if "true" in s:
                add(code.replace("true", "false"), "t2f")
            if "false" in s:
                add(code.replace("false", "true"), "f2t")
    return out


def sample(seed, count):
    ms = mutants()
    r = random.Random(seed)
    # spread over files and lines
    r.shuffle(ms)
    seen, first, rest = set(), [], []
    for m in ms:
        (rest if (m[0], m[1]) in seen else first).append(m)
        seen.add((m[0], m[1]))
    return (first + rest)[:count]


def main():
    cmd = sys.argv[1]
    if cmd == "list":
        a = [int(x) for x in sys.argv[2:]]
        ms = sample(a[0] if a else 1, a[1] if len(a) > 1 else 10**9)
        for m in ms:
            print("%s:%d %s | %s -> %s" % (m[0], m[1] + 1, m[4], m[2].strip(), m[3].strip()))
        print(len(ms))
        return
    out = sys.argv[2]
    a = sys.argv[3:]
    seed, count, scale = int(a[0]) if a else 1, int(a[1]) if len(a) > 1 else 100, a[2] if len(a) > 2 else "0.1"
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    root = "/tmp/mutwt"
    shutil.rmtree(root, True)
    os.makedirs(root)
    for m in sample(seed, count):
        f, n, old, new, kind = m
        if (f, n, new) in done:
            continue
        wt = root + "/r"
        shutil.rmtree(wt, True)
        os.makedirs(wt)
        for x in os.listdir("/repo"):
            if x.endswith((".c", ".h", ".txt")):
                shutil.copy("/repo/" + x, wt + "/" + x)
        lines = open(wt + "/" + f).read().split("\n")
        assert lines[n] == old
        lines[n] = new
        open(wt + "/" + f, "w").write("\n".join(lines))
        env = dict(os.environ, CSN_REPO=wt, CSN_BUILD_CACHE=root + "/cache")
        p = subprocess.run(["gcc", "-std=gnu17", "-Wall", "-fsyntax-only", "-I" + wt, wt + "/" + f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        res = dict(file=f, line=n, old=old, new=new, kind=kind)
        t = time.time()
        if p.returncode:
            res["result"] = "no-compile"
        else:
            first = ORDER[f].split()
            res["result"] = "SURVIVED"
            for c in first + ([x for x in ALL if x not in first] if os.environ.get("MUT_ALL") else []):
                try:
                    q = subprocess.run([V + "/bin/check", "C" + c, "--no-evidence", "--scale", scale], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                    rc = q.returncode
                except subprocess.TimeoutExpired:
                    rc = -1
                if rc == 1:
                    res["result"] = "C" + c
                    break
                if rc != 0:
                    res["result"] = "rc%d C%s" % (rc, c)
                    res["out"] = q.stdout[-600:] if rc != -1 else ""
                    break
        res["t"] = round(time.time() - t, 1)
        with open(out, "a") as o:
            o.write(json.dumps(res) + "\n")
        print(res["result"], "%s:%d" % (f, n + 1), old.strip(), "->", new.strip(), res["t"], flush=True)
    shutil.rmtree(root, True)


if __name__ == "__main__":
    main()
