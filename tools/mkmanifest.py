#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "C01": "Random and targeted search over lying stores, changing seeds and inconsistent indices; the target is hashed against the index after every run, and every write is compared. Assumes SHA-256 of OpenSSL/hashlib; HTTP transport is simulated at the curl_easy boundary.",
    "C02": "Compares exit status and result with a specification-level model; covers empty and tiny stores and images, block devices (simulated through fstat/ioctl), all log levels.",
    "C03": "Byte comparison of every file before and after each run, including failing ones.",
    "C04": "Crash points inside every write are generated (target cut at arbitrary bytes of any pwrite), several in a row; assumes completed writes survive (no reordering by the OS is simulated).",
    "C05": "Exact request sequences are compared with the model.",
    "C06": "Store failures of every kind are injected at random moments; model comparison.",
    "C07": "Generated stale, damaged and mismatching side-loaded indices; model comparison and read log of the seed.",
    "C08": "Differential test against an independent reference implementation of the chunker and, in a second part, the installed casync binary.",
    "C09": "Metamorphic: all splittings must give the chunks of the whole input according to the reference.",
    "C10": "Well-formed and damaged indices from a structured generator with a reference parser as oracle.",
    "C11": "Byte-level and structural mutation of all inputs under AddressSanitizer and UBSan with CPU, event and wall limits.",
    "C12": "Generated frames, levels, fragmentations; outcome predicted with the zstd library and SHA-256. Transport simulated at the curl boundary, plus a real loopback server part.",
    "C13": "Generated failure sequences with a model of the counters; sleeps are recorded, not slept. A real loopback server checks what libcurl really reports (stall, refused connection, redirects).",
    "C14": "Differential test against an independent XChaCha20 implementation.",
    "C15": "Generated key specifications; the key in effect is observed through the key stream.",
    "C16": "Generated file trees and invocations against a model of the documented mapping.",
    "C17": "Kernel crypto is simulated (AF_ALG is not available in the sandbox); faults at every call.",
    "C18": "Random short transfers, signals and errors at generated points; results compared with the undisturbed run.",
    "C19": "Model comparison plus log of all writes.",
    "C20": "Differential: casync argv permutations against csn on the same inputs.",
    "C21": "Model-based API histories against a dictionary, plus end-to-end runs with large seeds.",
    "C22": "Sparse files with data beyond 4 GiB; positions of all I/O are logged.",
    "C23": "Generated store URLs; the exact requested URLs are compared.",
    "C25": "Each scenario is run with all messages, with the drawn level and on a (simulated) terminal; display and numbers are compared with the model, messages metamorphically.",
    "C24": "Metamorphic: a unit of work is done a few and many times; allocations (sanitizer hooks) and open descriptors at exit are compared. Memory inside the curl library is not part of it (the transport is simulated).",
    "C26": "The program's allocation functions and the library calls that allocate on its behalf are replaced by ones that fail where the plan says so; the libraries' internal allocations are represented by these calls.",
}
TECH = {
    "C08": "property-based differential testing against a reference chunker and casync",
    "C11": "structure-aware fuzzing under ASan/UBSan",
    "C17": "property-based fault injection (simulated AF_ALG), differential oracle",
    "C20": "property-based differential testing (casync vs csn)",
    "C24": "metamorphic property-based testing with metered allocations and descriptors",
    "C21": "model-based (stateful) property testing",
    "C26": "property-based fault injection (allocations), model oracle and re-run",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    f = os.path.join(V, "pbt/props/%s.py" % p.lower())
    if not os.path.exists(f):
        na.append({"property": p, "reason": "check not built yet"})
        continue
    src = open(f).read()
    level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
    checks.append({
        "property": p,
        "quick_cmd": "bin/check %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough bin/check %s" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": TECH.get(p, "property-based testing (Hypothesis generators, model oracle, fault-injecting harness)"),
        "level": level,
        "level_note": NOTE[p] + " A search: it shows the presence of violations, absence only on what was generated (counts in the evidence file).",
    })
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harness/shim.c is linked around the unmodified sources with ld --wrap. Saved counterexamples are in regress/, replays of new ones go to replays/ (bin/check CXX --replay FILE)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "missing")
