"""Builds the programs under test from /repo's current working tree, around the harness shim."""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CSN_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
CACHE = os.environ.get("CSN_BUILD_CACHE", os.path.join(VERIF, ".build"))

SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]
CFLAGS = ["-g", "-O1", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0",
          "-ftrivial-auto-var-init=pattern", "-w"] + SAN
WRAPS = ("open open64 openat creat readv writev preadv pwritev clock_nanosleep read pread pread64 write pwrite pwrite64 close fsync fdatasync fstat fstat64 "
         "lseek lseek64 ioctl isatty usleep nanosleep sleep socket bind accept send recv "
         "curl_easy_setopt curl_easy_getinfo curl_easy_perform curl_easy_cleanup "
         "malloc calloc realloc reallocarray strdup strndup asprintf vasprintf curl_easy_init ZSTD_createDStream ZSTD_createDCtx ZSTD_decompressStream "
         "EVP_CIPHER_CTX_new EVP_CipherInit").split()
FALLBACK = {
    "csn": "log utils chunk chunker caibx sha store store-local store-http index target ui main encrypt".split(),
    "csn-tool": "log utils csn-tool encrypt".split(),
    "patchdd": "log utils ui patchdd".split(),
}


class BuildError(Exception):
    pass


def sources(prog):
    """Source files of an executable, taken from the repository's CMakeLists."""
    try:
        text = open(os.path.join(REPO, "CMakeLists.txt")).read()
    except OSError:
        text = ""
    text = re.sub(r"#[^\n]*", "", text)
    m = re.search(r"add_executable\s*\(\s*%s\s+([^)]*)\)" % re.escape(prog), text)
    names = []
    if m:
        names = [n for n in m.group(1).split() if n.endswith(".c")]
    if not names or not all(os.path.exists(os.path.join(REPO, n)) for n in names):
        names = [n + ".c" for n in FALLBACK[prog]]
    return names


def tree_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/*.[ch]") + glob.glob(REPO + "/*/*.h") + [REPO + "/CMakeLists.txt"])
    files += sorted(glob.glob(HARNESS + "/*"))
    files.append(os.path.abspath(__file__))
    for f in files:
        if not os.path.isfile(f):
            continue
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _run(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    log.append(p.stdout)


def _build(outdir):
    log = []
    jobs = []
    objs = {}

    def obj(src, out, extra):
        path = os.path.join(outdir, out)
        jobs.append(["gcc", "-std=gnu17"] + CFLAGS + extra + ["-c", src, "-o", path])
        return path

    rename = ["-Dmain=app_main", "-I" + REPO]
    shim = obj(os.path.join(HARNESS, "shim.c"), "shim.o", [])
    apix = obj(os.path.join(HARNESS, "apix.c"), "apix.o", ["-I" + REPO, "-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-Werror=implicit-function-declaration"]) if os.path.exists(os.path.join(HARNESS, "apix.c")) else None
    seen = {}
    for prog in ("csn", "csn-tool", "patchdd"):
        lst = []
        for s in sources(prog):
            if s not in seen:
                seen[s] = obj(os.path.join(REPO, s), "r_" + s.replace("/", "_")[:-2] + ".o", rename)
            lst.append(seen[s])
        objs[prog] = lst
    errors = {}

    def one(cmd):
        try:
            _run(cmd, log)
        except BuildError as e:
            errors[cmd[-1]] = e

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    hard = [e for o, e in errors.items() if o != apix]
    if hard:
        raise hard[0]
    wraps = ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)]
    libs = ["-lcurl", "-lzstd", "-lcrypto"]
    links = []
    for prog in objs:
        links.append(["gcc"] + SAN + ["-o", os.path.join(outdir, prog), shim] + objs[prog] + wraps + libs)
    links.append(["gcc", "-O2", "-shared", "-fPIC", "-o", os.path.join(outdir, "refc.so"), os.path.join(HARNESS, "refc.c")])
    api_err = None
    if apix:
        if apix in errors:
            api_err = str(errors[apix])
        else:
            # everything but the file that has main()
            main_o = seen.get("main.c")
            rest = [o for o in objs["csn"] if o != main_o]
            links.append(["gcc"] + SAN + ["-o", os.path.join(outdir, "apix"), shim, apix] + rest + wraps + libs)

    def one_link(cmd):
        try:
            _run(cmd, log)
            return None
        except BuildError as e:
            return cmd[cmd.index("-o") + 1], e

    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one_link, links):
            if r is None:
                continue
            if os.path.basename(r[0]) == "apix":
                api_err = str(r[1])
            else:
                raise r[1]
    if api_err:
        open(os.path.join(outdir, "apix.err"), "w").write(api_err)
    for o in glob.glob(outdir + "/*.o"):
        os.unlink(o)


def build():
    """Returns the directory holding csn, csn-tool, patchdd, apix (if it could be built) and refc.so."""
    os.makedirs(CACHE, exist_ok=True)
    os.chmod(CACHE, 0o755)
    key = tree_hash()
    final = os.path.join(CACHE, key)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(final, "ok")):
            os.utime(final)
            return final
        # keep only a few recent builds
        old = sorted((d for d in glob.glob(CACHE + "/*") if os.path.isdir(d)), key=os.path.getmtime)
        for d in old[:-3]:
            shutil.rmtree(d, ignore_errors=True)
        tmp = final + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        os.chmod(tmp, 0o755)
        try:
            _build(tmp)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
        open(os.path.join(tmp, "ok"), "w").close()
        os.rename(tmp, final)
        return final


FUZZ_WRAPS = ("curl_global_init curl_easy_init curl_easy_setopt curl_easy_getinfo curl_easy_perform curl_easy_cleanup usleep nanosleep sleep").split()


def build_fuzz(outdir):
    """The libFuzzer target; not having it (no clang, changed internal interfaces) is not an error."""
    exe = os.path.join(outdir, "fuzz")
    if os.path.exists(exe) or os.path.exists(exe + ".err") or not shutil.which("clang"):
        return
    srcs = [os.path.join(REPO, s) for s in sources("csn") if s != "main.c"] + [os.path.join(HARNESS, "fuzz.c")]
    tmp = exe + ".d"
    os.makedirs(tmp, exist_ok=True)
    flags = ["-std=gnu17", "-g", "-O1", "-fno-omit-frame-pointer", "-w", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern",
             "-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-Werror=implicit-function-declaration", "-I" + REPO]
    log, errs, objs = [], [], []

    def one(s):
        o = os.path.join(tmp, os.path.basename(s)[:-2] + ".o")
        objs.append(o)
        try:
            _run(["clang"] + flags + ["-c", s, "-o", o], log)
        except BuildError as e:
            errs.append(str(e))

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, srcs))
    if not errs:
        try:
            _run(["clang", "-fsanitize=fuzzer,address,undefined", "-o", exe + ".tmp"] + objs +
                 ["-Wl," + ",".join("--wrap=" + w for w in FUZZ_WRAPS), "-lcurl", "-lzstd", "-lcrypto"], log)
            os.rename(exe + ".tmp", exe)
        except BuildError as e:
            errs.append(str(e))
    shutil.rmtree(tmp, ignore_errors=True)
    if errs:
        open(exe + ".err", "w").write("\n".join(errs))


if __name__ == "__main__":
    print(build())
