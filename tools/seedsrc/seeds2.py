seed("c24-fdout", "C24",
     [("csn-tool.c", "out_fd:\n	if (fd != STDOUT_FILENO)\n		close(fd);", "out_fd:\n	// nothing of interest behind it\n	if (fd != STDOUT_FILENO && ret < 0)\n		close(fd);")],
     '''
import resource
names = []
for i in range(100):
    n = sha(b"%d" % i).hex() + ".cacnk"
    write(n, rnd(i, 100))
    names.append(n)
soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
resource.setrlimit(resource.RLIMIT_NOFILE, (64, hard))
p = run(["csn-tool", "crypt", "key:" + "11" * 32], exe=TOOL, stdin="".join(n + "\\n" for n in names).encode())
check(p.returncode == 0, "csn-tool succeeds: %r" % p.stderr[-300:])
check(all(os.path.exists(n + ".enc") for n in names), "all files are converted")
''', "one call of csn-tool that converts more files than a process may have open", "every output file stays open")

seed("c25-skipprog", "C25",
     [("main.c", "			skipped++;\n			goto progress;", "			skipped++;\n			return 0;")],
     '''
import pty, re
a, b = natural(40000, 1), natural(30000, 2)
write("i.caibx", index_of([a, b, a, b]))
write("seed", a + b)
write("t", a + b + bytes(70000))
m, s = pty.openpty()
p = subprocess.run(["csn", "i.caibx", "t", "seed"], executable=CSN, stdout=s, stderr=subprocess.PIPE, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
check(p.returncode == 0 and read("t") == a + b + a + b, "csn succeeds")
os.close(s)
out = b""
while True:
    try:
        d = os.read(m, 4096)
    except OSError:
        break
    if not d:
        break
    out += d
got = [int(x) for x in re.findall(rb"(\\d+)%", out)]
check(got == [25, 50, 75, 100], "progress covers all chunks: %r" % got)
''', "a resumed run on a terminal", "the progress display leaves out the chunks already in place and never reaches 100 %")

seed("c25-queries", "C25",
     [("store.c", "		if (!substore->active)\n			continue;\n", "		if (!substore->active) {\n			// counted as asked, it would have been\n			substore->hits++;\n			continue;\n		}\n")],
     '''
import re
a, b, c = natural(40000, 1), natural(30000, 2), natural(20000, 3)
write("i.caibx", index_of([a, b, c]))
srv = Server({})
for x in (a, b, c):
    srv.add(x)
write("t", bytes(90000))
p = csn("i.caibx", "t", "http://[", srv.url)
check(p.returncode == 0 and read("t") == a + b + c, "csn succeeds")
got = [int(x) for x in re.findall(rb"(\\d+) answered by", p.stderr)]
check(got == [0, 3], "the statistics are right: %r" % got)
''', "a run in which a store has been switched off before the last lookup", "the statistics claim that the switched-off store supplied chunks")

seed("c10-short", "C10",
     [("caibx.c", "	for (size_t i = 0; i < n_entries; i++) {", "	for (uint16_t i = 0; i != (uint16_t)n_entries; i++) {")],
     '''
n = 65536 + 40
chunks = [bytes([i & 255, i >> 8 & 255, i >> 16]) for i in range(n)]
write("i.caibx", index_of(chunks, params=(1, 2, 4)))
write("s.caibx", index_of(chunks, params=(1, 2, 4)))
img = b"".join(chunks)
write("seed", img)
write("t", b"\\xff" * len(img))
p = csn("i.caibx", "t", "seed:s.caibx")
check(p.returncode == 0 and read("t") == img, "the whole image is extracted")
''', "an index with more than 65535 entries", "only the first entries, modulo 65536, are processed")

seed("c14-bigfile", "C14",
     [("csn-tool.c", "	if (encrypt_do(ec, buf, buf, chunk_size)) {", "	if (encrypt_do(ec, buf, buf, MIN(chunk_size, 256*1024))) {")],
     '''
cid = sha(b"x").hex()
data = rnd(1, 300000)
write(cid + ".cacnk", data)
p = run(["csn-tool", "crypt", "key:" + "11" * 32, cid + ".cacnk"], exe=TOOL)
out = read(cid + ".cacnk.enc")
check(p.returncode == 0 and len(out) == len(data), "csn-tool succeeds")
check(out[-1000:] != data[-1000:], "the end of the file is encrypted, too")
''', "a compressed chunk larger than 256 KiB (incompressible data with a larger maximum, or frames with overhead)", "its end is stored in clear text")

seed("c24-leak", "C24",
     [("csn-tool.c", "out_buf:\n	free(buf);", "out_buf:\n	// not ours if it is a part of something larger\n	if (chunk_size % 4096)\n		free(buf);")],
     '''
import resource
names = []
for i in range(300):
    n = sha(b"%d" % i).hex() + ".cacnk"
    write(n, bytes(81 * 4096))
    names.append(n)
p = run(["csn-tool", "crypt", "key:" + "11" * 32], exe=TOOL, stdin="".join(n + "\\n" for n in names).encode(), env={"ASAN_OPTIONS": "detect_leaks=0:quarantine_size_mb=1"})
check(p.returncode == 0, "csn-tool succeeds")
kb = resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss
check(kb < 80000, "memory stays bounded: %d KiB" % kb)
''', "many files whose size is a multiple of 4096", "the memory of each such file is kept")

seed("c13-404reset", "C13",
     [("store-http.c", '		u_log(DEBUG, "got %ld from server", http_code);\n', '		u_log(DEBUG, "got %ld from server, so it works", http_code);\n		hs->error_count = 0;\n')],
     '''
chunks = [rnd(i, 20000 + i) for i in range(24)]
write("i.caibx", index_of(chunks))
a, b = Server({}), Server({})
for i, c in enumerate(chunks):
    a.add(c, status=404 if i % 6 == 5 else 500, body=b"")
    b.add(c)
write("t", b"")
p = csn("i.caibx", "t", a.url, b.url)
check(p.returncode == 0 and read("t") == b"".join(chunks), "csn succeeds")
check(len(a.log) == 13, "the failing store is given up after the eleventh failure: %d requests" % len(a.log))
''', "a store that answers with errors most of the time and 404 in between", "it is never switched off")

seed("c18-readzero", "C18",
     [("utils.c", """		ret = read(fd, &buf[read_bytes], len - read_bytes);
		if (ret < 0) {
			if (errno == EINTR)
				continue;

			u_log_errno("read failed");
			return -1;""", """		ret = read(fd, &buf[read_bytes], len - read_bytes);
		if (ret < 0) {
			if (errno == EINTR)
				continue;

			u_log_errno("read failed");
			return read_bytes ? 0 : -1;""")],
     '''
name = sha(b"x").hex() + ".cacnk"
write(name, rnd(1, 50000))
env = preload("""
static int n;
ssize_t read(int fd, void *buf, size_t len) {
	char l[64], p[512];
	ssize_t k;
	snprintf(l, sizeof(l), "/proc/self/fd/%d", fd);
	k = readlink(l, p, sizeof(p) - 1);
	if (k > 6 && !memcmp(p + k - 6, ".cacnk", 6)) {
		if (n++) { errno = EIO; return -1; }
		len = 1000;
	}
	return REAL(read)(fd, buf, len);
}
ssize_t __read_chk(int fd, void *buf, size_t n, size_t m) { return read(fd, buf, n); }
""")
p = run(["csn-tool", "crypt", "key:" + "11" * 32, name], exe=TOOL, env=env)
check(p.returncode != 0, "the read error is reported")
check(not os.path.exists(name + ".enc"), "there is no output")
''', "a read error after part of a file has been read", "the error is swallowed and the rest of the buffer used as if it had been read")

seed("c15-env", "C15",
     [("encrypt.c", "		key_str = getenv(&keyspec[4]);\n		if (!key_str) {", "		key_str = getenv(&keyspec[4]) ?: (strlen(keyspec) == 4 + 64) ? &keyspec[4] : NULL;\n		if (!key_str) {")],
     '''
cid = sha(b"x").hex()
write(cid + ".cacnk", rnd(1, 1000))
p = run(["csn-tool", "crypt", "env:" + "11" * 32, cid + ".cacnk"], exe=TOOL)
check(p.returncode != 0 and not os.path.exists(cid + ".cacnk.enc"), "a missing variable is an error")
''', "env: with the name of a missing variable that looks like a key", "the name itself is used as the key")


seed("c26-buflost", "C26",
     [("store-http.c", "		new_buf = realloc(hs->decode_buffer, new_size);", "		new_buf = hs->decode_buffer = realloc(hs->decode_buffer, new_size);")],
     '''
write("w.c", b"""
#include <stdlib.h>
void *__real_realloc(void *p, size_t n);
void *__wrap_realloc(void *p, size_t n)
{
	/* no memory for anything big */
	return n > 5000 ? NULL : __real_realloc(p, n);
}
""")
src = ["log", "utils", "chunk", "chunker", "caibx", "sha", "store", "store-local", "store-http", "index", "target", "ui", "main", "encrypt"]
subprocess.run(["gcc", "-O1", "-w", "-o", "csn-nomem", "-I" + REPO, "w.c"] + [os.path.join(REPO, s + ".c") for s in src] +
               ["-Wl,--wrap=realloc", "-lcurl", "-lzstd", "-lcrypto"], check=True)
chunks = [rnd(1, 300), rnd(2, 40000), rnd(3, 200), rnd(4, 250)]
write("i.caibx", index_of(chunks))
a = Server({})
for c in chunks:
    n = sha(c).hex() + ".cacnk"
    write(n, zstd(c))
    run(["csn-tool", "crypt", "key:" + "11" * 32, n], exe=TOOL)
    a.add(c, body=read(n + ".enc"), enc=".enc")
write("seed", chunks[1])
write("seed.caibx", index_of([chunks[1]]))
write("t", b"")
p = run(["csn", "i.caibx", "t", a.url + "#encrypt=key:" + "11" * 32, "seed:seed.caibx"], exe=os.path.abspath("csn-nomem"))
check(p.returncode == 0 and read("t") == b"".join(chunks), "the chunk comes from the seed instead (exit status %d)" % p.returncode)
''', "a response for which the decode buffer cannot be enlarged after it already held smaller ones, another store that has the chunk, and a further chunk from the same store",
     "the buffer is lost while its old size is kept: null pointer")

seed("c26-cipher", "C26",
     [("encrypt.c", """	if (!EVP_CipherInit((EVP_CIPHER_CTX*)ctx->cipher, EVP_chacha20(), subkey, ctr_nonce, 1)) {
		u_log(ERR, "EVP_CipherInit failed");
		goto out;
	}

	ret = 0;

out:
""", """	if (EVP_CipherInit((EVP_CIPHER_CTX*)ctx->cipher, EVP_chacha20(), subkey, ctr_nonce, 1) < 0) {
		u_log(ERR, "EVP_CipherInit failed");
		goto out;
	}

	ret = 0;

out:
""")],
     '''
names = [sha(b"%d" % i).hex() + ".cacnk" for i in range(3)]
for i, n in enumerate(names):
    write(n, rnd(i, 5000))
env = preload("""
static int n;
int EVP_CipherInit(void *c, const void *t, const unsigned char *k, const unsigned char *iv, int enc)
{
	if (++n == 2)
		return 0;
	return REAL(EVP_CipherInit)(c, t, k, iv, enc);
}
""")
p = run(["csn-tool", "crypt", "key:" + "11" * 32], exe=TOOL, env=env, stdin="".join(n + "\\n" for n in names).encode())
check(p.returncode == 1, "the failure is reported")
check(not os.path.exists(names[1] + ".enc"), "there is no output for the second file")
''', "memory runs out when the cipher is set up for a file", "the data is written as if it had been encrypted, exit status 0")

seed("c26-decoder", "C26",
     [("store-http.c", """	hs->zstd = ZSTD_createDStream();
	u_notnull(hs->zstd, goto err_curl);
""", """	hs->zstd = ZSTD_createDStream();
	u_notnull(hs->zstd, free((void*)hs->url_buf); goto err_curl);
""")],
     '''
chunks = [rnd(1, 300)]
write("i.caibx", index_of(chunks))
write("t", b"")
env = preload("""
void *ZSTD_createDStream(void) { return 0; }
""")
p = csn("i.caibx", "t", "http://127.0.0.1:9/", env=env)
check(p.returncode == 1, "ordinary failure (exit status %d)" % p.returncode)
''', "the decoder cannot be allocated", "a buffer is freed twice")
