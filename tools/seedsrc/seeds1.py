ENC_HELP = '''
KEY = "11" * 32


def encrypted(payload, cid):
    """payload as csn-tool encrypts it under this chunk ID"""
    name = cid.hex() + ".cacnk"
    write(name, payload)
    p = run(["csn-tool", "crypt", "key:" + KEY, name], exe=TOOL)
    check(p.returncode == 0, "csn-tool works")
    os.unlink(name)
    out = read(name + ".enc")
    os.unlink(name + ".enc")
    return out
'''

seed("c01-enc-unverified", "C01",
     [("store-http.c", "if (memcmp(actual_id, id, CHUNK_ID_LEN) != 0) {",
       "// a wrong key or chunk would already have shown up as broken zstd data\n\tif (!hs->encrypted && memcmp(actual_id, id, CHUNK_ID_LEN) != 0) {")],
     ENC_HELP + '''
good, bad = rnd(1, 40000), rnd(2, 40000)
write("i.caibx", index_of([good]))
write("t", bytes(40000))
srv = Server({})
srv.add(good, enc=".enc", body=encrypted(zstd(bad), sha(good)))
p = csn("i.caibx", "t", srv.url + "#encrypt=key:" + KEY)
check(p.returncode != 0, "wrong content is refused")
check(read("t") == bytes(40000), "wrong content is not written")
''', "an encrypted store that serves valid zstd data of the right length but other content",
     "content of encrypted stores is written to the target without comparing its hash")

seed("c01-resume-lastid", "C01",
     [("main.c", "\t\t\tskipped++;\n", "\t\t\tif (skipped++ == 0)\n\t\t\t\tu_log(DEBUG, \"target starts with intact chunks\");\n\n\t\t\t// buf holds this chunk now, no need to fetch it if it repeats\n"
       "\t\t\tmemcpy(last_id, id, CHUNK_ID_LEN);\n\t\t\tlast_len = len;\n\t\t\thave_last_id = true;\n")],
     '''
a, b = rnd(1, 40000), rnd(2, 30000)
write("i.caibx", index_of([b, a, a, b]))
write("seed", b + a)
write("t", b + a + rnd(3, 70000))
write("s.caibx", index_of([b, a]))
p = csn("i.caibx", "t", "seed:s.caibx")
check(p.returncode != 0 or read("t") == b + a + a + b, "the image is right if csn says so")
check(p.returncode == 0, "csn succeeds")
''', "a resumed run whose target holds a chunk once where the index repeats it immediately, with other bytes in the second place",
     "whatever the target holds in the second place is taken for the repeated chunk and written back")

seed("c02-oldsize", "C02",
     [("main.c", "		if (target_check_chunk(target, buf, len, offset, id) == 1) {", "		int check = target_check_chunk(target, buf, len, offset, id);\n"
       "		if (check < 0 && skipped) {\n			u_log(ERR, \"reading target failed\");\n			return -1;\n		}\n\n		if (check == 1) {")],
     '''
a, b = rnd(1, 50000), rnd(2, 30000)
write("i.caibx", index_of([a, b]))
srv = Server({})
srv.add(a)
srv.add(b)
write("t", (a + b)[:60000])
p = csn("i.caibx", "t", srv.url)
check(p.returncode == 0 and read("t") == a + b, "a shorter target is completed")
''', "a regular file as target that ends in the middle of the image, after an intact chunk", "the run fails instead of completing the file")

seed("c02-tail-estimate", "C02",
     [("chunker.c", "	// do we have a leftover chunk?\n	if (offset != last_boundary) {",
       "	// do we have a leftover chunk?\n	if (offset - last_boundary >= params->min_size) {")],
     '''
a, b = natural(40000, 1), rnd(2, 9000)
write("i.caibx", index_of([a, b]))
write("seed", a + b)
write("t", bytes(len(a + b)))
p = csn("i.caibx", "t", "seed")
check(p.returncode == 0 and read("t") == a + b, "the short last chunk is found in the seed")
''', "a seed whose last chunk is shorter than the minimum chunk size",
     "the last chunk of a scanned seed is not found if it is short")

seed("c03-trunc", "C03",
     [("target.c", "int target_write(struct target *t,", "// drop the remains of a larger image\nstatic int target_trim(struct target *t, off_t end)\n{\n	off_t size;\n\n"
       "	if (fd_size(t->fd, &size) == 0 && size > end)\n		return ftruncate(t->fd, end);\n\n	return 0;\n}\n\nint target_write(struct target *t,"),
      ("target.c", "	target_add_chunk(t, len, offset, id);\n\n	return 0;", "	target_add_chunk(t, len, offset, id);\n\n	return (len < 16*1024) ? target_trim(t, offset + len) : 0;")],
     """
a, b = rnd(1, 40000), rnd(2, 3001)
write("i.caibx", index_of([a, b]))
srv = Server({})
srv.add(a)
srv.add(b)
write("t", b"x" * 80000)
p = csn("i.caibx", "t", srv.url)
check(p.returncode == 0, "csn succeeds")
check(read("t") == a + b + b"x" * (80000 - 43001), "bytes behind the image are untouched")
""", "an image that ends in a short chunk, on a longer regular file", "the target is cut off behind the image")

seed("c03-creat", "C03",
     [("target.c", "t->fd = open(path, O_RDWR);", "t->fd = open(path, O_RDWR | O_CREAT, 0666);")],
     '''
a = rnd(1, 40000)
write("i.caibx", index_of([a]))
write("seed", a)
p = csn("i.caibx", "t", "seed")
check(p.returncode != 0 and not os.path.exists("t"), "the target is not created")
''', "a target path that does not exist", "a mistyped target is created as a regular file instead of being refused")

seed("c04-repeat-skip", "C04",
     [("main.c", "		if (target_check_chunk(target, buf, len, offset, id) == 1) {",
       "		// don't read runs of the same chunk again and again\n"
       "		bool repeated = skipped && len == last_len && memcmp(last_id, id, CHUNK_ID_LEN) == 0;\n"
       "		memcpy(last_id, id, CHUNK_ID_LEN);\n		last_len = len;\n\n"
       "		if (repeated || target_check_chunk(target, buf, len, offset, id) == 1) {")],
     '''
a, z = rnd(1, 40000), bytes(262144)
img = a + z + z + z + a
write("i.caibx", index_of([a, z, z, z, a]))
srv = Server({})
srv.add(a)
srv.add(z)
write("t", a + z + b"\\xff" * (len(img) - len(a + z)))
p = csn("i.caibx", "t", srv.url)
check(p.returncode == 0 and read("t") == img, "the interrupted extraction is completed")
''', "an interruption between two equal chunks, and stale data in the place of the second",
     "the rerun takes the rest of a run of equal chunks for done and leaves the stale data")

seed("c04-shorttail", "C04",
     [("target.c", "	target_add_chunk(t, len, offset, id);\n\n	return 1;",
       "	target_add_chunk(t, len, offset, id);\n\n	// resume at a write boundary, the page behind it may be incomplete\n	return (offset + len) % 4096 < 4000;")],
     '''
a, b, c = rnd(1, 40000), rnd(2, 36864 + 4090 - 3136), rnd(3, 20000)
check((len(a + b)) % 4096 >= 4000, "test setup")
write("i.caibx", index_of([a, b, c]))
srv = Server({})
for x in (a, b, c):
    srv.add(x)
write("t", a + b + bytes(20000))
p = csn("i.caibx", "t", srv.url)
check(p.returncode == 0 and read("t") == a + b + c, "the image is complete")
check(srv.log == [srv.path(sha(c))], "only the missing chunk is fetched")
''', "an intact prefix containing a chunk that ends in the last bytes of a page", "the prefix from there on is fetched and written again")

seed("c05-prefix-not-indexed", "C05",
     [("target.c", "	target_add_chunk(t, len, offset, id);\n\n	return 1;", "	return 1;")],
     '''
a, b, c = rnd(1, 40000), rnd(2, 30000), rnd(3, 20000)
write("i.caibx", index_of([a, b, c, a]))
srv = Server({})
for x in (a, b, c):
    srv.add(x)
write("t", a + b + bytes(60000))
p = csn("i.caibx", "t", "t", srv.url)
check(p.returncode == 0 and read("t") == a + b + c + a, "the image is complete")
check(srv.log == [srv.path(sha(c))], "a chunk of the prefix is taken from the target")
''', "a resumed run with the target as a store whose index repeats a chunk of the prefix behind it",
     "chunks verified while resuming are not known to the target store and fetched again")

seed("c05-streak", "C05",
     [("store.c", "	uint32_t queries;\n};", "	uint32_t queries;\n	size_t last, streak;\n};"),
      ("store.c", "	for (size_t i = 0; i < sc->n_stores; i++) {\n		struct substore *substore = &sc->stores[i];",
       "	// neighbouring chunks tend to come from the same store\n	size_t first = sc->streak >= 4 ? sc->last : 0;\n	for (size_t n = 0; n < sc->n_stores; n++) {\n"
       "		size_t i = (first + n) % sc->n_stores;\n		struct substore *substore = &sc->stores[i];"),
      ("store.c", "			substore->hits++;\n", "			substore->hits++;\n			sc->streak = (sc->last == i) ? sc->streak + 1 : 0;\n			sc->last = i;\n")],
     '''
a, b = [natural(40000, i) for i in range(6)], natural(30000, 7)
write("i.caibx", index_of(a + [b]))
srv = Server({})
for x in a + [b]:
    srv.add(x)
write("seed", b)
write("t", bytes(270000))
p = csn("i.caibx", "t", "seed", srv.url)
check(p.returncode == 0 and read("t") == b"".join(a + [b]), "the image is complete")
check(srv.log == [srv.path(sha(x)) for x in a], "only what the seed lacks is fetched")
''', "a run of chunks that only the second store has, followed by one that both have", "the later store is asked first from then on")

seed("c06-remove", "C06",
     [("store.c", "			substore->active = false;\n			continue;",
       "			store_free(substore->s);\n			memmove(substore, substore + 1, (sc->n_stores - i - 1) * sizeof(*substore));\n			sc->n_stores--;\n			continue;")],
     '''
a, b = natural(40000, 1), natural(30000, 2)
write("i.caibx", index_of([a, b]))
write("t", bytes(70000))
srv = Server({})
for x in (a, b):
    srv.add(x)
# reading the first store fails once it has been scanned
write("s1", a + b)
write("s2", a + b)
env = preload("""
ssize_t pread64(int fd, void *buf, size_t n, off_t off) {
	char l[64], p[512];
	ssize_t k;
	snprintf(l, sizeof(l), "/proc/self/fd/%d", fd);
	k = readlink(l, p, sizeof(p) - 1);
	if (k > 3 && !memcmp(p + k - 3, "/s1", 3)) { errno = EIO; return -1; }
	return REAL(pread64)(fd, buf, n, off);
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return pread64(fd, buf, n, off); }
""")
p = csn("i.caibx", "t", "s1", "s2", srv.url, env=env)
check(p.returncode == 0 and read("t") == a + b, "the image is complete")
check(srv.log == [], "the second seed supplies everything: %r" % srv.log)
''', "a store that fails while a chunk is looked up, followed by one that has the chunk",
     "the store behind a failing one is skipped for that chunk")

seed("c06-break", "C06",
     [("store.c", "			substore->active = false;\n			continue;", "			substore->active = false;\n			break;")],
     '''
a, b = natural(40000, 1), natural(30000, 2)
write("i.caibx", index_of([a, b]))
write("t", bytes(70000))
srv = Server({})
srv.add(a)
srv.add(b)
# nothing listens on port 9 of an address csn cannot even parse
p = csn("i.caibx", "t", "http://[", srv.url)
check(p.returncode == 0 and read("t") == a + b, "the working store is used")
''', "a store that fails outright, followed by one that works", "the chunk during whose lookup a store fails is not looked for in later stores")

seed("c07-params", "C07",
     [("store-local.c", "	    caibx_params.avg_size != ls->chunker_params.avg_size ||\n", "")],
     '''
z = bytes(262144)
img = z + z + rnd(1, 20000)
write("i.caibx", index_of([z, z, rnd(1, 20000)]))
# same bounds but another average, cut differently
write("s.caibx", index_of([z[:131072]] * 4 + [rnd(1, 20000)], params=(16384, 40000, 262144)))
write("seed", img)
write("t", bytes([1]) * len(img))
p = csn("i.caibx", "t", "seed:s.caibx")
check(p.returncode == 0 and read("t") == img, "the unsuitable hint is ignored")
''', "a side-loaded index made with the same bounds but another average chunk size", "it is used although its chunks are cut differently")

seed("c07-maxclamp", "C07",
     [("store-local.c", "	memcpy(&ls->chunker_params, chunker_params, sizeof(*chunker_params));",
       "	ls->chunker_params.min_size = chunker_params->min_size;\n	ls->chunker_params.avg_size = chunker_params->avg_size;\n"
       "	// nobody can use larger chunks than this\n	ls->chunker_params.max_size = MIN(chunker_params->max_size, 256*1024u);")],
     """
# the index declares a larger maximum than its chunks have
img = rnd(5, 250000)
cx = casync_make(img, (50000, 200001, 400000))
check(all(e - s <= 262144 for s, e, _ in entries(cx)), "test setup")
write("i.caibx", cx)
write("seed", img)
write("t", bytes([1]) * len(img))
env = preload(\'\'\'
ssize_t read(int fd, void *buf, size_t n) {
	if (n > 4096) write(1, "SCANNED", 7);
	return REAL(read)(fd, buf, n);
}
ssize_t __read_chk(int fd, void *buf, size_t n, size_t m) { return read(fd, buf, n); }
''')
p = csn("i.caibx", "t", "seed:i.caibx", env=env)
check(p.returncode == 0 and read("t") == img, "the image is complete")
check(b"SCANNED" not in p.stdout, "a seed with a right hint is not scanned")
""", "an index with a maximum chunk size above 256 KiB", "the fitting hint is refused and the seed scanned")

seed("c08-min", "C08",
     [("chunker.c", "if (c->chunk_size < c->params.min_size)", "if (c->chunk_size <= c->params.min_size)")],
     '''
data = rnd(1, 400000)
cx = casync_make(data, (64, 100, 1000))
write("i.caibx", cx)
write("seed", data)
write("t", bytes(len(data)))
p = csn("i.caibx", "t", "seed")
check(p.returncode == 0 and read("t") == data, "the seed is cut like casync does it")
''', "data that casync cuts at exactly the minimum chunk size", "the boundary is missed, and the chunks around it are not found")

seed("c09-shortread", "C09",
     [("chunker.c", "		ssize_t bytes_read;\n\n", "		ssize_t bytes_read;\n		bool eof;\n\n"),
      ("chunker.c", "		} else if (bytes_read == 0)\n			break;\n", "		}\n\n		eof = (size_t)bytes_read < sizeof(buf);\n"),
      ("chunker.c", "			bytes_read -= chunker_ret;\n		}\n", "			bytes_read -= chunker_ret;\n		}\n\n		if (eof)\n			break;\n")],
     '''
a, b = natural(40000, 1), natural(30000, 2)
write("i.caibx", index_of([a, b]))
write("seed", a + b)
write("t", b"x" * 70000)
env = preload("""
ssize_t read(int fd, void *buf, size_t n) {
	if (n > 8000) n = 8000;
	return REAL(read)(fd, buf, n);
}
ssize_t __read_chk(int fd, void *buf, size_t n, size_t m) { return read(fd, buf, n); }
""")
p = csn("i.caibx", "t", "seed", env=env)
check(p.returncode == 0 and read("t") == a + b, "the whole seed is scanned")
''', "a read of a seed that returns less than asked for before its end", "scanning stops there and the rest of the seed is not found")

seed("c10-footer", "C10",
     [("caibx.c", "	if (tmp64 != expected_len) {", "	if (tmp64 < expected_len) {")],
     '''
a, b = rnd(1, 40000), rnd(2, 30000)
# a table of three entries of which one is gone
write("i.caibx", caibx([(40000, sha(a)), (70000, sha(b))], size=16 + 4 * 40))
srv = Server({})
srv.add(a)
srv.add(b)
write("t", bytes(70000))
p = csn("i.caibx", "t", srv.url)
check(p.returncode != 0, "the damaged index is refused")
check(read("t") == bytes(70000), "nothing is written")
''', "an index whose table lost entries while its footer still tells the old size", "the damaged index is accepted and part of the image is missing")

seed("c10-trailing", "C10",
     [("caibx.c", "	if ((file_size - CA_HEADER_LEN - CA_TABLE_MIN_LEN) % CA_TABLE_ENTRY_LEN) {\n		u_log(ERR, \"got a fractional number of table entries\");\n		return -1;\n	}",
       "	if ((file_size - CA_HEADER_LEN - CA_TABLE_MIN_LEN) % CA_TABLE_ENTRY_LEN)\n		u_log(WARN, \"got a fractional number of table entries\");")],
     '''
a, b = rnd(1, 40000), rnd(2, 30000)
write("i.caibx", index_of([a, b]) + b"junk")
srv = Server({})
srv.add(a)
srv.add(b)
write("t", bytes(70000))
p = csn("i.caibx", "t", srv.url)
check(p.returncode != 0, "the damaged index is refused")
''', "an index with less than an entry of trailing bytes", "an index that is longer than its table is accepted")

seed("c11-absorb", "C11",
     [("store-http.c", "		new_size = hs->decode_buffer_size + len;", "		new_size = MAX(2 * hs->decode_buffer_size, len);")],
     ENC_HELP + '''
a = rnd(1, 60000)
write("i.caibx", index_of([a]))
srv = Server({})
e = encrypted(zstd(a), sha(a))
srv.add(a, enc=".enc", body=[e[:3], e[3:]])
write("t", bytes(60000))
p = csn("i.caibx", "t", srv.url + "#encrypt=key:" + KEY)
check(p.returncode == 0 and read("t") == a, "the chunk is extracted")
''', "an encrypted response whose first piece is shorter than the zstd magic number, followed by a full piece",
     "the decode buffer is grown by too little and overflows")

seed("c12-order", "C12",
     [("store-http.c", "	if (ctx->hs->decode_buffer_fill || ctx->hs->encrypted) {", "	if (ctx->hs->encrypted) {")],
     '''
a = rnd(1, 60000)
write("i.caibx", index_of([a]))
srv = Server({})
e = zstd(a)
srv.add(a, body=[e[:3], e[3:]])
write("t", bytes(60000))
p = csn("i.caibx", "t", srv.url)
check(p.returncode == 0 and read("t") == a, "the chunk is extracted")
''', "an unencrypted response whose first piece is shorter than the zstd magic number", "the bytes left over are forgotten and the chunk is not decoded")

seed("c13-noreset", "C13",
     [("store-http.c", "	// everything went fine: reset the error counter\n	hs->error_count = 0;\n", "")],
     '''
chunks = [rnd(i, 17000) for i in range(26)]
write("i.caibx", index_of(chunks))
img = b"".join(chunks)
flaky, backup = Server({}), Server({})
for i, c in enumerate(chunks):
    backup.add(c)
    if i % 2:
        flaky.add(c)
    else:
        flaky.add(c, status=503, body=b"")
write("t", bytes(len(img)))
p = csn("i.caibx", "t", flaky.url, backup.url)
check(p.returncode == 0 and read("t") == img, "the image is complete")
check(len(flaky.log) == 26, "the flaky store stays in use")
''', "more than ten failures of a store with successful downloads in between", "the store is switched off although it works")

seed("c13-gone", "C13",
     [("store-http.c", "if (http_code == 404 || http_code == 410) {", "if (http_code == 404) {")],
     '''
chunks = [rnd(i, 17000) for i in range(16)]
write("i.caibx", index_of(chunks))
img = b"".join(chunks)
first, backup = Server({}), Server({})
for i, c in enumerate(chunks):
    backup.add(c)
    if i == 15:
        first.add(c)
    else:
        first.add(c, status=410, body=b"")
write("t", bytes(len(img)))
p = csn("i.caibx", "t", first.url, backup.url)
check(p.returncode == 0 and read("t") == img, "the image is complete")
check(len(first.log) == 16, "the store stays in use")
''', "a store that answers more than ten requests with 410 Gone", "chunks that were removed count as failures and switch the store off")

seed("c14-subkey-cache", "C14",
     [("encrypt.h", "	void *cipher;", "	void *cipher;\n	uint8_t subkey[32], subkey_nonce[8];\n	int have_subkey;"),
      ("encrypt.c", "	hchacha20(subkey, ctx->key, &nonce[0]);\n",
       "	if (!ctx->have_subkey || memcmp(ctx->subkey_nonce, nonce, sizeof(ctx->subkey_nonce)) != 0) {\n"
       "		hchacha20(ctx->subkey, ctx->key, &nonce[0]);\n		memcpy(ctx->subkey_nonce, nonce, sizeof(ctx->subkey_nonce));\n		ctx->have_subkey = 1;\n	}\n"
       "	memcpy(subkey, ctx->subkey, sizeof(subkey));\n"),
      ("encrypt.c", "	memcpy(ctx->key, key, 32);\n", "	memcpy(ctx->key, key, 32);\n	ctx->have_subkey = 0;\n")],
     '''
KEY = "12" * 32
i1, i2 = "ab" * 12 + "00" * 20, "ab" * 9 + "cd" * 23
for i in (i1, i2):
    write(i + ".cacnk", rnd(1, 500))
p = run(["csn-tool", "crypt", "key:" + KEY], exe=TOOL, stdin=("%s.cacnk\\n%s.cacnk\\n" % (i1, i2)).encode())
check(p.returncode == 0, "csn-tool works")
for i in (i1, i2):
    p = run(["csn-tool", "crypt", "key:" + KEY, i + ".cacnk", "-"], exe=TOOL)
    check(p.stdout == read(i + ".cacnk.enc"), "a chunk is encrypted alike in one go and among others")
''', "two chunk IDs in a row, with the same key, that share their first eight bytes", "the second chunk is encrypted with the subkey of the first")

seed("c15-sep", "C15",
     [("utils.c", "	for (size_t i = 0; in[i]; i++) {\n		int16_t n = nibble(in[i]);", "	size_t i = 0;\n\n	for (; *in; in++) {\n		// tolerate separators\n		if (*in == ':' || *in == '-')\n			continue;\n\n		int16_t n = nibble(*in);"),
      ("utils.c", "			u_log(ERR, \"invalid hex nibble '%c'\", in[i]);", "			u_log(ERR, \"invalid hex nibble '%c'\", *in);"),
      ("utils.c", "		if (i % 2 == 0) {\n			*out = (", "		if (i++ % 2 == 0) {\n			*out = (")],
     '''
write("ab" * 32 + ".cacnk", b"data")
p = run(["csn-tool", "crypt", "key:11:22" + "33" * 29 + "4", "ab" * 32 + ".cacnk"], exe=TOOL)
check(p.returncode != 0 and not os.path.exists("ab" * 32 + ".cacnk.enc"), "a key with separators is refused")
p = run(["csn-tool", "crypt", "key:11:" + "33" * 30 + "4", "ab" * 32 + ".cacnk"], exe=TOOL)
check(p.returncode != 0 and not os.path.exists("ab" * 32 + ".cacnk.enc"), "a key with separators is refused")
''', "a key of 64 characters of which some are colons or dashes", "a shorter key is accepted and its last bytes are whatever the memory held")

seed("c15-attr", "C15",
     [("store-http.c", "			u_log(ERR, \"unhandled store parameters: %s\", p);\n			return -1;", "			u_log(WARN, \"unhandled store parameters: %s\", p);")],
     '''
a = rnd(1, 20000)
write("i.caibx", index_of([a]))
write("t", bytes(20000))
srv = Server({})
srv.add(a)
p = csn("i.caibx", "t", srv.url + "#encryption=key:" + "11" * 32)
check(p.returncode != 0, "the unknown attribute is refused")
check(srv.log == [], "no request is made")
''', "a mistyped store attribute", "the attribute is ignored and the store is used without encryption")

seed("c16-overwrite", "C16",
     [("csn-tool.c", "		if (argc > 3)\n			output_path = argv[3];\n", "		if (argc > 3) {\n			// an explicitly named output is meant to be replaced\n			output_path = argv[3];\n			unlink(output_path);\n		}\n")],
     '''
n = "ab" * 32 + ".cacnk"
write(n, b"data")
write("out", b"precious, longer than the input")
p = run(["csn-tool", "crypt", "key:" + "11" * 32, n, "out"], exe=TOOL)
check(read("out") == b"precious, longer than the input", "the existing file is left alone")
''', "an explicitly given output that already exists", "an existing file is overwritten")

seed("c16-goon", "C16",
     [("csn-tool.c", "			if (encrypt_one(&ec, line, NULL) < 0)\n				goto out;", "			if (encrypt_one(&ec, line, NULL) < 0)\n				u_log(ERR, \"skipping '%s'\", line);")],
     '''
n1, n2, n3 = ("%02x" % i * 32 + ".cacnk" for i in (1, 2, 3))
write(n1, b"data")
write(n3, b"data")
p = run(["csn-tool", "crypt", "key:" + "11" * 32], exe=TOOL, stdin="\\n".join((n1, n2, n3, "")).encode())
check(p.returncode != 0 or os.path.exists(n2 + ".enc"), "a missing input is reported")
''', "several names on standard input of which one cannot be processed", "exit status 0 although an output is missing")

KC = '''
# a kernel hash socket that keeps what it was sent until the hash is read
FAKE = r"""
#include <openssl/sha.h>
static int kfd = -1;
static SHA256_CTX ctx;
static int sends, cutoff = -1, partial;
int socket(int d, int t, int p) {
	if (d != 38) return REAL(socket)(d, t, p);
	SHA256_Init(&ctx);
	if (getenv("K_CUT")) cutoff = atoi(getenv("K_CUT"));
	if (getenv("K_PART")) partial = atoi(getenv("K_PART"));
	return kfd = dup(0);
}
int close(int fd) { if (fd == kfd) kfd = -1; return REAL(close)(fd); }
int bind(int fd, const struct sockaddr *a, socklen_t l) { return fd == kfd ? 0 : REAL(bind)(fd, a, l); }
int accept(int fd, struct sockaddr *a, socklen_t *l) { return fd == kfd ? (kfd = dup(0)) : REAL(accept)(fd, a, l); }
ssize_t send(int fd, const void *b, size_t n, int f) {
	if (fd != kfd || kfd < 0) return REAL(send)(fd, b, n, f);
	if (cutoff >= 0 && sends++ == cutoff) { errno = ENOMEM; return -1; }
	if (partial && n > partial) n = partial;
	SHA256_Update(&ctx, b, n);
	return n;
}
ssize_t recv(int fd, void *b, size_t n, int f) {
	if (fd != kfd || kfd < 0) return REAL(recv)(fd, b, n, f);
	SHA256_Final(b, &ctx);
	SHA256_Init(&ctx);
	return 32;
}
"""


def kcapi():
    env = preload(FAKE)
    subprocess.run(["gcc", "-shared", "-fPIC", "-w", "-O1", "-o", "pre.so", "pre.c", "-ldl", "-lcrypto"], check=True)
    return dict(env, CSN_KCAPI_DRIVER="sha256")
'''
seed("c17-stale", "C17",
     [("sha.c", "			u_log_errno(\"send to kcapi failed\");\n			goto disable;", "			u_log_errno(\"send to kcapi failed\");\n			return (SHA256(data, len, out) != NULL) ? 0 : -1;")],
     KC + '''
chunks = [rnd(i, 20000) for i in range(6)]
img = b"".join(chunks)
write("i.caibx", index_of(chunks))
srv = Server({})
for c in chunks:
    srv.add(c)
write("t", bytes(len(img)))
env = kcapi()
p = csn("i.caibx", "t", srv.url, env=dict(env, K_CUT="4", K_PART="7000"))
check(p.returncode == 0 and read("t") == img, "the result is the same with the kernel's hashes: %d" % p.returncode)
''', "a send to the kernel that fails after part of the data was taken", "the next hash is computed by the kernel over the left-over data and comes out wrong")

seed("c18-pwrite-offset", "C18",
     [("utils.c", "		written_bytes += ret;\n		offset += ret;\n", "		written_bytes += ret;\n		offset += written_bytes;\n")],
     '''
a = rnd(1, 60000)
write("i.caibx", index_of([a]))
srv = Server({})
srv.add(a)
write("t", bytes(60000))
env = preload("""
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) {
	return REAL(pwrite64)(fd, buf, n > 20000 ? 20000 : n, off);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return pwrite64(fd, buf, n, off); }
""")
p = csn("i.caibx", "t", srv.url, env=env)
check(p.returncode == 0 and read("t") == a, "short writes are continued")
''', "a write that is completed in three or more parts", "the third part goes to the wrong place")

seed("c18-eintr", "C18",
     [("chunker.c", "			if (errno == EINTR)\n				continue;\n\n			u_log_errno(\"error at offset", "			u_log_errno(\"error at offset")],
     '''
a = natural(60000, 1)
write("i.caibx", index_of([a]))
write("seed", a)
write("t", bytes(60000))
env = preload("""
ssize_t read(int fd, void *buf, size_t n) {
	static int k; if (n > 4096 && k++ == 2) { errno = EINTR; return -1; }
	return REAL(read)(fd, buf, n);
}
ssize_t __read_chk(int fd, void *buf, size_t n, size_t m) { return read(fd, buf, n); }
""")
p = csn("i.caibx", "t", "seed", env=env)
check(p.returncode == 0 and read("t") == a, "the interrupted read is repeated")
''', "a signal during a read while a seed is scanned", "the run fails instead of reading again")

seed("c19-tail", "C19",
     [("patchdd.c", "	size_t offset;\n\n	for (offset = 0; offset < len; offset++)\n		if (a[offset] != b[offset])\n			break;\n\n	return offset;",
       "	size_t offset;\n\n	for (offset = 0; offset + 8 <= len; offset += 8)\n		if (memcmp(&a[offset], &b[offset], 8) != 0)\n			break;\n\n"
       "	while (offset % 8 && a[offset] == b[offset])\n		offset++;\n\n	return len - offset < 8 ? len : offset;")],
     '''
src = rnd(1, 100003)
write("src", src)
write("dst", src[:-1] + bytes([src[-1] ^ 1]) + b"tail")
p = run(["patchdd", "src", "dst"], exe=PATCHDD)
check(p.returncode == 0, "patchdd works")
check(read("dst") == src + b"tail", "the destination starts with the source")
''', "a difference only in the last bytes of a source whose length is no multiple of eight", "the difference is not written")

seed("c19-wordstart", "C19",
     [("patchdd.c", "		size_t first_diff = memcmp_offset(src_buf, dst_buf, to_read);", "		// write whole sectors\n		size_t first_diff = memcmp_offset(src_buf, dst_buf, to_read) & ~(size_t)511;")],
     '''
src = rnd(1, 100003)
write("src", src)
write("dst", src)
env = preload("""
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) {
	if (n) write(1, "WRITTEN", 7);
	return REAL(pwrite64)(fd, buf, n, off);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return pwrite64(fd, buf, n, off); }
""")
p = run(["patchdd", "src", "dst"], exe=PATCHDD, env=env)
check(p.returncode == 0 and read("dst") == src, "patchdd works")
check(b"WRITTEN" not in p.stdout, "nothing is written if nothing differs")
''', "equal contents whose length is no multiple of 512", "matching data is written again")

seed("c20-plus", "C20",
     [("main.c", 'getopt_long(argc, argv, "h", options, NULL)', 'getopt_long(argc, argv, "+h", options, NULL)')],
     '''
a = rnd(1, 20000)
write("i.caibx", index_of([a]))
write("t", bytes(20000))
srv = Server({})
srv.add(a)
p = run(["casync", "extract", "--store=" + srv.url, "i.caibx", "t"], exe=CSN)
check(p.returncode == 0 and read("t") == a, "options may follow the word extract")
''', "options behind the word extract", "these options are not seen, so nothing is extracted")

seed("c20-seedoutput", "C20",
     [("main.c", "			case ARG_SEED:\n				if", "			case ARG_SEED:\n			case ARG_SEED_OUTPUT:\n				if"),
      ("main.c", "			case ARG_SEED_OUTPUT:\n				// ignored to silence unknown option warning\n				// with rauc\n				break;\n", "")],
     '''
a = rnd(1, 20000)
write("i.caibx", index_of([a]))
write("t", bytes(20000))
srv = Server({})
srv.add(a)
p = run(["casync", "--store=" + srv.url, "--seed-output=no", "extract", "i.caibx", "t"], exe=CSN)
check(p.returncode == 0 and read("t") == a, "--seed-output is ignored")
''', "--seed-output on the command line", "its value is taken for the path of a seed")

seed("c21-strncmp", "C21",
     [("index.c", "	return memcmp(ie_a->id, ie_b->id, CHUNK_ID_LEN);", "	return strncmp((const char*)ie_a->id, (const char*)ie_b->id, CHUNK_ID_LEN);")],
     '''
zeros = []
i = 0
while len(zeros) < 4:
    c = natural(20000, i % 256)[:-48] + rnd(i, 8)
    c = bytes([i % 256, i // 256]) + bytes(20000 - 50) + bytes(46) + b"\\x05\\x8b"
    if sha(c)[0] == 0:
        zeros.append(c)
    i += 1
img = b"".join(zeros)
write("i.caibx", index_of(zeros))
write("seed", img)
write("t", b"x" * len(img))
p = csn("i.caibx", "t", "seed")
check(p.returncode == 0 and read("t") == img, "every chunk of the seed is found")
''', "several chunks whose IDs are equal up to a zero byte", "they are taken for the same chunk")

seed("c21-oncesorted", "C21",
     [("index.c", "	idx->sorted = false;\n	idx->n_entries++;", "	// appending at the end keeps the order\n	if (idx->n_entries && memcmp(idx->entries[0].id, id, CHUNK_ID_LEN) > 0)\n		idx->sorted = false;\n	idx->n_entries++;")],
     '''
chunks = [rnd(i, 20000) for i in range(40)]
chunks.sort(key=sha)
first = chunks[0]
order = [first] + chunks[1:][::-1]
write("i.caibx", index_of(order + order))
srv = Server({})
for c in chunks:
    srv.add(c)
img = b"".join(order + order)
write("t", bytes(len(img)))
p = csn("i.caibx", "t", "t", srv.url)
check(p.returncode == 0 and read("t") == img, "the image is complete")
check(len(srv.log) == 40, "every chunk is fetched once")
''', "chunks recorded after a lookup whose IDs are not in ascending order", "some are not found any more")

seed("c22-start32", "C22",
     [("index.h", "	uint64_t start;", "	uint32_t start;")],
     '''
import struct
a, b = rnd(1, 20000), rnd(2, 20000)
pos = (4 << 30) + 12345
ents = [(pos, sha(b"x")), (pos + 20000, sha(a)), (pos + 40000, sha(b))]
write("i.caibx", index_of([a, b]))
with open("seed", "wb") as f:
    f.seek(pos)
    f.write(a + b)
# cover the hole by entries of at most 4 GiB
write("s.caibx", caibx([(1 << 31, sha(b"x")), (pos, sha(b"y"))] + ents[1:]))
write("t", bytes(40000))
env = preload("""
ssize_t read(int fd, void *buf, size_t n) {
	static long total;
	ssize_t r = REAL(read)(fd, buf, n);
	if (r > 0 && (total += r) > 50000000) _exit(77);	/* do not wait for a scan of the whole file */
	return r;
}
ssize_t __read_chk(int fd, void *buf, size_t n, size_t m) { return read(fd, buf, n); }
""")
p = csn("i.caibx", "t", "seed:s.caibx", env=env)
check(p.returncode == 0 and read("t") == a + b, "chunks beyond 4 GiB are found")
''', "a seed with a chunk beyond 4 GiB", "the chunk is read from its position modulo 4 GiB")

seed("c22-check32", "C22",
     [("target.c", "	if (preadall(t->fd, tmp, len, offset) < 0) {\n		u_log(WARN", "	if (preadall(t->fd, tmp, len, (uint32_t)offset) < 0) {\n		u_log(WARN")],
     '''
z = bytes(262144)
a = rnd(1, 20000)
n = (4 << 30) // len(z)
ents = [((i + 1) * len(z), sha(z)) for i in range(n)] + [(n * len(z) + 20000, sha(a))]
write("i.caibx", caibx(ents))
with open("t", "wb") as f:
    f.truncate(4 << 30)
    f.seek(4 << 30)
    f.write(a)
srv = Server({})
srv.add(a)
p = csn("i.caibx", "t", srv.url)
check(p.returncode == 0, "csn succeeds")
check(srv.log == [], "the chunk beyond 4 GiB is seen to be in place")
''', "a target of more than 4 GiB that is complete already", "chunks beyond 4 GiB are verified at the position modulo 4 GiB and fetched again")

seed("c23-slash-order", "C23",
     [("store-http.c", "	char *p;\n	p = strrchr(tmp, '#');", "	char *p;\n	if ((p = strrchr(tmp, '/')) && *(p+1) == 0)\n		*p = 0;\n\n	p = strrchr(tmp, '#');"),
      ("store-http.c", "	if ((p = strrchr(tmp, '/')) && *(p+1) == 0)\n		*p = 0;\n\n	hs->baseurl = tmp;", "	hs->baseurl = tmp;")],
     ENC_HELP + '''
a = rnd(1, 20000)
write("i.caibx", index_of([a]))
write("t", bytes(20000))
srv = Server({})
srv.add(a, enc=".enc", prefix="/st", body=encrypted(zstd(a), sha(a)))
p = csn("i.caibx", "t", srv.url + "/st/#encrypt=key:" + KEY)
check(p.returncode == 0 and read("t") == a, "the chunk is found")
check(srv.log == ["/st" + srv.path(sha(a), ".enc")], "the path has no double slash")
''', "a store URL with both a trailing slash and attributes", "requests get a double slash")

seed("c23-longurl", "C23",
     [("store-http.c", "	hs->url_buf = malloc(strlen(hs->baseurl) + CHUNK_SUFFIX_MAX_LEN + 1);", "	hs->url_buf = malloc(MAX(strlen(hs->baseurl), sizeof(hs->s.name)) + CHUNK_SUFFIX_MAX_LEN + 1);"),
      ("store-http.c", '	ret = sprintf(hs->url_buf, "%s/%02x%02x/", hs->baseurl, id[0], id[1]);', '	ret = sprintf(hs->url_buf, "%.240s/%02x%02x/", hs->baseurl, id[0], id[1]);')],
     '''
a = rnd(1, 20000)
write("i.caibx", index_of([a]))
write("t", bytes(20000))
srv = Server({})
pre = "/" + "d" * 300
srv.add(a, prefix=pre)
p = csn("i.caibx", "t", srv.url + pre)
check(p.returncode == 0 and read("t") == a, "the chunk is found")
''', "a store URL of more than 240 characters", "requests go to a truncated URL")
