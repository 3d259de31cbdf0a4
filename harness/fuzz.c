/* libFuzzer target over the parts of csn that digest foreign data.  The first byte selects the part. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <time.h>
#include <sys/mman.h>
#include <curl/curl.h>
#include <openssl/sha.h>
#include <zstd.h>

#include "utils.h"
#include "caibx.h"
#include "chunker.h"
#include "chunk.h"
#include "index.h"
#include "encrypt.h"
#include "store.h"
#include "store-http.h"
#include "store-local.h"

#define CHECK(c) do { if (!(c)) { fprintf(stderr, "INVARIANT line %d: %s\n", __LINE__, #c); abort(); } } while (0)
#define MAXCHUNK (256*1024)

/* ---- simulated transport */

static size_t (*write_cb)(char *, size_t, size_t, void *);
static void *write_data;
static char *err_buf;
static const uint8_t *script;
static size_t script_len;
static unsigned frag;
static long last_status;
static unsigned attempts;

CURLcode __wrap_curl_global_init(long f) { return CURLE_OK; }
CURL *__wrap_curl_easy_init(void) { static int dummy; return &dummy; }
void __wrap_curl_easy_cleanup(CURL *c) {}
int __wrap_usleep(unsigned u) { return 0; }
unsigned __wrap_sleep(unsigned s) { return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { return 0; }

CURLcode __wrap_curl_easy_setopt(CURL *c, CURLoption o, ...)
{
	va_list ap;
	va_start(ap, o);
	if (o == CURLOPT_WRITEFUNCTION)
		write_cb = va_arg(ap, void *);
	else if (o == CURLOPT_WRITEDATA)
		write_data = va_arg(ap, void *);
	else if (o == CURLOPT_ERRORBUFFER)
		err_buf = va_arg(ap, char *);
	else if (o == CURLOPT_URL)
		CHECK(strlen(va_arg(ap, const char *)) > 64);
	va_end(ap);
	return CURLE_OK;
}

CURLcode __wrap_curl_easy_getinfo(CURL *c, CURLINFO i, ...)
{
	va_list ap;
	va_start(ap, i);
	if (i == CURLINFO_RESPONSE_CODE)
		*va_arg(ap, long *) = last_status;
	va_end(ap);
	return CURLE_OK;
}

/* script: STATUS CODE LEN16 BODY */
CURLcode __wrap_curl_easy_perform(CURL *c)
{
	static const long st[] = { 200, 404, 500, 200, 206, 0, 200, 410 };
	static const int cc[] = { 0, 28, 7, 6, 56, 0, 18, 0 };
	CHECK(++attempts < 100000);
	if (script_len < 4) {
		last_status = 404;
		return CURLE_OK;
	}
	last_status = st[script[0] % 8];
	int code = cc[script[1] % 8];
	size_t len = script[2] | script[3] << 8;
	script += 4;
	script_len -= 4;
	if (len > script_len)
		len = script_len;
	const uint8_t *b = script;
	script += len;
	script_len -= len;
	if (last_status == 0 && code == 0)
		last_status = 200;
	if (last_status)
		while (len) {
			size_t n = frag ? frag : len;
			if (n > len)
				n = len;
			if (n > 16384)
				n = 16384;
			char *p = malloc(n);
			memcpy(p, b, n);
			size_t r = write_cb(p, 1, n, write_data);
			free(p);
			if (r != n)
				return CURLE_WRITE_ERROR;
			b += n;
			len -= n;
		}
	if (code && err_buf)
		strcpy(err_buf, "simulated");
	return code;
}

/* ---- parts */

static int new_file(const uint8_t *d, size_t n)
{
	int fd = memfd_create("fz", 0);
	CHECK(fd >= 0);
	while (n) {
		ssize_t r = write(fd, d, n);
		CHECK(r > 0);
		d += r;
		n -= r;
	}
	return fd;
}

struct walk {
	uint64_t last;
	uint64_t n;
	struct index *idx;
	uint8_t id[32];
};

static int entry(uint64_t off, uint32_t len, uint8_t *id, void *arg)
{
	struct walk *w = arg;
	CHECK(off == w->last);
	CHECK(len > 0);
	w->last = off + len;
	w->n++;
	memcpy(w->id, id, 32);
	if (w->idx)
		index_insert(w->idx, off, len, id);
	return 0;
}

static void f_caibx(const uint8_t *d, size_t n)
{
	int fd = new_file(d, n);
	struct chunker_params p;
	size_t entries;
	if (caibx_load_header(fd, &p, &entries) >= 0) {
		CHECK(p.min_size < p.avg_size && p.avg_size < p.max_size);
		CHECK(n >= 104 && entries == (n - 104) / 40);
		struct index idx;
		CHECK(index_init(&idx, entries) == 0);
		struct walk w = { .idx = &idx };
		if (caibx_iterate_entries(fd, &p, entries, entry, &w) >= 0) {
			CHECK(w.n == entries);
			for (size_t i = 0; i < entries; i++) {
				uint8_t id[32];
				memcpy(id, d + 64 + 40 * i + 8, 32);
				struct index_entry *e = index_query(&idx, id);
				CHECK(e && !memcmp(e->id, id, 32));
			}
		}
		index_cleanup(&idx);
	}
	close(fd);
}

static bool get_params(struct chunker_params *p, const uint8_t *d)
{
	uint32_t v[3];
	memcpy(v, d, 12);
	return chunker_params_set(p, v[0], v[1], v[2]) >= 0;
}

static size_t scan(struct chunker_params *p, const uint8_t *d, size_t n, const uint8_t *sizes, size_t n_sizes, size_t *ends, uint8_t (*ids)[32], size_t max)
{
	struct chunker c;
	CHECK(chunker_init(&c, p) >= 0);
	size_t k = 0, pos = 0, last = 0, s = 0;
	while (pos < n) {
		size_t len = n_sizes ? sizes[s++ % n_sizes] + 1u : n;
		if (len > n - pos)
			len = n - pos;
		uint8_t *b = malloc(len);
		memcpy(b, d + pos, len);
		size_t off = 0;
		while (off < len) {
			size_t r = chunker_scan(&c, b + off, len - off);
			if (r == (size_t)-1)
				break;
			CHECK(r <= len - off);
			off += r;
			CHECK(k < max);
			chunker_get_id(&c, ids[k]);
			ends[k++] = pos + off;
			CHECK(pos + off > last);
			last = pos + off;
			chunker_reset(&c);
		}
		free(b);
		pos += len;
	}
	if (last != n) {
		chunker_get_id(&c, ids[k]);
		ends[k++] = n;
	}
	return k;
}

static void f_chunker(const uint8_t *d, size_t n)
{
	struct chunker_params p;
	if (n < 16 || !get_params(&p, d))
		return;
	uint8_t sizes[3] = { d[12], d[13], d[14] };
	d += 15;
	n -= 15;
	static size_t e1[4100], e2[4100];
	static uint8_t i1[4100][32], i2[4100][32];
	size_t a = scan(&p, d, n, sizes, 3, e1, i1, 4090), b = scan(&p, d, n, NULL, 0, e2, i2, 4090);
	CHECK(a == b);
	size_t last = 0;
	for (size_t i = 0; i < a; i++) {
		CHECK(e1[i] == e2[i]);
		uint8_t id[32];
		SHA256(d + last, e1[i] - last, id);
		CHECK(!memcmp(id, i1[i], 32) && !memcmp(id, i2[i], 32));
		if (p.min_size >= 48) {
			CHECK(e1[i] - last <= p.max_size);
			CHECK(i + 1 == a || e1[i] - last >= p.min_size);
		}
		last = e1[i];
	}
	CHECK(last == n);
	int fd = new_file(d, n);
	struct walk w = { 0 };
	CHECK(chunker_scan_fd(fd, &p, entry, &w) >= 0);
	CHECK(w.last == n && w.n == a);
	close(fd);
}

static void f_http(const uint8_t *d, size_t n)
{
	if (n < 6)
		return;
	bool enc = d[0] & 1;
	frag = d[1];
	script = d + 2;
	script_len = n - 2;
	attempts = 0;
	struct store *s = store_http_new(enc ? "http://a/#encrypt=key:000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f" : "http://a/");
	CHECK(s);
	static uint8_t *out;
	if (!out)
		out = malloc(MAXCHUNK);
	for (int k = 0; k < 6 && script_len >= 4; k++) {
		uint8_t id[32];
		/* the id of what is about to be delivered, if that is plain zstd */
		size_t len = script[2] | script[3] << 8;
		if (len > script_len - 4)
			len = script_len - 4;
		memset(id, k, 32);
		if (!enc) {
			static uint8_t t[MAXCHUNK];
			size_t r = ZSTD_decompress(t, MAXCHUNK, script + 4, len);
			if (!ZSTD_isError(r))
				SHA256(t, r, id);
		}
		ssize_t r = store_get_chunk(s, id, out, MAXCHUNK);
		CHECK(r <= MAXCHUNK);
		if (r > 0) {
			uint8_t got[32];
			SHA256(out, r, got);
			CHECK(!memcmp(got, id, 32));
		}
		if (r < 0)
			break;
	}
	store_free(s);
}

static void f_keyspec(const uint8_t *d, size_t n)
{
	char *s = malloc(n + 1);
	memcpy(s, d, n);
	s[n] = 0;
	if (strncmp(s, "file:", 5) != 0) {
		uint8_t *key = malloc(32);
		if (encrypt_parse_keyspec(key, s) >= 0 && strncmp(s, "key:", 4) == 0)
			CHECK(strlen(s) == 68);
		free(key);
	}
	if (n > 0 && n < 900 && !strchr(s, '/')) {
		char *u = malloc(n + 20);
		sprintf(u, "http://a/#%s", s);
		if (!strstr(u, "file:")) {
			struct store *st = store_http_new(u);
			if (st)
				store_free(st);
		}
		free(u);
	}
	free(s);
}

static void f_local(const uint8_t *d, size_t n)
{
	if (n < 16)
		return;
	struct chunker_params p;
	bool hint = d[0] & 1;
	if (!get_params(&p, d + 1))
		return;
	size_t il = d[13] | d[14] << 8;
	d += 15;
	n -= 15;
	if (il > n)
		il = n;
	int ifd = new_file(d, il), sfd = new_file(d + il, n - il);
	char ip[64], sp[64];
	sprintf(ip, "/proc/self/fd/%d", ifd);
	sprintf(sp, "/proc/self/fd/%d", sfd);
	struct store *s = store_local_new(sp, hint ? ip : NULL, &p);
	if (s) {
		static uint8_t *out;
		if (!out)
			out = malloc(MAXCHUNK);
		for (int k = 0; k < 8; k++) {
			uint8_t id[32];
			size_t off = 64 + 40 * k + 8;
			if (off + 32 <= il)
				memcpy(id, d + off, 32);
			else
				memset(id, k, 32);
			ssize_t r = store_get_chunk(s, id, out, MAXCHUNK);
			CHECK(r <= MAXCHUNK);
			if (r > 0) {
				uint8_t got[32];
				SHA256(out, r, got);
				CHECK(!memcmp(got, id, 32));
			}
			if (r < 0)
				break;
		}
		}
	/* the store keeps its file open; there is no way to get at the descriptor */
	for (int fd = 3; fd < 64; fd++) {
		char l[64], t[64];
		sprintf(l, "/proc/self/fd/%d", fd);
		ssize_t r = readlink(l, t, 63);
		if (r > 0) {
			t[r] = 0;
			if (strstr(t, "memfd:fz"))
				close(fd);
		}
	}
	if (s)
		store_free(s);
}

static void f_index(const uint8_t *d, size_t n)
{
	if (n < 2)
		return;
	struct index idx;
	if (index_init(&idx, d[0] % 5) < 0)
		return;
	struct { uint8_t id[32]; uint64_t off; } ref[600];
	size_t k = 0;
	for (size_t i = 1; i + 1 < n && k < 600; i += 2) {
		uint8_t id[32];
		memset(id, 0, 32);
		id[d[i] % 32] = d[i + 1] & 3;
		id[31] |= d[i + 1] >> 4 & 3;
		bool have = false;
		for (size_t j = 0; j < k; j++)
			have |= !memcmp(ref[j].id, id, 32);
		if (d[i] & 0x80) {
			CHECK(index_insert(&idx, i, d[i + 1] + 1u, id));
			memcpy(ref[k].id, id, 32);
			ref[k++].off = i;
		} else {
			struct index_entry *e = index_query(&idx, id);
			CHECK(!!e == have);
			if (e) {
				bool ok = false;
				CHECK(!memcmp(e->id, id, 32));
				for (size_t j = 0; j < k; j++)
					ok |= ref[j].off == e->start && !memcmp(ref[j].id, id, 32) && e->len == d[ref[j].off + 1] + 1u;
				CHECK(ok);
			}
		}
	}
	index_cleanup(&idx);
}

int LLVMFuzzerInitialize(int *argc, char ***argv)
{
	u_log_init();
	return 0;
}

int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
	if (n < 2)
		return 0;
	/* an exact copy, so that overruns are noticed */
	uint8_t *c = malloc(n - 1);
	memcpy(c, d + 1, n - 1);
	switch (d[0] % 6) {
	case 0: f_caibx(c, n - 1); break;
	case 1: f_chunker(c, n - 1); break;
	case 2: f_http(c, n - 1); break;
	case 3: f_keyspec(c, n - 1); break;
	case 4: f_local(c, n - 1); break;
	case 5: f_index(c, n - 1); break;
	}
	free(c);
	return 0;
}
