/* Drives the library-like parts of the program by a script (one operation per line):
 *
 *   idx SIZE                     new index with that estimate
 *   ins OFF LEN ID               record a chunk
 *   q ID                         -> "q OFF LEN" or "q -"
 *   buf FILE                     load data
 *   params MIN AVG MAX           -> "params 0|-1"
 *   scan N N N ...               feed the data in pieces of these sizes (cyclic) -> "c OFF LEN ID" per chunk, "scan -"
 *   scanfd FILE                  chunker_scan_fd -> likewise
 *   keyspec SPEC                 -> "key RET HEX"
 *   encinit KEY | encnonce HEX24 | encdo N N N ... (pieces, cyclic; 0 = in place flag, see below) -> "enc HEX"
 *   encbig N N N ...             encrypts that many zero bytes, piece by piece, of any size -> "big HEX" per piece: its last 96 bytes
 *   kcapi DRIVER                 -> "kcapi RET"
 *   sha OFF LEN                  -> "sha RET HEX"
 *   caibx FILE                   -> "hdr RET MIN AVG MAX N", "e OFF LEN ID" ..., "iter RET"
 */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <sys/mman.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <inttypes.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>

#include "utils.h"
#include "caibx.h"
#include "chunker.h"
#include "chunk.h"
#include "sha.h"
#include "index.h"
#include "encrypt.h"

static void unhex(uint8_t *out, const char *in, size_t n)
{
	for (size_t i = 0; i < n; i++) {
		unsigned v = 0;
		sscanf(in + 2 * i, "%2x", &v);
		out[i] = v;
	}
}

static void puthex(const uint8_t *d, size_t n)
{
	static const char dig[] = "0123456789abcdef";
	for (size_t i = 0; i < n; i++) {
		putchar(dig[d[i] >> 4]);
		putchar(dig[d[i] & 15]);
	}
}

static uint8_t *data;
static size_t data_len;
static struct chunker_params params;

static int print_entry(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
{
	printf("%s %" PRIu64 " %" PRIu32 " ", (const char *)arg, offset, len);
	puthex(id, CHUNK_ID_LEN);
	putchar('\n');
	return 0;
}

static size_t parse_sizes(char *s, size_t *out, size_t max)
{
	size_t n = 0;
	for (char *p = strtok(s, " "); p && n < max; p = strtok(NULL, " "))
		out[n++] = strtoul(p, NULL, 10);
	return n;
}

static void do_scan(char *args)
{
	size_t sizes[256];
	size_t n = parse_sizes(args, sizes, 256), k = 0, pos = 0, last = 0;
	struct chunker c;
	if (chunker_init(&c, &params) < 0) {
		printf("scan init failed\n");
		return;
	}
	uint8_t id[CHUNK_ID_LEN];
	unsigned long zero = 0;
	while (pos < data_len) {
		size_t len = n ? sizes[k++ % n] : data_len;
		if (len > data_len - pos)
			len = data_len - pos;
		if (len == 0 && ++zero > 1000) {
			zero = 0;
			continue;
		}
		uint8_t *piece = malloc(len ? len : 1);
		memcpy(piece, data + pos, len);
		size_t off = 0;
		for (;;) {
			size_t r = chunker_scan(&c, piece + off, len - off);
			if (r == (size_t)-1) {
				break;
			}
			if (r > len - off) {
				printf("consumed too much: %zu of %zu\n", r, len - off);
				exit(0);
			}
			off += r;
			/* nothing more is consumed until the restart */
			uint8_t more[100];
			memset(more, 0x55, sizeof(more));
			size_t r2 = chunker_scan(&c, more, sizeof(more));
			if (r2 != 0)
				printf("consumes %zd after a boundary\n", (ssize_t)r2);
			chunker_get_id(&c, id);
			print_entry(last, pos + off - last, id, "c");
			last = pos + off;
			chunker_reset(&c);
			if (off == len)
				break;
		}
		pos += len;
		free(piece);
	}
	if (last != data_len) {
		chunker_get_id(&c, id);
		print_entry(last, data_len - last, id, "c");
	}
	printf("scan -\n");
}

int app_main(int argc, char **argv)
{
	u_log_init();
	if (argc < 2)
		return 1;
	FILE *f = fopen(argv[1], "r");
	if (!f)
		return 1;
	static char line[1 << 16];
	struct index idx;
	bool have_idx = false, have_enc = false;
	struct encrypt_ctx enc;
	while (fgets(line, sizeof(line), f)) {
		size_t l = strlen(line);
		if (l && line[l - 1] == '\n')
			line[--l] = 0;
		char *args = strchr(line, ' ');
		if (args)
			*args++ = 0;
		else
			args = line + l;
		if (streq(line, "idx")) {
			if (have_idx)
				index_cleanup(&idx);
			have_idx = index_init(&idx, strtoul(args, NULL, 10)) == 0;
			printf("idx %d\n", have_idx);
		} else if (streq(line, "ins")) {
			unsigned long long off;
			unsigned long len;
			char hex[65];
			uint8_t id[32];
			sscanf(args, "%llu %lu %64s", &off, &len, hex);
			unhex(id, hex, 32);
			if (!index_insert(&idx, off, len, id))
				printf("ins failed\n");
		} else if (streq(line, "q")) {
			uint8_t *id = malloc(32);
			unhex(id, args, 32);
			struct index_entry *e = index_query(&idx, id);
			if (e)
				printf("q %llu %lu %s\n", (unsigned long long)e->start, (unsigned long)e->len,
				       memcmp(e->id, id, 32) ? "foreign" : "own");
			else
				printf("q -\n");
			free(id);
		} else if (streq(line, "buf")) {
			int fd = open(args, O_RDONLY);
			struct stat st;
			fstat(fd, &st);
			free(data);
			data_len = st.st_size;
			data = malloc(data_len ? data_len : 1);
			size_t got = 0;
			while (got < data_len) {
				ssize_t r = read(fd, data + got, data_len - got);
				if (r <= 0)
					return 1;
				got += r;
			}
			close(fd);
		} else if (streq(line, "params")) {
			unsigned long long a, b, c;
			sscanf(args, "%llu %llu %llu", &a, &b, &c);
			printf("params %d\n", chunker_params_set(&params, a, b, c) < 0 ? -1 : 0);
		} else if (streq(line, "scan")) {
			do_scan(args);
		} else if (streq(line, "scanfd")) {
			int fd = open(args, O_RDONLY);
			int r = chunker_scan_fd(fd, &params, print_entry, "c");
			printf("scan %s\n", r < 0 ? "failed" : "-");
			close(fd);
		} else if (streq(line, "keyspec")) {
			uint8_t *key = malloc(32);
			int r = encrypt_parse_keyspec(key, args);
			printf("key %d ", r < 0 ? -1 : 0);
			if (r >= 0)
				puthex(key, 32);
			putchar('\n');
			free(key);
		} else if (streq(line, "encinit")) {
			uint8_t key[32];
			unhex(key, args, 32);
			if (have_enc)
				encrypt_close(&enc);
			have_enc = encrypt_init(&enc, key) == 0;
			memset(key, 0, sizeof(key));
		} else if (streq(line, "encnonce")) {
			uint8_t *nonce = malloc(24);
			unhex(nonce, args, 24);
			printf("nonce %d\n", encrypt_restart(&enc, nonce) < 0 ? -1 : 0);
			free(nonce);
		} else if (streq(line, "encdo")) {
			size_t sizes[256];
			size_t n = parse_sizes(args, sizes, 256), k = 0, pos = 0;
			bool bad = false;
			fputs("enc ", stdout);
			while (pos < data_len) {
				size_t len = n ? sizes[k++ % n] : data_len;
				if (!len)
					len = 1;
				if (len > data_len - pos)
					len = data_len - pos;
				uint8_t *in = malloc(len);
				memcpy(in, data + pos, len);
				uint8_t *out = k % 2 ? in : malloc(len);
				if (encrypt_do(&enc, out, in, len) < 0)
					bad = true;
				puthex(out, len);
				if (out != in)
					free(out);
				free(in);
				pos += len;
			}
			printf("%s\n", bad ? " failed" : "");
		} else if (streq(line, "encbig")) {
			// the output is a small object mapped again and again
			const size_t window = 16 << 20;
			size_t sizes[256];
			size_t n = parse_sizes(args, sizes, 256);
			int fd = memfd_create("out", 0);
			uint8_t *filler = malloc(window);
			memset(filler, 0xa5, window);
			for (size_t i = 0; i < n; i++) {
				size_t len = sizes[i], span = (len + window - 1) / window * window;
				if (!len)
					continue;
				if (pwrite(fd, filler, window, 0) != (ssize_t)window)
					return 2;
				uint8_t *in = mmap(NULL, span, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
				uint8_t *out = mmap(NULL, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
				if (in == MAP_FAILED || out == MAP_FAILED)
					return 2;
				for (size_t o = 0; o < span; o += window)
					if (mmap(out + o, window, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
						return 2;
				bool bad = encrypt_do(&enc, out, in, len) < 0;
				size_t m = len < 96 ? len : 96;
				fputs("big ", stdout);
				puthex(out + len - m, m);
				puts(bad ? " failed" : "");
				munmap(in, span);
				munmap(out, span);
			}
			free(filler);
			close(fd);
		} else if (streq(line, "kcapi")) {
			printf("kcapi %d\n", sha_kcapi_init(args) < 0 ? -1 : 0);
		} else if (streq(line, "sha")) {
			unsigned long off, len;
			sscanf(args, "%lu %lu", &off, &len);
			uint8_t *in = malloc(len ? len : 1), *out = malloc(32);
			memcpy(in, data + off, len);
			int r = sha_once(in, len, out);
			printf("sha %d ", r);
			puthex(out, 32);
			putchar('\n');
			free(in);
			free(out);
		} else if (streq(line, "caibx")) {
			struct chunker_params p = {0};
			size_t n = 0;
			int fd = open(args, O_RDONLY);
			int r = fd < 0 ? -1 : caibx_load_header(fd, &p, &n);
			if (r < 0) {
				printf("hdr -1\n");
			} else {
				printf("hdr 0 %lu %lu %lu %zu\n", (unsigned long)p.min_size, (unsigned long)p.avg_size,
				       (unsigned long)p.max_size, n);
				r = caibx_iterate_entries(fd, &p, n, print_entry, "e");
				printf("iter %d\n", r < 0 ? -1 : 0);
			}
			if (fd >= 0)
				close(fd);
		} else if (*line) {
			printf("unknown operation %s\n", line);
			return 1;
		}
	}
	printf("done\n");
	fflush(stdout);
	return 0;
}
