/* Independent reference implementations, written from the specifications:
 *  - casync's content-defined chunking (48 byte buzhash window, evaluated afresh at
 *    every position rather than rolled),
 *  - XChaCha20 (draft-irtf-cfrg-xchacha-03) with the block counter starting at 0.
 */
#include <stdint.h>
#include <stddef.h>
#include <string.h>

static uint32_t table[256];
void ref_set_table(const uint32_t *t) { memcpy(table, t, sizeof(table)); }

static uint32_t rol(uint32_t x, unsigned n) { n &= 31; return n ? (x << n) | (x >> (32 - n)) : x; }

/* Writes the end offsets of all chunks of data to ends (at most max_ends), returns their number.
 * roll != 0 uses the rolling form (same result, faster). */
size_t ref_chunk(const uint8_t *data, size_t len, uint64_t min, uint64_t max, uint64_t disc,
                 uint64_t *ends, size_t max_ends, int roll)
{
	size_t n = 0, start = 0;
	while (start < len) {
		size_t remain = len - start, cut = remain;
		uint32_t h = 0;
		size_t last = 0;
		for (size_t sz = 48; sz <= remain; sz++) {
			/* hash over the last 48 bytes of the chunk so far */
			if (sz < min && sz < max)
				continue;
			if (!roll || last == 0 || last != sz - 1) {
				const uint8_t *w = data + start + sz - 48;
				h = 0;
				for (unsigned i = 0; i < 48; i++)
					h ^= rol(table[w[i]], 47 - i);
			} else {
				h = rol(h, 1) ^ rol(table[data[start + sz - 49]], 48) ^ table[data[start + sz - 1]];
			}
			last = sz;
			if (sz >= max || (sz >= min && h % disc == disc - 1)) {
				cut = sz;
				break;
			}
		}
		start += cut;
		if (n < max_ends)
			ends[n] = start;
		n++;
	}
	return n;
}

#define QR(a,b,c,d) a+=b;d=rol(d^a,16);c+=d;b=rol(b^c,12);a+=b;d=rol(d^a,8);c+=d;b=rol(b^c,7)
static void rounds(uint32_t x[16])
{
	for (int i = 0; i < 10; i++) {
		QR(x[0],x[4],x[8],x[12]); QR(x[1],x[5],x[9],x[13]);
		QR(x[2],x[6],x[10],x[14]); QR(x[3],x[7],x[11],x[15]);
		QR(x[0],x[5],x[10],x[15]); QR(x[1],x[6],x[11],x[12]);
		QR(x[2],x[7],x[8],x[13]); QR(x[3],x[4],x[9],x[14]);
	}
}
static uint32_t ld(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static void st(uint8_t *p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }

void ref_hchacha20(uint8_t out[32], const uint8_t key[32], const uint8_t in[16])
{
	uint32_t x[16] = { 0x61707865, 0x3320646e, 0x79622d32, 0x6b206574 };
	for (int i = 0; i < 8; i++) x[4+i] = ld(key + 4*i);
	for (int i = 0; i < 4; i++) x[12+i] = ld(in + 4*i);
	rounds(x);
	for (int i = 0; i < 4; i++) { st(out + 4*i, x[i]); st(out + 16 + 4*i, x[12+i]); }
}

void ref_xchacha20_at(uint8_t *buf, size_t len, const uint8_t key[32], const uint8_t nonce[24], uint64_t ctr)
{
	uint8_t sub[32];
	ref_hchacha20(sub, key, nonce);
	while (len) {
		uint32_t s[16] = { 0x61707865, 0x3320646e, 0x79622d32, 0x6b206574 }, x[16];
		for (int i = 0; i < 8; i++) s[4+i] = ld(sub + 4*i);
		s[12] = (uint32_t)ctr; s[13] = ctr >> 32;
		s[14] = ld(nonce + 16); s[15] = ld(nonce + 20);
		memcpy(x, s, sizeof(x));
		rounds(x);
		uint8_t ks[64];
		for (int i = 0; i < 16; i++) st(ks + 4*i, x[i] + s[i]);
		size_t n = len < 64 ? len : 64;
		for (size_t i = 0; i < n; i++) buf[i] ^= ks[i];
		buf += n; len -= n; ctr++;
	}
}

void ref_xchacha20(uint8_t *buf, size_t len, const uint8_t key[32], const uint8_t nonce[24])
{
	ref_xchacha20_at(buf, len, key, nonce, 0);
}
