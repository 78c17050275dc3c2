/* Independent reference implementations, loaded through ctypes:
 *  - casync's content defined chunker (from its description in cachunker.c)
 *  - XChaCha20 (draft-irtf-cfrg-xchacha-03)
 */
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include "reftable.h"

static uint32_t rotl(uint32_t v, unsigned n) { n &= 31; return n ? (v << n) | (v >> (32 - n)) : v; }

/* window hash from scratch, for self checks */
uint32_t ref_hash48(const uint8_t *w)
{
	uint32_t h = 0;
	for (unsigned i = 0; i < 48; i++)
		h ^= rotl(REF_TABLE[w[i]], 47 - i);
	return h;
}

uint64_t ref_discriminator(uint64_t avg)
{
	double d = (double)avg / (-1.42888852e-7 * (double)avg + 1.33237515);
	if (!(d >= 1.0)) return 0;
	if (d > 1e18) return UINT64_MAX;
	return (uint64_t)d;
}

/* writes chunk end offsets, returns their number (or -1 if more than cap) */
long ref_chunk(const uint8_t *p, size_t n, uint64_t min, uint64_t avg, uint64_t max, uint64_t *ends, size_t cap)
{
	uint64_t disc = ref_discriminator(avg);
	size_t start = 0, cnt = 0;

	while (start < n) {
		size_t len = 48, rest = n - start, end = n;
		if (rest >= 48) {
			uint32_t h = ref_hash48(p + start);
			for (;;) {
				int brk = 0;
				if (len >= max)
					brk = 1;
				else if (len >= min)
					brk = disc && (h % disc) == disc - 1;
				if (brk) { end = start + len; break; }
				if (len == rest) break;
				/* byte leaving: p[start+len-48]; entering: p[start+len] */
				h = rotl(h, 1) ^ rotl(REF_TABLE[p[start + len - 48]], 48 % 32) ^ REF_TABLE[p[start + len]];
				len++;
			}
		}
		if (cnt == cap) return -1;
		ends[cnt++] = end;
		start = end;
	}
	return (long)cnt;
}

#define QR(a,b,c,d) do { \
	x[a] += x[b]; x[d] = rotl(x[d] ^ x[a], 16); \
	x[c] += x[d]; x[b] = rotl(x[b] ^ x[c], 12); \
	x[a] += x[b]; x[d] = rotl(x[d] ^ x[a], 8); \
	x[c] += x[d]; x[b] = rotl(x[b] ^ x[c], 7); } while (0)

static uint32_t ld(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static void st(uint8_t *p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }

static void rounds(uint32_t x[16])
{
	for (int i = 0; i < 10; i++) {
		QR(0,4,8,12); QR(1,5,9,13); QR(2,6,10,14); QR(3,7,11,15);
		QR(0,5,10,15); QR(1,6,11,12); QR(2,7,8,13); QR(3,4,9,14);
	}
}

static const char SIGMA[] = "expand 32-byte k";

void ref_xchacha20(const uint8_t key[32], const uint8_t nonce[24], const uint8_t *in, uint8_t *out, size_t n)
{
	uint32_t x[16], s[16];
	uint8_t sub[32];

	for (int i = 0; i < 4; i++) x[i] = ld((const uint8_t*)SIGMA + 4*i);
	for (int i = 0; i < 8; i++) x[4+i] = ld(key + 4*i);
	for (int i = 0; i < 4; i++) x[12+i] = ld(nonce + 4*i);
	rounds(x);
	for (int i = 0; i < 4; i++) { st(sub + 4*i, x[i]); st(sub + 16 + 4*i, x[12+i]); }

	for (int i = 0; i < 4; i++) s[i] = ld((const uint8_t*)SIGMA + 4*i);
	for (int i = 0; i < 8; i++) s[4+i] = ld(sub + 4*i);
	s[12] = 0; s[13] = 0; s[14] = ld(nonce + 16); s[15] = ld(nonce + 20);

	for (size_t off = 0; off < n; off += 64) {
		uint8_t ks[64];
		memcpy(x, s, sizeof x);
		rounds(x);
		for (int i = 0; i < 16; i++) st(ks + 4*i, x[i] + s[i]);
		size_t k = n - off < 64 ? n - off : 64;
		for (size_t i = 0; i < k; i++) out[off+i] = in[off+i] ^ ks[i];
		s[12]++;	/* 32 bit block counter; chunks are far below 2^32 blocks */
	}
}
