/* libcurl boundary: forced per-attempt outcomes, re-segmentation of bodies, logging. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <curl/curl.h>
#include "shim.h"

#undef curl_easy_setopt
#undef curl_easy_getinfo

CURLcode __real_curl_easy_setopt(CURL*, CURLoption, ...);
CURLcode __real_curl_easy_perform(CURL*);
CURLcode __real_curl_easy_getinfo(CURL*, CURLINFO, ...);

struct h {
	CURL *c;
	curl_write_callback fn;
	void *arg;
	char url[1024];
	char *errbuf;
	long limit;		/* deliver at most this many bytes, -1: no limit */
	long delivered;
	int cut;		/* limit reached */
	int nocontact;
	int own_ca;		/* the program chose its trust anchors itself */
	struct h *next;
};
static struct h *hs;

struct cperf { char match[160]; long lo, hi; int code; long bytes; long seen; };
static struct cperf perfs[512];
static int n_perfs;
static long seg_list[64]; static int n_seg, seg_pos;
static long seg_max;
static long low_speed = -1;
static int fdcount;
static char cainfo[512];	/* stands in for the system's default trust store */
static int parsed;

static void parse(void)
{
	if (parsed) return;
	parsed = 1;
	shim_init();
	char *copy = strdup(shim_plan), *sv = NULL;
	for (char *l = strtok_r(copy, "\n", &sv); l; l = strtok_r(NULL, "\n", &sv)) {
		struct cperf p = {0};
		char segs[512];
		if (sscanf(l, "cperf %159s %ld %ld %d %ld", p.match, &p.lo, &p.hi, &p.code, &p.bytes) == 5) {
			if (n_perfs == 512) _exit(96);
			perfs[n_perfs++] = p;
		} else if (!strncmp(l, "cperf", 5)) _exit(96);
		else if (sscanf(l, "csegs %500s", segs) == 1) {
			char *s2 = NULL;
			for (char *t = strtok_r(segs, ",", &s2); t && n_seg < 64; t = strtok_r(NULL, ",", &s2)) seg_list[n_seg++] = atol(t);
		} else if (sscanf(l, "csegmax %ld", &seg_max) == 1) ;
		else if (sscanf(l, "clowspeed %ld", &low_speed) == 1) ;
		else if (sscanf(l, "cainfo %511s", cainfo) == 1) ;
		else if (!strcmp(l, "fdcount")) fdcount = 1;
	}
	free(copy);
}

static int count_fds(void)
{
	int n = 0;
	for (int i = 0; i < 512; i++) if (syscall(SYS_fcntl, i, F_GETFD, 0) != -1) n++;
	return n;
}

static size_t tramp(char *ptr, size_t size, size_t nmemb, void *ud)
{
	struct h *h = ud;
	size_t total = size * nmemb, pos = 0;

	if (!h->fn) return total;
	if (h->cut) return 0;
	while (pos < total || total == 0) {
		size_t k = total - pos;
		if (n_seg) { long s = seg_list[seg_pos++ % n_seg]; if (s > 0 && (size_t)s < k) k = s; }
		else if (seg_max > 0) { size_t s = 1 + shim_rand() % seg_max; if (s < k) k = s; }
		if (h->limit >= 0 && h->delivered + (long)k > h->limit) k = h->limit - h->delivered;
		if (h->limit >= 0 && k == 0 && total) { h->cut = 1; return 0; }
		/* exact-size copy so that sanitizers see any access beyond the piece */
		char *piece = malloc(k ? k : 1);
		memcpy(piece, ptr + pos, k);
		size_t r = h->fn(piece, 1, k, h->arg);
		free(piece);
		h->delivered += k;
		if (r != k) return r == 0 && total == 0 ? 1 : 0;
		pos += k;
		if (h->limit >= 0 && h->delivered >= h->limit) { h->cut = 1; return 0; }
		if (!total) break;
	}
	return total;
}

static struct h *get(CURL *c)
{
	parse();
	for (struct h *h = hs; h; h = h->next) if (h->c == c) return h;
	struct h *h = calloc(1, sizeof *h);
	if (!h) abort();
	h->next = hs;
	hs = h;
	h->c = c; h->limit = -1;
	return h;
}

CURL *__real_curl_easy_duphandle(CURL*);
CURL *__wrap_curl_easy_duphandle(CURL *c)
{
	CURL *d = __real_curl_easy_duphandle(c);
	if (!d) return d;
	struct h *a = get(c), *b = get(d), *next = b->next;
	*b = *a;
	b->c = d; b->next = next; b->limit = -1; b->cut = 0; b->nocontact = 0; b->delivered = 0;
	if (b->fn) __real_curl_easy_setopt(d, CURLOPT_WRITEDATA, (void*)b);
	return d;
}

void __real_curl_easy_reset(CURL*);
void __wrap_curl_easy_reset(CURL *c)
{
	struct h *h = get(c), *next = h->next;
	__real_curl_easy_reset(c);
	memset(h, 0, sizeof *h);
	h->c = c; h->limit = -1; h->next = next;
}

void __real_curl_easy_cleanup(CURL*);
void __wrap_curl_easy_cleanup(CURL *c)
{
	__real_curl_easy_cleanup(c);
	for (struct h **p = &hs; *p; p = &(*p)->next) {
		if ((*p)->c != c) continue;
		struct h *h = *p;
		*p = h->next;
		free(h);
		break;
	}
}

CURLcode __wrap_curl_easy_setopt(CURL *c, CURLoption o, ...)
{
	va_list ap; va_start(ap, o);
	CURLcode r;
	struct h *h = get(c);
	if (o == CURLOPT_WRITEFUNCTION) {
		h->fn = va_arg(ap, curl_write_callback);
		r = __real_curl_easy_setopt(c, o, h->fn ? tramp : NULL);
		if (r == CURLE_OK) r = __real_curl_easy_setopt(c, CURLOPT_WRITEDATA, h->fn ? (void*)h : h->arg);
	} else if (o == CURLOPT_WRITEDATA) {
		h->arg = va_arg(ap, void*);
		r = __real_curl_easy_setopt(c, o, h->fn ? (void*)h : h->arg);
	} else if (o == CURLOPT_URL) {
		const char *u = va_arg(ap, const char*);
		snprintf(h->url, sizeof h->url, "%s", u ? u : "");
		r = __real_curl_easy_setopt(c, o, u);
	} else if (o == CURLOPT_ERRORBUFFER) {
		h->errbuf = va_arg(ap, char*);
		r = __real_curl_easy_setopt(c, o, h->errbuf);
	} else if (o == CURLOPT_LOW_SPEED_TIME) {
		long v = va_arg(ap, long);
		shim_log("L %ld", v);
		r = __real_curl_easy_setopt(c, o, low_speed >= 0 && v > low_speed ? low_speed : v);
	} else if (o == CURLOPT_CAINFO || o == CURLOPT_CAINFO_BLOB) {
		h->own_ca = 1;
		r = __real_curl_easy_setopt(c, o, va_arg(ap, void*));
	} else if (o < 10000) r = __real_curl_easy_setopt(c, o, va_arg(ap, long));
	else if (o >= 30000 && o < 40000) r = __real_curl_easy_setopt(c, o, va_arg(ap, curl_off_t));
	else r = __real_curl_easy_setopt(c, o, va_arg(ap, void*));
	va_end(ap);
	return r;
}

CURLcode __wrap_curl_easy_perform(CURL *c)
{
	struct h *h = get(c);
	struct cperf *p = NULL;
	for (int i = 0; i < n_perfs; i++) {
		if (!strstr(h->url, perfs[i].match) && strcmp(perfs[i].match, "*")) continue;
		perfs[i].seen++;
		if (!p && perfs[i].seen >= perfs[i].lo && perfs[i].seen <= perfs[i].hi) p = &perfs[i];
	}
	h->limit = -1; h->delivered = 0; h->cut = 0; h->nocontact = 0;
	seg_pos = 0;
	CURLcode r;
	if (p && p->bytes < 0) {
		h->nocontact = 1;
		r = p->code;
	} else {
		if (p) h->limit = p->bytes;
		if (p && p->bytes == 0) h->cut = 0;
		if (cainfo[0] && !h->own_ca) __real_curl_easy_setopt(c, CURLOPT_CAINFO, cainfo);
		r = __real_curl_easy_perform(c);
		if (p && (h->cut || p->bytes >= 0)) r = p->code;
	}
	/* a stalled transfer ends after its low-speed time, a connection that never comes about after libcurl's 300 s */
	if (p && p->code == 28) shim_pass(p->bytes < 0 ? 300000000 : 15000000);
	if (p && h->errbuf) snprintf(h->errbuf, CURL_ERROR_SIZE, "injected failure %d", p->code);
	shim_log("P %d %ld %d %s", (int)r, h->delivered, p ? 1 : 0, h->url);
	if (fdcount) shim_log("D %d", count_fds());
	h->limit = -1;
	return r;
}

CURLcode __wrap_curl_easy_getinfo(CURL *c, CURLINFO i, ...)
{
	va_list ap; va_start(ap, i);
	void *a = va_arg(ap, void*);
	va_end(ap);
	if (i == CURLINFO_RESPONSE_CODE && get(c)->nocontact) { *(long*)a = 0; return CURLE_OK; }
	return __real_curl_easy_getinfo(c, i, a);
}
