/* Native driver: replays a verifier counterexample, or sweeps a harness with seeded random inputs,
 * against the real code compiled by clang with AddressSanitizer. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <setjmp.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>

void osc_set_mem(void *(*m)(size_t), void (*f)(void *), void *(*r)(void *, size_t));
extern const struct { const char *name; void (*fn)(void); } vc_proofs[];
extern const int vc_nproofs;
void __asan_set_death_callback(void (*cb)(void)) __attribute__((weak));

static enum { RANDOM, REPLAY } mode;
static uint64_t rng;
static uint64_t rec[1 << 20]; static long nrec;
static uint64_t *rep; static long nrep, irep;
static jmp_buf skip;
static const char *out, *proof;
static int big; int vc_steer;
static char cur_label[256] = "memory-safety";

static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1DULL; }

static void dump(const char *label, const char *detail)
{
	if(!out) return;
	FILE *f = fopen(out, "w");
	if(!f) return;
	fprintf(f, "{\"proof\": \"%s\", \"label\": \"%s\", \"detail\": \"", proof, label);
	for(const char *p = detail; *p; p++) { if(*p == '"' || *p == '\\') fputc('\\', f); if(*p != '\n') fputc(*p, f); }
	fprintf(f, "\", \"big\": %d, \"inputs\": [", big | vc_steer << 1);
	for(long i = 0; i < nrec; i++) fprintf(f, "%s%llu", i ? ", " : "", (unsigned long long)rec[i]);
	fprintf(f, "]}\n");
	fclose(f);
}
static void died(void) { dump(cur_label, "sanitizer report or crash in the code under test"); }
static void onsig(int s) {
	died();
	fprintf(stderr, "VCFAIL label=%s signal %d (%s)\n", s == SIGALRM ? "termination" : cur_label, s, strsignal(s));
	_exit(42);
}
static uint64_t interesting(int bits)
{
	uint64_t m = bits == 64 ? ~0ULL : ((1ULL << bits) - 1), v;
	switch(rnd() % 12) {
	case 0: return 0;
	case 1: return rnd() % 4;
	case 2: return m;
	case 3: return m - rnd() % 4;
	case 4: return (m >> 1) + (rnd() % 3) - 1 & m;
	case 5: return (1ULL << (rnd() % bits)) & m;
	case 6: return ((1ULL << (rnd() % bits)) - 1) & m;
	case 7: return rnd() % 300 & m;
	case 8: { double d = (double)(int64_t)(rnd() % 2000) - 1000; d /= (1 << (rnd() % 8)); float f = (float)d; uint32_t u;
		if(bits == 64) { memcpy(&v, &d, 8); return v; } memcpy(&u, &f, 4); return u & m; }
	case 9: v = rnd() & 0xff; return (v << 8 * (rnd() % 8)) & m;
	default: return rnd() & m;
	}
}
static uint64_t put(uint64_t v) { if(nrec < (long)(sizeof rec / sizeof *rec)) rec[nrec++] = v; else longjmp(skip, 1); return v; }
static uint64_t next(void) { if(irep < nrep) return rep[irep++]; return 0; }
uint64_t vc_in(int bits)
{
	uint64_t m = bits == 64 ? ~0ULL : ((1ULL << bits) - 1);
	return put(mode == REPLAY ? next() & m : interesting(bits));
}
int64_t vc_range(int64_t lo, int64_t hi)
{
	if(hi < lo) longjmp(skip, 1);
	if(mode == REPLAY) { int64_t v = (int64_t)next(); if(v < lo || v > hi) { fprintf(stderr, "VCSKIP range\n"); longjmp(skip, 1); } put(v); return v; }
	uint64_t w = (uint64_t)(hi - lo) + 1, k;
	switch(rnd() % 8) {
	case 0: k = 0; break;
	case 1: k = w ? w - 1 : ~0ULL; break;
	case 2: k = interesting(64); if(w) k %= w; break;
	case 3: case 4: k = rnd() % (w && w < 6 ? w : 6); break;
	default: k = w ? rnd() % w : rnd();
	}
	return (int64_t)put((uint64_t)(lo + (int64_t)k));
}
char vc_chr(const char *al)
{
	uint8_t c;
	if(mode == REPLAY) { c = (uint8_t)next(); if(!c) { fprintf(stderr, "VCSKIP chr\n"); longjmp(skip, 1); } put(c); return (char)c; }
	size_t n = al ? strlen(al) : 0;
	if(!n || rnd() % 16 == 0) c = 1 + rnd() % 255; else c = al[rnd() % n];
	put(c); return (char)c;
}
char vc_pick(const char *al, int n)
{
	if(mode == REPLAY) { uint64_t v = next(); if((int64_t)v >= n) { fprintf(stderr, "VCSKIP pick\n"); longjmp(skip, 1); } put(v); return al[v]; }
	return al[put(rnd() % n)];
}
int64_t vc_native_bound(int64_t s, int64_t l) { return big ? l : s; }
void vc_require(int c) { if(!c) { if(mode == REPLAY) fprintf(stderr, "VCSKIP precondition\n"); longjmp(skip, 1); } }
void vc_note(const char *fmt, ...) { if(mode != REPLAY) return; va_list a; va_start(a, fmt); fprintf(stderr, "NOTE "); vfprintf(stderr, fmt, a); fprintf(stderr, "\n"); va_end(a); }
void vc_ensure(int c, const char *label, const char *text, const char *file, int line)
{
	if(c) return;
	dump(label, text);
	fprintf(stderr, "VCFAIL label=%s %s:%d: %s\n", label, file, line, text);
	_exit(42);
}
/* tracked allocator, so that each case starts clean and a sweep does not run out of memory */
static void **live; static size_t nlive, clive;
static void track(void *p) { if(nlive == clive) { clive = clive ? clive * 2 : 1024; live = realloc(live, clive * sizeof *live); } live[nlive++] = p; }
static void untrack(void *p) { for(size_t i = nlive; i--;) if(live[i] == p) { live[i] = live[--nlive]; return; } }
static void *t_alloc(size_t n) { void *p = malloc(n); if(p) { memset(p, mode == REPLAY ? 0xA5 : (int)(rnd() & 0xff), n); track(p); } return p; }
static void t_free(void *p) { untrack(p); free(p); }
static void *t_resize(void *p, size_t n) { untrack(p); void *q = realloc(p, n); if(q) track(q); return q; }
void *vc_malloc(size_t n) { return t_alloc(n ? n : 1); }
static void clean(void) { while(nlive) free(live[--nlive]); }
long vc_live(void) { return (long)nlive; }

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int main(int argc, char **argv)
{
	if(argc < 3) return 2;
	proof = argv[1];
	void (*fn)(void) = 0;
	for(int i = 0; i < vc_nproofs; i++) if(!strcmp(vc_proofs[i].name, proof)) fn = vc_proofs[i].fn;
	if(!fn) { fprintf(stderr, "no proof %s\n", proof); return 2; }
	osc_set_mem(t_alloc, t_free, t_resize);
	if(__asan_set_death_callback) __asan_set_death_callback(died);
	signal(SIGALRM, onsig); signal(SIGABRT, onsig);
	/* keep the chatter of the code under test out of the way */
	int keep = dup(1); (void)keep; int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
	if(!strcmp(argv[2], "replay")) {
		mode = REPLAY; out = argc > 4 ? argv[4] : 0;
		FILE *f = fopen(argv[3], "r"); if(!f) return 2;
		static char buf[1 << 24]; size_t n = fread(buf, 1, sizeof buf - 1, f); buf[n] = 0; fclose(f);
		char *b = strstr(buf, "\"big\":"); if(b) { big = atoi(b + 6) & 1; vc_steer = atoi(b + 6) >> 1; }
		char *p = strstr(buf, "\"inputs\":"); if(!p) return 2;
		p = strchr(p, '['); rep = malloc(sizeof *rep << 20);
		for(p++; *p && *p != ']';) { char *e; uint64_t v = *p == '-' ? (uint64_t)strtoll(p, &e, 10) : strtoull(p, &e, 10);
			if(e == p) { p++; continue; } rep[nrep++] = v; p = e; while(*p == ',' || *p == ' ') p++; }
		alarm(20);
		if(!setjmp(skip)) { fn(); fprintf(stderr, "VCOK\n"); return 0; }
		return 3;
	}
	uint64_t seed = strtoull(argv[3], 0, 10); double limit = atof(argv[4]); long maxruns = argc > 6 ? atol(argv[6]) : 1L << 40; out = argv[5];
	double t0 = now(); volatile long runs = 0, done = 0;
	for(; runs < maxruns && now() - t0 < limit; runs++) {
		rng = (seed + 1) * 0x9E3779B97F4A7C15ULL + (uint64_t)runs * 0xD1B54A32D192ED03ULL + 1; if(!rng) rng = 1; rnd(); rnd();
		nrec = 0; big = runs & 1; vc_steer = 1;
		alarm(10);
		if(!setjmp(skip)) { fn(); done++; }
		clean();
	}
	alarm(0);
	fprintf(stderr, "VCSWEEP runs=%ld completed=%ld\n", runs, done);
	return 0;
}
