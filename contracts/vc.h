/* Contract/harness vocabulary shared by the verifier (CBMC), and by the native replay of a
 * counterexample and the run-time contract sweep (clang, ASan). One harness text serves all. */
#ifndef VC_H
#define VC_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>

#ifdef VC_CBMC
/* ------------------------------------------------------------------ verifier side */
uint8_t  nondet_vc_u8(void);
uint16_t nondet_vc_u16(void);
uint32_t nondet_vc_u32(void);
uint64_t nondet_vc_u64(void);
static inline uint8_t  vc_u8(void)  { uint8_t  v = nondet_vc_u8();  __CPROVER_input("vcin", v); return v; }
static inline uint16_t vc_u16(void) { uint16_t v = nondet_vc_u16(); __CPROVER_input("vcin", v); return v; }
static inline uint32_t vc_u32(void) { uint32_t v = nondet_vc_u32(); __CPROVER_input("vcin", v); return v; }
static inline uint64_t vc_u64(void) { uint64_t v = nondet_vc_u64(); __CPROVER_input("vcin", v); return v; }
static inline int64_t  vc_range(int64_t lo, int64_t hi) {
	uint64_t u = nondet_vc_u64(); __CPROVER_input("vcin", u);
	int64_t v = (int64_t)u; __CPROVER_assume(v >= lo && v <= hi); return v;
}
/* a non-zero character; the alphabet only steers the native random sweep */
static inline char vc_chr(const char *alphabet) {
	uint8_t v = nondet_vc_u8(); __CPROVER_input("vcin", v);
	__CPROVER_assume(v != 0); return (char)v;
}
/* a character restricted to the alphabet, on both sides */
static inline char vc_pick(const char *alphabet, int n) {
	uint8_t v = nondet_vc_u8(); __CPROVER_input("vcin", v);
	__CPROVER_assume(v < n); return alphabet[v];
}
#define VC_MAX(cbmc_bound, native_bound) (cbmc_bound)
#define VC_IS_NATIVE 0
/* 1 only in the native random sweep: steer the choice of inputs (never restricts what the verifier sees) */
#define VC_STEER 0
#define REQUIRE(c) __CPROVER_assume(c)
#define ENSURE(label, c) __CPROVER_assert((c), label)
#define VC_REACHED() __CPROVER_assert(0, "VC_REACHED")
/* reachability of a specific case: must be reported FAILED, i.e. the case is reachable */
#define VC_COVER(label, c) __CPROVER_assert(!(c), "VC_COVER " label)
#define vc_malloc(n) malloc(n)
#define VC_NOTE(...) ((void)0)
#define VC_CBMC_ASSUME(c) __CPROVER_assume(c)
/* realloc in terms of malloc/memcpy/free: CBMC's own model copies whole arrays of unequal size.
 * With vc_ntrack >= 0 only the tracked byte offsets are known to be kept (an instance of realloc's
 * contract at the offsets a proof talks about); the others become arbitrary. */
int vc_ntrack = -1; size_t vc_track[4];
void *realloc(void *p, size_t n)
{
	char *q = malloc(n);
	if(p) {
		__CPROVER_precondition(__CPROVER_POINTER_OFFSET(p) == 0, "realloc of the start of a block");
		size_t m = __CPROVER_OBJECT_SIZE(p);
		if(m > n) m = n;
		if(vc_ntrack < 0) memcpy(q, p, m);
		else {
			if(0 < vc_ntrack && vc_track[0] < m) q[vc_track[0]] = ((char *)p)[vc_track[0]];
			if(1 < vc_ntrack && vc_track[1] < m) q[vc_track[1]] = ((char *)p)[vc_track[1]];
		}
		free(p);
	}
	return q;
}
#define VC_TRACK(k) (vc_ntrack = 1, vc_track[0] = (k))
/* makes goto-instrument --add-library link these before contracts are instrumented */
int vc_library_anchor(char *a, char *b, size_t n, void *p)
{
	memcpy(a, b, n); memmove(a, b, n); memset(a, 0, n); strcpy(a, b); strncpy(a, b, n); strcat(a, b);
	p = realloc(malloc(n), n); free(p); p = calloc(n, n);
	return (int)strlen(a) + strcmp(a, b) + strncmp(a, b, n) + memcmp(a, b, n) + (strchr(a, 1) != 0) + (strrchr(a, 1) != 0) + (strstr(a, b) != 0);
}
#else
/* ------------------------------------------------------------------ native side */
#include <stdio.h>
uint64_t vc_in(int bits);
int64_t  vc_range(int64_t lo, int64_t hi);
char     vc_chr(const char *alphabet);
char     vc_pick(const char *alphabet, int n);
void     vc_require(int c);
void     vc_ensure(int c, const char *label, const char *text, const char *file, int line);
void    *vc_malloc(size_t n);
#define vc_u8()  ((uint8_t)vc_in(8))
#define vc_u16() ((uint16_t)vc_in(16))
#define vc_u32() ((uint32_t)vc_in(32))
#define vc_u64() ((uint64_t)vc_in(64))
#define VC_MAX(cbmc_bound, native_bound) (vc_native_bound((cbmc_bound), (native_bound)))
int64_t vc_native_bound(int64_t small, int64_t large);
#define VC_IS_NATIVE 1
extern int vc_steer;
#define VC_STEER vc_steer
#define REQUIRE(c) vc_require((c) != 0)
#define ENSURE(label, c) vc_ensure((c) != 0, label, #c, __FILE__, __LINE__)
#define VC_REACHED() ((void)0)
#define VC_COVER(label, c) ((void)0)
#define VC_NOTE(...) vc_note(__VA_ARGS__)
void vc_note(const char *fmt, ...);
#define VC_CBMC_ASSUME(c) ((void)0)
#define VC_TRACK(k) ((void)0)
#endif

/* case split: runs the statement with i = each value of lo..hi in turn where i == n, so that the
 * verifier sees a constant in each case */
#define VC_SPLIT(i, lo, hi, n, ...) for(int i = (lo); i <= (hi); i++) if(i == (n)) { __VA_ARGS__; }

union vc_b32 { uint32_t u; float f; };
union vc_b64 { uint64_t u; double f; };
static inline uint32_t f32bits(float f) { union vc_b32 x; x.f = f; return x.u; }
static inline uint64_t f64bits(double f) { union vc_b64 x; x.f = f; return x.u; }
static inline float bits32f(uint32_t u) { union vc_b32 x; x.u = u; return x.f; }
static inline double bits64d(uint64_t u) { union vc_b64 x; x.u = u; return x.f; }
#define vc_i8()  ((int8_t)vc_u8())
#define vc_i16() ((int16_t)vc_u16())
#define vc_i32() ((int32_t)vc_u32())
#define vc_i64() ((int64_t)vc_u64())
#define vc_bool() ((int)(vc_u8() & 1))
static inline float  vc_f32(void) { return bits32f(vc_u32()); }
static inline double vc_f64(void) { return bits64d(vc_u64()); }
static inline void vc_bytes(void *p, long n) { for(long i = 0; i < n; i++) ((uint8_t *)p)[i] = vc_u8(); }
/* NUL-terminated string of length 0..max over non-zero characters in buf (>= max+1 bytes) */
static inline int vc_string(char *buf, int max, const char *alphabet) {
	int n = (int)vc_range(0, max);
	for(int i = 0; i < n; i++) buf[i] = vc_chr(alphabet);
	buf[n] = 0;
	return n;
}

/* ------------------------------------------------------------------ spec helpers */
static inline uint32_t be32(const void *p) { const uint8_t *b = (const uint8_t *)p;
	return ((uint32_t)b[0] << 24) | ((uint32_t)b[1] << 16) | ((uint32_t)b[2] << 8) | b[3]; }
static inline uint64_t be64(const void *p) {
	return ((uint64_t)be32(p) << 32) | be32((const uint8_t *)p + 4); }
static inline void put32(void *p, uint32_t v) { uint8_t *b = (uint8_t *)p;
	b[0] = v >> 24; b[1] = v >> 16; b[2] = v >> 8; b[3] = v; }
static inline void put64(void *p, uint64_t v) { put32(p, v >> 32); put32((uint8_t *)p + 4, (uint32_t)v); }
/* equal as floating-point results: same value, or both NaN */
static inline int sameval(double a, double b) { return a == b || (a != a && b != b); }
#endif
