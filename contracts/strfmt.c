/* Contracts for the string formatters of osc_strfmt.c (C15). */
#include <stdio.h>
#include "osc.h"
#include "osc_mem.h"
#include "osc_strfmt.h"
#include "vc_printf.h"
int osc_strfmt_addQuotes(int len, char *buf, char **out);
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
//@ sources osc_strfmt osc_mem

#define CAP 64
/* ---- specification ---- */
static int meta(char c) { return c == '"' || c == '\\'; }
/* full[]: the text that quoting s (n characters) should give, q: surrounding quotes; returns its length */
static int spec_escape(const char *s, int n, int q, char *full)
{
	int k = 0;
	if(q) full[k++] = '"';
	for(int i = 0; i < n; i++) { if(meta(s[i])) full[k++] = '\\'; full[k++] = s[i]; }
	if(q) full[k++] = '"';
	full[k] = 0;
	return k;
}
#define MAXS VC_MAX(3, 25)
static const char ALPHA[] = "\"\\ab ";
/* a buffer of exactly n bytes that holds a known pattern */
static char *buffer(size_t n) { char *b = vc_malloc(n); for(size_t i = 0; i < n; i++) b[i] = '#'; return b; }
/* what a bounded write of full (len characters) into n bytes must leave */
static void check_bounded(const char *b, size_t n, const char *full, int len)
{
	if(n == 0) return;
	int z = 0;
	for(size_t i = 0; i < n && i <= (size_t)len; i++) {
		if(i + 1 < n || (size_t)len < n) ENSURE("text", b[i] == full[i]);
		if(b[i] == 0) z = 1;
	}
	ENSURE("terminated", z);
}

//@ contract int osc_strfmt_isMeta(char c)
//@ assigns
//@ ensures meta: (RET != 0) == meta(c)
//@ proof strfmt_isMeta prop=C15 enforce=osc_strfmt_isMeta unwind=4 sweep=1
void strfmt_isMeta(void) { osc_strfmt_isMeta((char)vc_u8()); VC_REACHED(); }

//@ proof strfmt_countMeta prop=C15 kind=bounded bound="strings of at most 4 characters" unwind=6 sweep=2 functions=osc_strfmt_countMeta,osc_strfmt_isMeta
void strfmt_countMeta(void)
{
	int n = (int)vc_range(0, VC_MAX(4, 25)), k = 0;
	char *s = vc_malloc(n);
	for(int i = 0; i < n; i++) { s[i] = VC_STEER ? vc_chr(ALPHA) : (char)vc_u8(); k += meta(s[i]); }
	ENSURE("count", osc_strfmt_countMeta(n, s) == k);
	VC_REACHED();
}
//@ for F,Q,EXTRA in stringWithQuotedMeta,0,0 | quotedStringWithQuotedMeta,1,2
//@ proof strfmt_${F} prop=C15 kind=bounded bound="strings of at most 3 characters, buffers of any size up to 12" unwind=14 sweep=5 functions=osc_strfmt_${F} assume="snprintf per vc_printf.h" cost=5
void strfmt_${F}(void)
{
	int n = (int)vc_range(0, MAXS);
	char *s = vc_malloc(n + 1), full[CAP];
	for(int i = 0; i < n; i++) s[i] = vc_chr(ALPHA);
	s[n] = 0;
	int len = spec_escape(s, n, ${Q}, full);
	ENSURE("query", osc_strfmt_${F}(NULL, 0, s) == len);
	size_t cap = (size_t)vc_range(0, VC_MAX(12, CAP));
	char *b = buffer(cap);
	int r = osc_strfmt_${F}(b, cap, s);
	ENSURE("length", r == len);
	/* too small: what is written is a prefix of the escaped string, NUL-terminated */
	if(${Q} == 0 || cap > (size_t)len) check_bounded(b, cap, full, len);
	else if(cap > 0) { int z = 0; for(size_t i = 0; i < cap; i++) z |= b[i] == 0; ENSURE("terminated", z); }
	ENSURE("null", osc_strfmt_${F}(b, cap, NULL) == 0);
	VC_COVER("truncated", cap < (size_t)len && cap > 0);
	VC_COVER("fits", cap > (size_t)len && len > n + ${EXTRA});
	VC_REACHED();
}
//@ endfor
//@ proof strfmt_quotedString prop=C15 kind=bounded bound="strings of at most 3 characters, buffers of any size up to 7" unwind=9 sweep=3 functions=osc_strfmt_quotedString assume="snprintf per vc_printf.h" cost=5
void strfmt_quotedString(void)
{
	int n = (int)vc_range(0, MAXS);
	char *s = vc_malloc(n + 1), full[CAP];
	full[0] = '"';
	for(int i = 0; i < n; i++) full[i + 1] = s[i] = vc_chr(ALPHA);
	s[n] = 0; full[n + 1] = '"'; full[n + 2] = 0;
	ENSURE("query", osc_strfmt_quotedString(NULL, 0, s) == n + 2);
	size_t cap = (size_t)vc_range(0, VC_MAX(7, CAP));
	char *b = buffer(cap);
	ENSURE("length", osc_strfmt_quotedString(b, cap, s) == n + 2);
	check_bounded(b, cap, full, n + 2);
	ENSURE("null", osc_strfmt_quotedString(b, cap, NULL) == 0);
	VC_REACHED();
}
//@ proof strfmt_addQuotesAndQuoteMeta prop=C15 kind=bounded bound="strings of at most 4 characters" unwind=14 sweep=3 functions=osc_strfmt_addQuotesAndQuoteMeta
void strfmt_addQuotesAndQuoteMeta(void)
{
	int n = (int)vc_range(0, VC_MAX(4, 25));
	char *s = vc_malloc(n), full[CAP], *out = NULL;
	for(int i = 0; i < n; i++) s[i] = vc_chr(ALPHA);
	int len = spec_escape(s, n, 1, full);
	ENSURE("length", osc_strfmt_addQuotesAndQuoteMeta(n, s, &out) == len);
	for(int i = 0; i <= len; i++) ENSURE("text", out[i] == full[i]);
	/* a caller's buffer of exactly the right size */
	char *b = buffer(len + 1), *pb = b;
	ENSURE("length2", osc_strfmt_addQuotesAndQuoteMeta(n, s, &pb) == len && pb == b);
	for(int i = 0; i <= len; i++) ENSURE("text2", b[i] == full[i]);
	VC_REACHED();
}
//@ proof strfmt_addQuotes prop=C15 kind=bounded bound="strings of at most 4 characters" unwind=9 sweep=3 functions=osc_strfmt_addQuotes
void strfmt_addQuotes(void)
{
	int n = (int)vc_range(0, VC_MAX(4, 25));
	char *s = vc_malloc(n + 1), full[CAP], *out = NULL; int k = 0;
	for(int i = 0; i < n; i++) s[i] = vc_chr(ALPHA);
	s[n] = 0;
	/* quotes already at an end are not doubled */
	if(s[0] != '"') full[k++] = '"';
	for(int i = 0; i < n; i++) full[k++] = s[i];
	if(n == 0 || s[n - 1] != '"') full[k++] = '"';
	full[k] = 0;
	ENSURE("length", osc_strfmt_addQuotes(n, s, &out) == k);
	for(int i = 0; i <= k; i++) ENSURE("text", out[i] == full[i]);
	VC_REACHED();
}
//@ proof strfmt_blob prop=C15 kind=bounded bound="run-time contract on sampled blobs of at most 6 bytes" cbmc=0 sweep=4 functions=osc_strfmt_blob
void strfmt_blob(void)
{
	int n = (int)vc_range(0, VC_MAX(1, 6));
	char *blob = vc_malloc(4 + n);
	put32(blob, n);
	vc_bytes(blob + 4, n);
	char full[CAP]; int k = 0;
	const char *p = "blob("; while(*p) full[k++] = *p++;
	for(int i = 0; i < n; i++) {
		int v = blob[4 + i], a = v < 0 ? -v : v;
		if(i) { full[k++] = ','; full[k++] = ' '; }
		if(v < 0) full[k++] = '-';
		if(a >= 100) full[k++] = '0' + a / 100;
		if(a >= 10) full[k++] = '0' + a / 10 % 10;
		full[k++] = '0' + a % 10;
	}
	full[k++] = ')'; full[k] = 0;
	ENSURE("query", osc_strfmt_blob(NULL, 0, blob) == k);
	size_t cap = (size_t)vc_range(0, VC_MAX(11, CAP));
	char *b = buffer(cap);
	ENSURE("length", osc_strfmt_blob(b, cap, blob) == k);
	check_bounded(b, cap, full, k);
	VC_REACHED();
}
//@ proof strfmt_strlenPadded prop=C15 kind=bounded bound="strings of at most 9 characters" unwind=12 sweep=2 functions=osc_strfmt_strlenPadded
void strfmt_strlenPadded(void)
{
	int n = (int)vc_range(0, VC_MAX(9, 60));
	char *s = vc_malloc(n + 1);
	for(int i = 0; i < n; i++) s[i] = vc_chr(ALPHA);
	s[n] = 0;
	ENSURE("padded", osc_strfmt_strlenPadded(s) == n / 4 * 4 + 4);
	VC_REACHED();
}
/* formatting and scalar text: exact length and bounds, against the C library (run-time contract only) */
//@ proof strfmt_scalars prop=C15 kind=bounded bound="run-time contract on sampled values" cbmc=0 sweep=4 functions=osc_strfmt_int8,osc_strfmt_int16,osc_strfmt_int32,osc_strfmt_int64,osc_strfmt_uint8,osc_strfmt_uint16,osc_strfmt_uint32,osc_strfmt_uint64,osc_strfmt_float64,osc_strfmt_bool,osc_strfmt_null
void strfmt_scalars(void)
{
	char full[400]; size_t cap = (size_t)vc_range(0, 40); char *b = vc_malloc(cap); int r = 0, q = 0, k = 0;
	uint64_t v = vc_u64();
	switch(vc_range(0, 9)) {
#define S(I, F, T, FMT) case I: k = snprintf(full, sizeof full, FMT, (T)v); q = osc_strfmt_##F(NULL, 0, (T)v); r = osc_strfmt_##F(b, cap, (T)v); break;
	S(0, int16, int16_t, "%"PRId16) S(1, int32, int32_t, "%"PRId32) S(2, int64, int64_t, "%"PRId64)
	S(3, uint16, uint16_t, "%"PRIu16) S(4, uint32, uint32_t, "%"PRIu32) S(5, uint64, uint64_t, "%"PRIu64)
	S(6, int8, int8_t, "'%c'") S(7, uint8, uint8_t, "'%c'")
	case 8: k = snprintf(full, sizeof full, "nil"); q = osc_strfmt_null(NULL, 0); r = osc_strfmt_null(b, cap); break;
	case 9: { char c = v & 1 ? 'T' : 'F'; k = snprintf(full, sizeof full, v & 1 ? "true" : "false"); q = osc_strfmt_bool(NULL, 0, c); r = osc_strfmt_bool(b, cap, c); break; }
	}
	ENSURE("query", q == k);
	ENSURE("length", r == k);
	if(cap > 0) { ENSURE("text", memcmp(b, full, (size_t)k < cap ? k : cap - 1) == 0); ENSURE("terminated", b[(size_t)k < cap ? k : cap - 1] == 0); }
}
//@ proof strfmt_float prop=C15 kind=bounded bound="run-time contract on sampled values" cbmc=0 sweep=3 functions=osc_strfmt_float64,osc_strfmt_float32
void strfmt_float(void)
{
	double d = vc_f64(); size_t cap = (size_t)vc_range(0, 40); char *b = vc_malloc(cap), big[64];
	int q = osc_strfmt_float64(NULL, 0, d), r = osc_strfmt_float64(b, cap, d);
	osc_strfmt_float64(big, sizeof big, d);
	ENSURE("query", q == (int)strlen(big) && r == q);
	if(cap > 0) ENSURE("prefix", memcmp(b, big, (size_t)r < cap ? r : cap - 1) == 0 && b[(size_t)r < cap ? r : cap - 1] == 0);
	/* a value text can be read back: finite numbers to six digits, integers below a million exactly and marked as floating point */
	double back = strtod(big, NULL);
	if(d == d && d - d == 0) ENSURE("value", back == d || (back - d < 1e-5 * (d < 0 ? -d : d) && d - back < 1e-5 * (d < 0 ? -d : d)));
	if(d == (double)(int)d && d < 1e6 && d > -1e6) ENSURE("marked", back == d && strchr(big, '.'));
}
