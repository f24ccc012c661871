/* Contracts for osc_atom_s.c, continued (C03): construction, strings, blobs, nested bundles, negation, text. */
#include <stdlib.h>
#include <stdio.h>
#include "osc.h"
#include "osc_mem.h"
#include "osc_timetag.h"
#include "osc_bundle_s.h"
#include "osc_atom_s.h"
#include "osc_atom_s.r"
//@ sources osc_atom_s osc_timetag osc_mem osc_util

enum { K_NONE, K_S32, K_U32, K_S64, K_U64, K_F32, K_F64, K_TRUE };
static int kind(char tt)
{
	switch(tt) {
	case 'c': case 'u': case 'i': return K_S32;
	case 'C': case 'U': case 'I': return K_U32;
	case 'h': return K_S64;
	case 'H': return K_U64;
	case 'f': return K_F32;
	case 'd': return K_F64;
	case 'T': return K_TRUE;
	}
	return K_NONE;
}
static int wiresize(char tt)
{
	switch(kind(tt)) {
	case K_S32: case K_U32: case K_F32: return 4;
	case K_S64: case K_U64: case K_F64: return 8;
	}
	return tt == 't' ? 8 : 0;
}
static t_osc_atom_s the_atom;
static t_osc_atom_s *any_atom(void)
{
	int null = vc_bool();
	char tt = VC_STEER ? (vc_bool() ? vc_pick("cuiCUIhHfdTFNtb.x", 17) : vc_chr(0)) : (char)vc_u8();
	REQUIRE(tt != 's');        /* strings convert with strtod/strtol: not a numeric type */
	int n = wiresize(tt);
	char *d = vc_malloc(n);
	if(n) vc_bytes(d, 4);
	if(n == 8) vc_bytes(d + 4, 4);
	the_atom.typetag = tt;
	the_atom.data = d;
	return null ? NULL : &the_atom;
}

//@ proof atom_s_alloc prop=C03 unwind=9 timeout=100 sweep=1 functions=osc_atom_s_alloc,osc_atom_s_set,osc_atom_s_getTypetag,osc_atom_s_getData,osc_atom_s_sizeof,osc_atom_s_free
void atom_s_alloc(void)
{
	char d[8], e[8], t = vc_pick("iIfhHdtcCuUTFNqx", 16), u = (char)vc_u8();
	vc_bytes(d, 8); vc_bytes(e, 8);
	t_osc_atom_s *a = osc_atom_s_alloc(t, d);
	ENSURE("alloc", osc_atom_s_getTypetag(a) == t && osc_atom_s_getData(a) == d);
	if(t == 'i' || t == 'f' || t == 'I' || t == 'c' || t == 'U') ENSURE("size", osc_atom_s_sizeof(a) == 4);
	if(t == 'h' || t == 'd' || t == 'H' || t == 't') ENSURE("size", osc_atom_s_sizeof(a) == 8);
	osc_atom_s_set(a, u, e);
	ENSURE("set", osc_atom_s_getTypetag(a) == u && osc_atom_s_getData(a) == e);
	osc_atom_s_free(a);
	osc_atom_s_set(NULL, t, d);
	ENSURE("null", osc_atom_s_getTypetag(NULL) == 0 && osc_atom_s_getData(NULL) == NULL && osc_atom_s_sizeof(NULL) == 0);
	VC_REACHED();
}
//@ proof atom_s_negate prop=C03 unwind=9 sweep=2 functions=osc_atom_s_negate
void atom_s_negate(void)
{
	t_osc_atom_s *a = any_atom();
	REQUIRE(a);
	char tt = a->typetag; int w = wiresize(tt);
	uint64_t v = w == 4 ? be32(a->data) : w == 8 ? be64(a->data) : 0;
	if(tt == 'i' || tt == 'I') REQUIRE((uint32_t)v != 0x80000000u);
	if(tt == 'h' || tt == 'H') REQUIRE(v != 0x8000000000000000ull);
	osc_atom_s_negate(a);
	char want = tt;
	uint64_t r = v;
	switch(tt) {
	case 'c': case 'C': r = (uint32_t)(int32_t)(int8_t)-(int)v; want = 'c'; break;
	case 'u': case 'U': r = (uint32_t)(int32_t)(int16_t)-(int)v; want = 'u'; break;
	case 'i': case 'I': r = (uint32_t)-(uint32_t)v; want = 'i'; break;
	case 'h': case 'H': r = -v; want = 'h'; break;
	case 'f': r = v ^ 0x80000000u; break;
	case 'd': r = v ^ 0x8000000000000000ull; break;
	}
	ENSURE("typetag", a->typetag == want);
	if(w == 4 && !(tt == 'f' && (v & 0x7fffffff) > 0x7f800000)) ENSURE("value", be32(a->data) == (uint32_t)r);
	if(w == 8 && !(tt == 'd' && (v & 0x7fffffffffffffffull) > 0x7ff0000000000000ull)) ENSURE("value", be64(a->data) == r);
	osc_atom_s_negate(NULL);
	VC_REACHED();
}
//@ proof atom_s_blob prop=C03 kind=bounded bound="blobs of at most 5 bytes" unwind=13 sweep=2 functions=osc_atom_s_getBlob,osc_atom_s_getBlobLen,osc_atom_s_getBlobCopy
void atom_s_blob(void)
{
	int n = (int)vc_range(0, VC_MAX(5, 40)), given = (int)vc_range(0, 1);
	char *d = vc_malloc(n + 4);
	put32(d, n); vc_bytes(d + 4, n);
	t_osc_atom_s a; a.typetag = 'b'; a.data = d;
	ENSURE("blob", osc_atom_s_getBlob(&a) == d && osc_atom_s_getBlobLen(&a) == n);
	int32_t cap = given ? (int32_t)vc_range(1, n + 6) : 0;
	char *mine = vc_malloc(cap + 1), *out = given ? mine : NULL; mine[cap] = '#';
	ENSURE("ok", osc_atom_s_getBlobCopy(&out, &cap, &a) == OSC_ERR_NONE);
	ENSURE("copy", out != d && (given ? out == mine : cap >= n + 4));
	for(int i = 0; i < n + 4 && i < cap; i++) ENSURE("bytes", out[i] == d[i]);
	ENSURE("capacity", mine[given ? cap : 0] == '#');
	ENSURE("kept", be32(d) == (uint32_t)n && a.data == d);
	a.typetag = 'i';
	ENSURE("no_blob", osc_atom_s_getBlob(&a) == NULL && osc_atom_s_getBlobLen(&a) == 4 && osc_atom_s_getBlob(NULL) == NULL);
	VC_REACHED();
}
//@ proof atom_s_number_blob prop=C03 unwind=13 sweep=1 functions=osc_atom_s_getBlobCopy
/* a number copied to a blob gives its wire bytes */
void atom_s_number_blob(void)
{
	char d[8], tt = vc_pick("ifIchHdt", 8), *out = NULL; int32_t cap = 0, w = wiresize(tt);
	vc_bytes(d, 8);
	t_osc_atom_s a; a.typetag = tt; a.data = d;
	ENSURE("ok", osc_atom_s_getBlobCopy(&out, &cap, &a) == OSC_ERR_NONE && cap >= w + 4);
	ENSURE("size", be32(out) == (uint32_t)w);
	for(int i = 0; i < w; i++) ENSURE("bytes", out[4 + i] == d[i]);
	VC_REACHED();
}
//@ proof atom_s_bndl prop=C03 kind=bounded bound="bundles of 16 and 20 bytes" unwind=26 sweep=1 functions=osc_atom_s_getBndl,osc_atom_s_getBndlCopy
void atom_s_bndl(void)
{
	int n = vc_bool() ? 16 : 20;
	char d[24]; put32(d, n); vc_bytes(d + 4, 20);
	t_osc_atom_s a; a.typetag = '.'; a.data = d;
	t_osc_bndl_s *b = osc_atom_s_getBndl(&a), *c = osc_atom_s_getBndlCopy(&a);
	ENSURE("in_place", b && osc_bundle_s_getLen(b) == n && osc_bundle_s_getPtr(b) == d + 4);
	ENSURE("copy", c && osc_bundle_s_getLen(c) == n && osc_bundle_s_getPtr(c) != d + 4);
	for(int i = 0; i < n; i++) ENSURE("bytes", osc_bundle_s_getPtr(c)[i] == d[4 + i]);
	osc_bundle_s_free(b); osc_bundle_s_deepFree(c);
	a.typetag = (char)vc_u8(); REQUIRE(a.typetag != '.');
	ENSURE("other_types", osc_atom_s_getBndl(&a) == NULL && osc_atom_s_getBndlCopy(&a) == NULL && osc_atom_s_getBndl(NULL) == NULL);
	VC_REACHED();
}
//@ proof atom_s_string prop=C03 absent=osc_strfmt_* kind=bounded bound="strings of at most 5 characters" unwind=9 sweep=2 functions=osc_atom_s_setString,osc_atom_s_getString,osc_atom_s_getStringLen
void atom_s_string(void)
{
	int n = (int)vc_range(0, VC_MAX(5, 40)), given = vc_bool();
	char *s = vc_malloc(n + 1), *mine = vc_malloc(n + 1), *out = NULL;
	for(int i = 0; i < n; i++) s[i] = vc_chr("ab ");
	s[n] = 0;
	t_osc_atom_s a; a.typetag = vc_chr("ifs"); a.data = given ? mine : NULL;
	osc_atom_s_setString(&a, s);
	ENSURE("set", a.typetag == 's' && a.data && (given ? a.data == mine : a.data != s));
	for(int i = 0; i <= n; i++) ENSURE("text", a.data[i] == s[i]);
	ENSURE("length", osc_atom_s_getStringLen(&a) == n);
	int own = vc_bool(); char *buf = vc_malloc(n + 1);
	if(own) out = buf;
	ENSURE("get", osc_atom_s_getString(&a, n + 1, &out) == n && (own ? out == buf : out != a.data));
	for(int i = 0; i <= n; i++) ENSURE("copy", out[i] == s[i] && a.data[i] == s[i]);
	osc_atom_s_setString(NULL, s);
	ENSURE("null", osc_atom_s_getString(NULL, 0, &out) == 0 && osc_atom_s_getStringLen(NULL) == 0);
	VC_REACHED();
}
//@ proof atom_s_numstring prop=C03 kind=bounded bound="run-time contract on sampled values" cbmc=0 sweep=3 functions=osc_atom_s_getString,osc_atom_s_getStringLen,osc_atom_s_getInt32,osc_atom_s_getDouble,osc_atom_s_getInt64
/* numbers as text, and text as numbers, against the C library */
void atom_s_numstring(void)
{
	char d[64], want[64], *out = NULL, tt = vc_pick("iIhHcCuUTFN", 11); uint64_t v = vc_u64(); int k = 0;
	if(vc_bool()) v &= 0xffff;
	if(wiresize(tt) == 4) put32(d, (uint32_t)v); else put64(d, v);
	switch(tt) {
	case 'i': k = sprintf(want, "%d", (int32_t)v); break;
	case 'I': k = sprintf(want, "%u", (uint32_t)v); break;
	case 'h': k = sprintf(want, "%ld", (long)v); break;
	case 'H': k = sprintf(want, "%lu", (unsigned long)v); break;
	case 'u': k = sprintf(want, "%d", (int16_t)v); break;
	case 'U': k = sprintf(want, "%u", (uint16_t)v); break;
	case 'c': case 'C': k = snprintf(want, sizeof want, "'%c'", (int8_t)v); break;
	case 'T': k = sprintf(want, "true"); break;
	case 'F': k = sprintf(want, "false"); break;
	case 'N': k = sprintf(want, "nil"); break;
	}
	t_osc_atom_s a; a.typetag = tt; a.data = d;
	ENSURE("len", osc_atom_s_getStringLen(&a) == k && osc_atom_s_getString(&a, 0, &out) == k);
	ENSURE("text", memcmp(out, want, k + 1) == 0);
	osc_mem_free(out);
	int32_t w = (int32_t)v;
	sprintf(d, "%d", w); a.typetag = 's';
	ENSURE("parse", osc_atom_s_getInt32(&a) == w && osc_atom_s_getInt64(&a) == w && osc_atom_s_getInt(&a) == w && osc_atom_s_getDouble(&a) == (double)w && osc_atom_s_getFloat(&a) == (float)w);
	ENSURE("parse_unsigned", osc_atom_s_getUInt32(&a) == (uint32_t)w && osc_atom_s_getUInt64(&a) == (uint64_t)(int64_t)w);
}
