/* Contracts for osc_atom_u.c: in-memory atoms (C04), their serialization (C05) and copies (C25). */
#include "osc.h"
#include "osc_timetag.h"
#include "osc_atom_u.h"
#include "osc_atom_u.r"
#include "osc_atom_s.h"
#include "osc_atom_s.r"
#include "osc_bundle_u.h"
//@ sources osc_atom_u osc_atom_s osc_mem osc_util osc_timetag

/* ---- specification ---- */
static int isnum(char t) { return t == 'c' || t == 'C' || t == 'u' || t == 'U' || t == 'i' || t == 'I' || t == 'h' || t == 'H' || t == 'f' || t == 'd'; }
//@ for N,T in Float,float | Double,double | Int8,int8_t | Int16,int16_t | Int32,int32_t | Int64,int64_t | UInt8,uint8_t | UInt16,uint16_t | UInt32,uint32_t | UInt64,uint64_t | Int,int
static ${T} spec_${N}(const t_osc_atom_u *a)
{
	if(!a) return 0;
	switch(a->typetag) {
	case 'c': return (${T})a->w.c;
	case 'C': return (${T})a->w.C;
	case 'u': return (${T})a->w.u;
	case 'U': return (${T})a->w.U;
	case 'i': return (${T})a->w.i;
	case 'I': return (${T})a->w.I;
	case 'h': return (${T})a->w.h;
	case 'H': return (${T})a->w.H;
	case 'f': return (${T})a->w.f;
	case 'd': return (${T})a->w.d;
	case 'T': return 1;
	}
	return 0;
}
//@ endfor
static int spec_Bool(const t_osc_atom_u *a)
{
	if(!a) return 0;
	switch(a->typetag) {
	case 'c': return a->w.c != 0;
	case 'C': return a->w.C != 0;
	case 'u': return a->w.u != 0;
	case 'U': return a->w.U != 0;
	case 'i': return a->w.i != 0;
	case 'I': return a->w.I != 0;
	case 'h': return a->w.h != 0;
	case 'H': return a->w.H != 0;
	case 'f': return a->w.f != 0;
	case 'd': return a->w.d != 0;
	case 'T': return 1;
	}
	return 0;
}
/* a floating-point value outside the target's range has no C conversion */
static int inrange(const t_osc_atom_u *a, double lo, double hi)
{
	if(!a) return 1;
	if(a->typetag == 'f') return a->w.f > lo && a->w.f < hi;
	if(a->typetag == 'd') return a->w.d > lo && a->w.d < hi;
	return 1;
}
static int scalar(const t_osc_atom_u *a) { return !a || (a->typetag != 's' && a->typetag != 'b'); }

/* ---- harness: any atom ---- */
static const char TAGS[] = "cuiCUIhHfdTFNtsb";
static t_osc_atom_u the_atom;
static void any_scalar(t_osc_atom_u *a)
{
	int tt = VC_STEER ? (vc_bool() ? vc_pick("cuiCUIhHfdTFNtx", 15) : vc_chr(0)) : (int)(char)vc_u8();
	REQUIRE(tt != 's' && tt != 'b' && tt != '.');
	a->w.H = vc_u64();
	if(VC_STEER && tt == 'f') a->w.f = vc_f32();
	a->typetag = tt;
	a->alloc = 0;
}
/* including what it owns */
static void any_content(t_osc_atom_u *a)
{
	if(vc_bool()) { any_scalar(a); return; }
	char *p = vc_malloc(8);
	put32(p, 0);
	a->typetag = vc_bool() ? 's' : 'b';
	a->alloc = vc_bool();
	a->w.s = p;
}
static t_osc_atom_u *any_atom(void)
{
	int null = vc_bool();
	any_scalar(&the_atom);
	return null ? NULL : &the_atom;
}

/* ---- proofs on the bodies (the contracts that follow would wrap the calls) ---- */
//@ proof atom_u_null prop=C04 sweep=1 functions=osc_atom_u_clear
/* a null atom reads as zero and is left alone by every setter */
void atom_u_null(void)
{
	char *s = NULL; t_osc_timetag t; t.sec = 1; t.frac_sec = 2;
	osc_atom_u_setFloat(NULL, 1); osc_atom_u_setDouble(NULL, 1); osc_atom_u_setInt8(NULL, 1); osc_atom_u_setInt16(NULL, 1); osc_atom_u_setInt32(NULL, 1);
	osc_atom_u_setInt64(NULL, 1); osc_atom_u_setUInt8(NULL, 1); osc_atom_u_setUInt16(NULL, 1); osc_atom_u_setUInt32(NULL, 1); osc_atom_u_setUInt64(NULL, 1);
	osc_atom_u_setBool(NULL, 1); osc_atom_u_setTrue(NULL); osc_atom_u_setFalse(NULL); osc_atom_u_setNil(NULL); osc_atom_u_setTimetag(NULL, t);
	osc_atom_u_setString(NULL, "x"); osc_atom_u_setStringPtr(NULL, NULL); osc_atom_u_setBlobPtr(NULL, NULL); osc_atom_u_clear(NULL); osc_atom_u_free(NULL);
	ENSURE("string", osc_atom_u_getString(NULL, 0, &s) == 0 && s == NULL && osc_atom_u_getStringLen(NULL) == 0);
	VC_REACHED();
}
//@ proof set_over_bundle prop=C04 unwind=3 sweep=1 functions=osc_atom_u_setBndl_u,osc_atom_u_clear,osc_atom_u_setInt32,osc_atom_u_free
/* a nested bundle is replaced completely, and released */
void set_over_bundle(void)
{
	t_osc_atom_u *a = osc_atom_u_alloc();
	t_osc_bndl_u *b = osc_bundle_u_alloc();
	int32_t v = vc_i32();
	ENSURE("fresh", osc_atom_u_getTypetag(a) == 0 && osc_atom_u_getInt32(a) == 0);
	osc_atom_u_setBndl_u(a, b);
	ENSURE("bundle", osc_atom_u_getTypetag(a) == '.' && osc_atom_u_getBndl(a) == b && osc_atom_u_getInt32(a) == 0);
	osc_atom_u_setInt32(a, v);
	ENSURE("replaced", osc_atom_u_getTypetag(a) == 'i' && osc_atom_u_getInt32(a) == v && osc_atom_u_getBndl(a) == NULL);
	osc_atom_u_free(a);
	VC_REACHED();
}
//@ proof atom_u_setString prop=C04 absent=osc_bundle_u_free,osc_bundle_u_serialize,osc_bundle_u_nserialize,osc_bundle_u_copy,osc_bundle_s_deserialize,osc_bundle_u_getSerializedSize,osc_strfmt_* kind=bounded bound="strings of at most 5 characters over every previous content" unwind=9 sweep=3 functions=osc_atom_u_setString,osc_atom_u_getStringPtr,osc_atom_u_getString,osc_atom_u_getStringLen
void atom_u_setString(void)
{
	t_osc_atom_u *a = osc_atom_u_alloc();
	any_content(a);
	int n = (int)vc_range(0, VC_MAX(5, 40));
	char *s = vc_malloc(n + 1);
	for(int i = 0; i < n; i++) s[i] = vc_chr("ab ");
	s[n] = 0;
	osc_atom_u_setString(a, s);
	if(vc_bool()) { char *prev = osc_atom_u_getStringPtr(a); (void)prev; osc_atom_u_setString(a, s); }
	ENSURE("typetag", osc_atom_u_getTypetag(a) == 's');
	char *p = osc_atom_u_getStringPtr(a), *c = NULL;
	ENSURE("copied", p != s);
	for(int i = 0; i <= n; i++) ENSURE("text", p[i] == s[i]);
	ENSURE("length", osc_atom_u_getStringLen(a) == n);
	ENSURE("copy_length", osc_atom_u_getString(a, 0, &c) == n);
	ENSURE("independent", c != p && c != s);
	for(int i = 0; i <= n; i++) ENSURE("copy_text", c[i] == s[i]);
	osc_atom_u_setInt32(a, 5);
	ENSURE("replaced", osc_atom_u_getTypetag(a) == 'i' && osc_atom_u_getInt32(a) == 5 && osc_atom_u_getStringPtr(a) == NULL);
	osc_atom_u_free(a);
	VC_REACHED();
}
//@ proof atom_u_setBlob prop=C04 absent=osc_bundle_u_free,osc_bundle_u_serialize,osc_bundle_u_nserialize,osc_bundle_u_copy,osc_bundle_s_deserialize,osc_bundle_u_getSerializedSize,osc_strfmt_* kind=bounded bound="blobs of at most 5 bytes over every previous content" unwind=9 sweep=3 functions=osc_atom_u_setBlob,osc_atom_u_getBlob,osc_atom_u_getBlobLen,osc_atom_u_getBlobCopy
void atom_u_setBlob(void)
{
	t_osc_atom_u *a = osc_atom_u_alloc();
	any_content(a);
	int n = (int)vc_range(0, VC_MAX(5, 40));
	char *s = vc_malloc(n + 4);
	put32(s, n);
	vc_bytes(s + 4, n);
	osc_atom_u_setBlob(a, s);
	ENSURE("typetag", osc_atom_u_getTypetag(a) == 'b' && osc_atom_u_getBlobLen(a) == n);
	char *p = osc_atom_u_getBlob(a), *c = NULL; int32_t cl = 0;
	ENSURE("copied", p != s);
	for(int i = 0; i < n + 4; i++) ENSURE("bytes", p[i] == s[i]);
	osc_atom_u_getBlobCopy(a, &cl, &c);
	ENSURE("copy", c != p && c != s && cl >= n + 4);
	for(int i = 0; i < n + 4; i++) ENSURE("copy_bytes", c[i] == s[i]);
	if(n == 4) ENSURE("int32", osc_atom_u_getUInt32(a) == be32(s + 4) && osc_atom_u_getInt32(a) == (int32_t)be32(s + 4) && sameval(osc_atom_u_getFloat(a), bits32f(be32(s + 4))));
	osc_atom_u_setNil(a);
	ENSURE("replaced", osc_atom_u_getTypetag(a) == 'N' && osc_atom_u_getBlob(a) == NULL);
	osc_atom_u_free(a);
	VC_REACHED();
}
//@ proof atom_u_blob8 prop=C04 absent=osc_bundle_u_free,osc_bundle_u_serialize,osc_bundle_u_nserialize,osc_bundle_u_copy,osc_bundle_s_deserialize,osc_bundle_u_getSerializedSize,osc_strfmt_* unwind=13 sweep=2 functions=osc_atom_u_getInt64,osc_atom_u_getUInt64,osc_atom_u_getDouble,osc_atom_u_getBlobCopy
/* a blob of the size of a number reads as that number, and a number copied to a blob gives its bytes */
void atom_u_blob8(void)
{
	char b[12], *c = NULL; int32_t cl = 0; uint64_t v = vc_u64();
	put32(b, 8); put64(b + 4, v);
	the_atom.typetag = 'b'; the_atom.w.b = b; the_atom.alloc = 0;
	ENSURE("int64", osc_atom_u_getInt64(&the_atom) == (int64_t)v && osc_atom_u_getUInt64(&the_atom) == v);
	ENSURE("double", sameval(osc_atom_u_getDouble(&the_atom), bits64d(v)));
	ENSURE("others", osc_atom_u_getInt32(&the_atom) == 0 && osc_atom_u_getInt8(&the_atom) == 0);
	the_atom.typetag = vc_pick("hHd", 3); the_atom.w.H = v;
	osc_atom_u_getBlobCopy(&the_atom, &cl, &c);
	ENSURE("number_to_blob", cl >= 12 && be32(c) == 8 && be64(c + 4) == v);
	VC_REACHED();
}
//@ proof atom_u_numstring prop=C04 kind=bounded bound="run-time contract on sampled values" cbmc=0 sweep=4 functions=osc_atom_u_getString,osc_atom_u_getStringLen,osc_atom_u_getInt32,osc_atom_u_getDouble
/* numbers as text, and text as numbers, against the C library */
void atom_u_numstring(void)
{
	t_osc_atom_u *a = osc_atom_u_alloc(); char want[64], *out = NULL; int64_t v = vc_i64(); int k = 0;
	switch(vc_range(0, 7)) {
	case 0: osc_atom_u_setInt16(a, v); k = sprintf(want, "%d", (int16_t)v); break;
	case 1: osc_atom_u_setInt32(a, v); k = sprintf(want, "%d", (int32_t)v); break;
	case 2: osc_atom_u_setInt64(a, v); k = sprintf(want, "%ld", (long)v); break;
	case 3: osc_atom_u_setUInt16(a, v); k = sprintf(want, "%u", (uint16_t)v); break;
	case 4: osc_atom_u_setUInt32(a, v); k = sprintf(want, "%u", (uint32_t)v); break;
	case 5: osc_atom_u_setUInt64(a, v); k = sprintf(want, "%lu", (unsigned long)v); break;
	case 6: osc_atom_u_setInt8(a, v); k = snprintf(want, sizeof want, "'%c'", (int8_t)v); break;
	case 7: osc_atom_u_setUInt8(a, v); k = snprintf(want, sizeof want, "'%c'", (uint8_t)v); break;
	}
	ENSURE("len", osc_atom_u_getStringLen(a) == k && osc_atom_u_getString(a, 0, &out) == k);
	ENSURE("text", memcmp(out, want, k + 1) == 0);
	int32_t w = (int32_t)v;
	k = sprintf(want, "%d", w);
	osc_atom_u_setString(a, want);
	ENSURE("parse", osc_atom_u_getInt32(a) == w && osc_atom_u_getInt64(a) == w && osc_atom_u_getInt(a) == w && osc_atom_u_getDouble(a) == (double)w && osc_atom_u_getFloat(a) == (float)w);
	ENSURE("parse16", osc_atom_u_getInt16(a) == (int16_t)w && osc_atom_u_getUInt16(a) == (uint16_t)w && osc_atom_u_getUInt32(a) == (uint32_t)w && osc_atom_u_getUInt64(a) == (uint64_t)(int64_t)w);
	osc_atom_u_free(a);
}
static size_t spec_size(const t_osc_atom_u *a)
{
	switch(a->typetag) {
	case 'c': case 'C': case 'u': case 'U': case 'i': case 'I': case 'f': return 4;
	case 'h': case 'H': case 'd': case 't': return 8;
	}
	return 0;
}
static uint64_t spec_bits(const t_osc_atom_u *a)
{
	switch(a->typetag) {
	case 'c': return (uint32_t)(int32_t)a->w.c;
	case 'C': return a->w.C;
	case 'u': return (uint32_t)(int32_t)a->w.u;
	case 'U': return a->w.U;
	case 'i': case 'I': return a->w.I;
	case 'f': return f32bits(a->w.f);
	case 'h': case 'H': return a->w.H;
	case 'd': return f64bits(a->w.d);
	case 't': return ((uint64_t)a->w.t.sec << 32) | a->w.t.frac_sec;
	}
	return 0;
}
//@ proof atom_u_serialize_roundtrip prop=C05 absent=osc_bundle_u_free,osc_bundle_u_serialize,osc_bundle_u_nserialize,osc_bundle_u_copy,osc_bundle_s_deserialize,osc_bundle_u_getSerializedSize,osc_strfmt_* unwind=9 sweep=3 functions=osc_atom_u_serialize,osc_atom_u_getSerializedSize,osc_atom_s_deserialize,osc_atom_s_deserializeInto
/* scalar atoms: serialize, then deserialize */
void atom_u_serialize_roundtrip(void)
{
	any_scalar(&the_atom);
	char tt = the_atom.typetag;
	REQUIRE(isnum(tt) || tt == 'T' || tt == 'F' || tt == 'N' || tt == 't');
	ENSURE("query", (size_t)osc_atom_u_getSerializedSize(&the_atom) == spec_size(&the_atom));
	t_osc_atom_s *s = osc_atom_u_serialize(&the_atom);
	ENSURE("tag", osc_atom_s_getTypetag(s) == tt);
	t_osc_atom_u *u = osc_atom_s_deserialize(s);
	ENSURE("typetag", osc_atom_u_getTypetag(u) == tt);
	if(tt == 'f') ENSURE("float", sameval(u->w.f, the_atom.w.f));
	else if(tt == 'd') ENSURE("double", sameval(u->w.d, the_atom.w.d));
	else ENSURE("value", spec_bits(u) == spec_bits(&the_atom));
	VC_REACHED();
}
//@ proof atom_u_string_roundtrip prop=C05 absent=osc_bundle_u_free,osc_bundle_u_serialize,osc_bundle_u_nserialize,osc_bundle_u_copy,osc_bundle_s_deserialize,osc_bundle_u_getSerializedSize,osc_strfmt_* kind=bounded bound="strings of at most 6 characters, blobs of at most 6 bytes" unwind=16 sweep=3 functions=osc_atom_u_nserialize,osc_atom_u_serialize,osc_atom_s_deserialize cost=2
static void string_roundtrip(int n, int blob)
{
	int total = blob ? 4 + (n + 3) / 4 * 4 : n / 4 * 4 + 4;
	char *s = vc_malloc(n + 5);
	char *p = blob ? s + 4 : s;
	if(blob) put32(s, n);
	for(int i = 0; i < n; i++) p[i] = vc_chr("ab ");
	if(!blob) p[n] = 0;
	t_osc_atom_u *a = osc_atom_u_alloc();
	if(blob) osc_atom_u_setBlob(a, s); else osc_atom_u_setString(a, s);
	ENSURE("query", osc_atom_u_getSerializedSize(a) == total);
	char *b = vc_malloc(total + 1);
	for(int i = 0; i < total + 1; i++) b[i] = '#';
	int cap = (int)vc_range(0, total + 1);
	int r = (int)osc_atom_u_nserialize(b, cap, a);
	ENSURE("size", r == (cap >= total ? total : 0));
	for(int i = 0; i < total + 1; i++) {
		char want = r == 0 || i >= total ? '#' : i < n + (blob ? 4 : 0) ? s[i] : 0;
		ENSURE("bytes", b[i] == want);
	}
	t_osc_atom_s *as = osc_atom_u_serialize(a);
	t_osc_atom_u *u = osc_atom_s_deserialize(as);
	ENSURE("typetag", osc_atom_u_getTypetag(u) == (blob ? 'b' : 's'));
	char *q = blob ? osc_atom_u_getBlob(u) : osc_atom_u_getStringPtr(u);
	for(int i = 0; i < n + (blob ? 4 : 1); i++) ENSURE("value", q[i] == s[i]);
}
void atom_u_string_roundtrip(void)
{
	int max = VC_MAX(6, 40), n = (int)vc_range(0, max), blob = vc_bool();
	VC_SPLIT(i, 0, max, n, if(blob) string_roundtrip(i, 1); else string_roundtrip(i, 0))
	VC_REACHED();
}

/* ================================================================== C25: copies */
//@ proof atom_u_copy_scalar prop=C25 absent=osc_bundle_u_free,osc_bundle_u_serialize,osc_bundle_u_nserialize,osc_bundle_u_copy,osc_bundle_s_deserialize,osc_bundle_u_getSerializedSize,osc_strfmt_* unwind=9 sweep=2 functions=osc_atom_u_copy,osc_atom_u_copyInto,osc_atom_u_free
void atom_u_copy_scalar(void)
{
	any_scalar(&the_atom);
	t_osc_atom_u *link = (t_osc_atom_u *)&the_atom; the_atom.next = link; the_atom.prev = link;
	t_osc_atom_u keep = the_atom;
	t_osc_atom_u *c = osc_atom_u_copy(&the_atom);
	ENSURE("new", c != NULL && c != &the_atom);
	ENSURE("equal", c->typetag == the_atom.typetag && c->w.H == the_atom.w.H);
	ENSURE("unlinked", c->next == NULL && c->prev == NULL);
	ENSURE("original", the_atom.typetag == keep.typetag && the_atom.w.H == keep.w.H && the_atom.next == link);
	osc_atom_u_setInt64(c, vc_i64());
	osc_atom_u_free(c);
	ENSURE("original_after", the_atom.typetag == keep.typetag && the_atom.w.H == keep.w.H);
	ENSURE("null", osc_atom_u_copy(NULL) == NULL);
	VC_REACHED();
}
//@ proof atom_u_copy_owned prop=C25 absent=osc_bundle_u_free,osc_bundle_u_serialize,osc_bundle_u_nserialize,osc_bundle_u_copy,osc_bundle_s_deserialize,osc_bundle_u_getSerializedSize,osc_strfmt_* kind=bounded bound="strings and blobs of at most 5 bytes" unwind=12 sweep=3 functions=osc_atom_u_copy,osc_atom_u_copyInto,osc_atom_u_free
void atom_u_copy_owned(void)
{
	int n = (int)vc_range(0, VC_MAX(5, 40)), blob = vc_bool(), m = n + (blob ? 4 : 1);
	char *s = vc_malloc(m);
	char *p = blob ? s + 4 : s;
	if(blob) put32(s, n); else s[n] = 0;
	for(int i = 0; i < n; i++) p[i] = vc_chr("ab ");
	t_osc_atom_u *a = osc_atom_u_alloc();
	if(blob) osc_atom_u_setBlob(a, s); else osc_atom_u_setString(a, s);
	t_osc_atom_u *c = osc_atom_u_copy(a);
	char *q = blob ? osc_atom_u_getBlob(c) : osc_atom_u_getStringPtr(c), *o = blob ? osc_atom_u_getBlob(a) : osc_atom_u_getStringPtr(a);
	ENSURE("typetag", osc_atom_u_getTypetag(c) == (blob ? 'b' : 's'));
	ENSURE("no_sharing", q != o);
	for(int i = 0; i < m; i++) ENSURE("equal", q[i] == s[i]);
	/* release or change either one: the other stays */
	int first = vc_bool();
	t_osc_atom_u *gone = first ? a : c, *kept = first ? c : a;
	if(vc_bool()) osc_atom_u_free(gone); else { osc_atom_u_setInt32(gone, 7); ENSURE("changed", osc_atom_u_getInt32(gone) == 7); osc_atom_u_free(gone); }
	char *k = blob ? osc_atom_u_getBlob(kept) : osc_atom_u_getStringPtr(kept);
	for(int i = 0; i < m; i++) ENSURE("kept", k[i] == s[i]);
	osc_atom_u_free(kept);
	VC_REACHED();
}

/* ---- contracts ---- */
#define sameval2f sameval(a->w.f, v)
#define sameval2d sameval(a->w.d, v)
//@ contract void osc_bundle_u_free(t_osc_bndl_u *bndl)
//@ requires 0
//@ assigns

//@ contract float osc_atom_u_getFloat(t_osc_atom_u *a)
//@ requires scalar(a) && (!a || a->typetag != 't')
//@ assigns
//@ ensures value: sameval(RET, spec_Float(a))

//@ contract double osc_atom_u_getDouble(t_osc_atom_u *a)
//@ requires scalar(a) && (!a || a->typetag != 't')
//@ assigns
//@ ensures value: sameval(RET, spec_Double(a))

//@ for N,T,LO,HI in Int8,int8_t,-129.,128. | Int16,int16_t,-32769.,32768. | Int32,int32_t,-2147483649.,2147483648. | Int64,int64_t,-9223372036854775808.,9223372036854775808. | UInt8,uint8_t,-1.,256. | UInt16,uint16_t,-1.,65536. | UInt32,uint32_t,-1.,4294967296. | UInt64,uint64_t,-1.,18446744073709551616. | Int,int,-2147483649.,2147483648.
//@ contract ${T} osc_atom_u_get${N}(t_osc_atom_u *a)
//@ requires scalar(a) && inrange(a, ${LO}, ${HI})
//@ assigns
//@ ensures value: RET == spec_${N}(a)

//@ endfor
//@ contract int osc_atom_u_getBool(t_osc_atom_u *a)
//@ assigns
//@ ensures value: (RET != 0) == spec_Bool(a)

//@ contract char osc_atom_u_getTypetag(t_osc_atom_u *a)
//@ assigns
//@ ensures typetag: RET == (a ? (char)a->typetag : 0)

//@ contract char *osc_atom_u_getStringPtr(t_osc_atom_u *a)
//@ assigns
//@ ensures string: RET == (a && a->typetag == 's' ? a->w.s : NULL)

//@ contract char *osc_atom_u_getBlob(t_osc_atom_u *a)
//@ assigns
//@ ensures blob: RET == (a && a->typetag == 'b' ? a->w.b : NULL)

//@ contract t_osc_timetag osc_atom_u_getTimetag(t_osc_atom_u *a)
//@ assigns
//@ ensures seconds: RET.sec == (a && a->typetag == 't' ? a->w.t.sec : 0)
//@ ensures fraction: RET.frac_sec == (a && a->typetag == 't' ? a->w.t.frac_sec : 0)

//@ for N,T,TT,OK in Float,float,'f',sameval2f | Double,double,'d',sameval2d | Int8,int8_t,'c',a->w.c==v | Int16,int16_t,'u',a->w.u==v | Int32,int32_t,'i',a->w.i==v | Int64,int64_t,'h',a->w.h==v | UInt8,uint8_t,'C',a->w.C==v | UInt16,uint16_t,'U',a->w.U==v | UInt32,uint32_t,'I',a->w.I==v | UInt64,uint64_t,'H',a->w.H==v
//@ contract void osc_atom_u_set${N}(t_osc_atom_u *a, ${T} v)
//@ requires a != NULL && a->typetag != '.'
//@ assigns a->w, a->typetag, a->alloc
//@ frees a->alloc != 0 && (a->typetag == 's' || a->typetag == 'b'): a->w.s
//@ ensures typetag: a->typetag == ${TT}
//@ ensures value: ${OK}
//@ ensures not_owned: a->alloc == 0

//@ endfor
//@ for N,TT in True,'T' | False,'F' | Nil,'N'
//@ contract void osc_atom_u_set${N}(t_osc_atom_u *a)
//@ requires a != NULL && a->typetag != '.'
//@ assigns a->w, a->typetag, a->alloc
//@ frees a->alloc != 0 && (a->typetag == 's' || a->typetag == 'b'): a->w.s
//@ ensures typetag: a->typetag == ${TT}
//@ ensures not_owned: a->alloc == 0

//@ endfor
//@ contract void osc_atom_u_setBool(t_osc_atom_u *a, int v)
//@ requires a != NULL && a->typetag != '.'
//@ assigns a->w, a->typetag, a->alloc
//@ frees a->alloc != 0 && (a->typetag == 's' || a->typetag == 'b'): a->w.s
//@ ensures typetag: a->typetag == (v ? 'T' : 'F')
//@ ensures not_owned: a->alloc == 0

//@ contract void osc_atom_u_setTimetag(t_osc_atom_u *a, t_osc_timetag timetag)
//@ requires a != NULL && a->typetag != '.'
//@ assigns a->w, a->typetag, a->alloc
//@ frees a->alloc != 0 && (a->typetag == 's' || a->typetag == 'b'): a->w.s
//@ ensures value: a->typetag == 't' && a->w.t.sec == timetag.sec && a->w.t.frac_sec == timetag.frac_sec

//@ contract void osc_atom_u_setStringPtr(t_osc_atom_u *a, char *v)
//@ requires a != NULL && a->typetag != '.'
//@ assigns a->w, a->typetag, a->alloc
//@ frees a->alloc != 0 && (a->typetag == 's' || a->typetag == 'b'): a->w.s
//@ ensures value: a->typetag == 's' && a->w.s == v && a->alloc == 0

//@ contract void osc_atom_u_setBlobPtr(t_osc_atom_u *a, char *v)
//@ requires a != NULL && a->typetag != '.'
//@ assigns a->w, a->typetag, a->alloc
//@ frees a->alloc != 0 && (a->typetag == 's' || a->typetag == 'b'): a->w.s
//@ ensures value: a->typetag == 'b' && a->w.b == v && a->alloc == 0

//@ for N in Float | Double
//@ proof atom_u_get${N} prop=C04 enforce=osc_atom_u_get${N} sweep=2
void atom_u_get${N}(void) { t_osc_atom_u *a = any_atom(); REQUIRE(!a || a->typetag != 't'); osc_atom_u_get${N}(a); VC_COVER("double atom", a && a->typetag == 'd'); VC_REACHED(); }
//@ endfor
//@ for N in Int8 | Int16 | Int32 | Int64 | UInt8 | UInt16 | UInt32 | UInt64 | Int | Bool | Typetag | StringPtr | Blob | Timetag
//@ proof atom_u_get${N} prop=C04 enforce=osc_atom_u_get${N} sweep=2
void atom_u_get${N}(void) { t_osc_atom_u *a = any_atom(); osc_atom_u_get${N}(a); VC_COVER("double atom", a && a->typetag == 'd'); VC_REACHED(); }
//@ endfor
//@ proof atom_u_getPtrs prop=C04 sweep=1 functions=osc_atom_u_getStringPtr,osc_atom_u_getBlob
void atom_u_getPtrs(void)
{
	char x; the_atom.typetag = vc_pick("sbfT", 4); the_atom.w.s = &x;
	ENSURE("string", osc_atom_u_getStringPtr(&the_atom) == (the_atom.typetag == 's' ? &x : NULL));
	ENSURE("blob", osc_atom_u_getBlob(&the_atom) == (the_atom.typetag == 'b' ? &x : NULL));
	VC_REACHED();
}
//@ for N,IN in Float,vc_f32() | Double,vc_f64() | Int8,vc_i8() | Int16,vc_i16() | Int32,vc_i32() | Int64,vc_i64() | UInt8,vc_u8() | UInt16,vc_u16() | UInt32,vc_u32() | UInt64,vc_u64() | Bool,vc_i32()
//@ proof atom_u_set${N} prop=C04 enforce=osc_atom_u_set${N} replace=osc_bundle_u_free sweep=2 assume="the previous content is not a nested bundle (see set_over_bundle)"
void atom_u_set${N}(void) { any_content(&the_atom); osc_atom_u_set${N}(&the_atom, ${IN}); VC_REACHED(); }
//@ endfor
//@ for N in True | False | Nil
//@ proof atom_u_set${N} prop=C04 enforce=osc_atom_u_set${N} replace=osc_bundle_u_free sweep=1
void atom_u_set${N}(void) { any_content(&the_atom); osc_atom_u_set${N}(&the_atom); VC_REACHED(); }
//@ endfor
//@ proof atom_u_setTimetag prop=C04 enforce=osc_atom_u_setTimetag replace=osc_bundle_u_free sweep=1
void atom_u_setTimetag(void) { any_content(&the_atom); t_osc_timetag t; t.sec = vc_u32(); t.frac_sec = vc_u32(); osc_atom_u_setTimetag(&the_atom, t); VC_REACHED(); }
//@ for N in String | Blob
//@ proof atom_u_set${N}Ptr prop=C04 enforce=osc_atom_u_set${N}Ptr replace=osc_bundle_u_free sweep=1
void atom_u_set${N}Ptr(void) { static char x[8]; any_content(&the_atom); osc_atom_u_set${N}Ptr(&the_atom, x); VC_REACHED(); }
//@ endfor
/* lemma over the contracts: every stored type read as every type */
//@ for N,T,TT,IN in Float,float,'f',vc_f32() | Double,double,'d',vc_f64() | Int8,int8_t,'c',vc_i8() | Int16,int16_t,'u',vc_i16() | Int32,int32_t,'i',vc_i32() | Int64,int64_t,'h',vc_i64() | UInt8,uint8_t,'C',vc_u8() | UInt16,uint16_t,'U',vc_u16() | UInt32,uint32_t,'I',vc_u32() | UInt64,uint64_t,'H',vc_u64()
//@ proof atom_u_lemma${N} prop=C04 replace=osc_atom_u_set${N},osc_atom_u_getFloat,osc_atom_u_getDouble,osc_atom_u_getInt8,osc_atom_u_getInt16,osc_atom_u_getInt32,osc_atom_u_getInt64,osc_atom_u_getUInt8,osc_atom_u_getUInt16,osc_atom_u_getUInt32,osc_atom_u_getUInt64,osc_atom_u_getInt,osc_atom_u_getTypetag sweep=1
void atom_u_lemma${N}(void)
{
	any_scalar(&the_atom);
	${T} v = ${IN};
	t_osc_atom_u *a = &the_atom;
	osc_atom_u_set${N}(a, v);
	ENSURE("typetag", osc_atom_u_getTypetag(a) == ${TT});
	ENSURE("same", sameval(osc_atom_u_get${N}(a), v));
	ENSURE("double", sameval(osc_atom_u_getDouble(a), (double)v));
	ENSURE("float", sameval(osc_atom_u_getFloat(a), (float)v));
	if(v > -128 && v < 127) {
		ENSURE("int8", osc_atom_u_getInt8(a) == (int8_t)v);
		ENSURE("int16", osc_atom_u_getInt16(a) == (int16_t)v);
		ENSURE("int32", osc_atom_u_getInt32(a) == (int32_t)v && osc_atom_u_getInt(a) == (int)v);
		ENSURE("int64", osc_atom_u_getInt64(a) == (int64_t)v);
		if(v >= 0) {
			ENSURE("uint8", osc_atom_u_getUInt8(a) == (uint8_t)v);
			ENSURE("uint16", osc_atom_u_getUInt16(a) == (uint16_t)v);
			ENSURE("uint32", osc_atom_u_getUInt32(a) == (uint32_t)v);
			ENSURE("uint64", osc_atom_u_getUInt64(a) == (uint64_t)v);
		}
	}
	VC_REACHED();
}
//@ endfor

/* ================================================================== C05: serialization */
#define W4(a) (a->typetag == 'c' || a->typetag == 'C' || a->typetag == 'u' || a->typetag == 'U' || a->typetag == 'i' || a->typetag == 'I' || a->typetag == 'f')
#define W8(a) (a->typetag == 'h' || a->typetag == 'H' || a->typetag == 'd' || a->typetag == 't')
//@ contract size_t osc_atom_u_nserialize(char *buf, size_t n, t_osc_atom_u *a)
//@ requires a != NULL && scalar(a) && a->typetag != '.'
//@ assigns buf != NULL && n >= 4 && W4(a): __CPROVER_object_upto(buf, 4); buf != NULL && n >= 8 && W8(a): __CPROVER_object_upto(buf, 8)
//@ ensures size: RET == (buf != NULL && n < spec_size(a) ? 0 : spec_size(a))
//@ ensures word: !(buf != NULL && n >= 4 && spec_size(a) == 4) || be32(buf) == (uint32_t)spec_bits(a)
//@ ensures double_word: !(buf != NULL && n >= 8 && spec_size(a) == 8) || be64(buf) == spec_bits(a)

//@ proof atom_u_nserialize prop=C05 enforce=osc_atom_u_nserialize absent=osc_bundle_* unwind=9 sweep=3
void atom_u_nserialize(void)
{
	any_scalar(&the_atom);
	size_t n = (size_t)vc_range(0, 12);
	char *b = vc_bool() ? NULL : vc_malloc(n);
	osc_atom_u_nserialize(b, n, &the_atom);
	VC_COVER("written", b && the_atom.typetag == 'h' && n == 8);
	VC_REACHED();
}
#ifdef VC_CBMC
static char *the_str; static size_t the_strlen;
//@ contract size_t strlen(const char *s)
//@ requires s == the_str
//@ assigns
//@ ensures length: RET == the_strlen
#endif
//@ proof atom_u_string_any prop=C05 replace=strlen sweep=0 functions=osc_atom_u_nserialize assume="strlen by its contract"
/* strings of any length, at an arbitrary byte of the output */
void atom_u_string_any(void)
{
#ifdef VC_CBMC
	the_strlen = (size_t)vc_range(0, 0x3fffffff);
	the_str = malloc(the_strlen + 1);
	the_str[the_strlen] = 0;
	size_t n = (size_t)vc_range(0, 0x3fffffff), want = the_strlen / 4 * 4 + 4, k = (size_t)vc_range(0, 0x3fffffff);
	the_atom.typetag = 's'; the_atom.w.s = the_str;
	ENSURE("query", osc_atom_u_nserialize(NULL, 0, &the_atom) == want);
	char *b = malloc(n), before = 0;
	if(k < n) before = b[k];
	size_t r = osc_atom_u_nserialize(b, n, &the_atom);
	ENSURE("size", r == (n >= want ? want : 0));
	if(k < n) ENSURE("byte", b[k] == (n < want || k >= want ? before : k < the_strlen ? the_str[k] : 0));
	VC_COVER("long", n >= want && the_strlen > 5000 && k + 5 < n);
	VC_REACHED();
#endif
}
//@ proof atom_u_blob_any prop=C05 replace=strlen sweep=0 functions=osc_atom_u_nserialize
/* blobs of any length, at an arbitrary byte of the output */
void atom_u_blob_any(void)
{
#ifdef VC_CBMC
	int32_t len = (int32_t)vc_range(0, 0x3fffffff);
	char *blob = malloc((size_t)len + 4);
	put32(blob, len);
	size_t n = (size_t)vc_range(0, 0x3fffffff), want = 4 + ((size_t)len + 3) / 4 * 4, k = (size_t)vc_range(0, 0x3fffffff);
	the_atom.typetag = 'b'; the_atom.w.b = blob;
	ENSURE("query", osc_atom_u_nserialize(NULL, 0, &the_atom) == want);
	char *b = malloc(n), before = 0;
	if(k < n) before = b[k];
	size_t r = osc_atom_u_nserialize(b, n, &the_atom);
	ENSURE("size", r == (n >= want ? want : 0));
	if(k < n) ENSURE("byte", b[k] == (n < want || k >= want ? before : k < (size_t)len + 4 ? blob[k] : 0));
	VC_COVER("long", n >= want && len > 5000 && k + 5 < n);
	VC_REACHED();
#endif
}

