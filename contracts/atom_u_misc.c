/* Contracts for osc_atom_u.c, continued (C04): constructors, negation, sizes, owned pointers, nested bundles, chains of atoms. */
#include <string.h>
#include "osc.h"
#include "osc_mem.h"
#include "osc_timetag.h"
#include "osc_atom_u.h"
#include "osc_atom_u.r"
#include "osc_bundle_s.h"
#include "osc_bundle_u.h"
#include "osc_message_u.h"
//@ sources osc_atom_u osc_mem osc_util osc_timetag

static t_osc_atom_u the_atom;
static void any_number(t_osc_atom_u *a)
{
	a->typetag = vc_pick("cuiCUIhHfdTFNt", 14);
	a->w.H = vc_u64();
	if(VC_STEER && a->typetag == 'f') a->w.f = vc_f32();
	a->alloc = 0;
}
//@ proof atom_u_negate prop=C04 absent=osc_bundle_u_free,osc_bundle_u_serialize,osc_bundle_u_nserialize,osc_bundle_u_copy,osc_bundle_s_deserialize,osc_bundle_u_getSerializedSize,osc_strfmt_* unwind=9 sweep=2 functions=osc_atom_u_negate
void atom_u_negate(void)
{
	any_number(&the_atom);
	t_osc_atom_u o = the_atom, *a = &the_atom;
	char tt = o.typetag;
	if(tt == 'i' || tt == 'I') REQUIRE(o.w.I != 0x80000000u);
	if(tt == 'h' || tt == 'H') REQUIRE(o.w.H != 0x8000000000000000ull);
	osc_atom_u_negate(a);
	switch(tt) {
	case 'c': ENSURE("int8", a->typetag == 'c' && a->w.c == (int8_t)-o.w.c); break;
	case 'C': ENSURE("uint8", a->typetag == 'c' && a->w.c == (int8_t)-o.w.C); break;
	case 'u': ENSURE("int16", a->typetag == 'u' && a->w.u == (int16_t)-o.w.u); break;
	case 'U': ENSURE("uint16", a->typetag == 'u' && a->w.u == (int16_t)-o.w.U); break;
	case 'i': ENSURE("int32", a->typetag == 'i' && a->w.i == -o.w.i); break;
	case 'I': ENSURE("uint32", a->typetag == 'i' && a->w.i == (int32_t)-o.w.I); break;
	case 'h': ENSURE("int64", a->typetag == 'h' && a->w.h == -o.w.h); break;
	case 'H': ENSURE("uint64", a->typetag == 'h' && a->w.h == (int64_t)-o.w.H); break;
	case 'f': ENSURE("float", a->typetag == 'f' && sameval(a->w.f, -o.w.f)); break;
	case 'd': ENSURE("double", a->typetag == 'd' && sameval(a->w.d, -o.w.d)); break;
	default: ENSURE("others", a->typetag == tt && a->w.H == o.w.H);
	}
	osc_atom_u_negate(NULL);
	VC_REACHED();
}
//@ proof atom_u_sizeof prop=C04 absent=osc_bundle_u_free,osc_bundle_u_serialize,osc_bundle_u_nserialize,osc_bundle_u_copy,osc_bundle_s_deserialize,osc_bundle_u_getSerializedSize,osc_strfmt_* unwind=9 sweep=1 functions=osc_atom_u_sizeof
void atom_u_sizeof(void)
{
	char b[8]; uint32_t n = vc_u32();
	any_number(&the_atom);
	t_osc_atom_u *a = &the_atom, o = the_atom;
	char tt = a->typetag;
	size_t want = strchr("hHdt", tt) ? 8 : strchr("TFN", tt) ? 0 : 4;
	ENSURE("size", osc_atom_u_sizeof(a) == want && osc_atom_u_sizeof(NULL) == 0);
	ENSURE("kept", a->typetag == tt && a->w.H == o.w.H);
	put32(b, n); a->typetag = 'b'; a->w.b = b;
	if(n < 0x80000000u) ENSURE("blob", osc_atom_u_sizeof(a) == n);
	a->typetag = 's'; a->w.s = "four"; 
	ENSURE("string", osc_atom_u_sizeof(a) == 4);
	VC_REACHED();
}
//@ proof atom_u_allocWith prop=C04 absent=osc_bundle_u_serialize,osc_bundle_u_nserialize,osc_bundle_u_copy,osc_bundle_s_deserialize,osc_bundle_u_getSerializedSize,osc_strfmt_* unwind=9 sweep=1 functions=osc_atom_u_allocWithInt32,osc_atom_u_allocWithFloat,osc_atom_u_allocWithDouble,osc_atom_u_allocWithTimetag,osc_atom_u_allocWithString,osc_atom_u_allocWithBndl,osc_atom_u_setShouldFreePtr,osc_atom_u_setStringPtr,osc_atom_u_setBlobPtr
void atom_u_allocWith(void)
{
	int32_t i = vc_i32(); float f = vc_f32(); double d = vc_f64(); t_osc_timetag t; t.sec = vc_u32(); t.frac_sec = vc_u32();
	char s[4] = "ab"; s[0] = vc_chr("ab ");
	t_osc_atom_u *a = osc_atom_u_allocWithInt32(i);
	ENSURE("int32", osc_atom_u_getTypetag(a) == 'i' && osc_atom_u_getInt32(a) == i); osc_atom_u_free(a);
	a = osc_atom_u_allocWithFloat(f);
	ENSURE("float", osc_atom_u_getTypetag(a) == 'f' && sameval(a->w.f, f)); osc_atom_u_free(a);
	a = osc_atom_u_allocWithDouble(d);
	ENSURE("double", osc_atom_u_getTypetag(a) == 'd' && sameval(a->w.d, d)); osc_atom_u_free(a);
	a = osc_atom_u_allocWithTimetag(t);
	ENSURE("timetag", osc_atom_u_getTypetag(a) == 't' && a->w.t.sec == t.sec && a->w.t.frac_sec == t.frac_sec); osc_atom_u_free(a);
	a = osc_atom_u_allocWithString(s);
	char *p = osc_atom_u_getStringPtr(a);
	ENSURE("string", osc_atom_u_getTypetag(a) == 's' && p && p != s && p[0] == s[0] && p[1] == 'b' && p[2] == 0);
	osc_atom_u_free(a);
	char *own = osc_mem_alloc(2); own[0] = 'x'; own[1] = 0;
	a = osc_atom_u_alloc();
	osc_atom_u_setStringPtr(a, own); osc_atom_u_setShouldFreePtr(a, 1);
	ENSURE("owned", osc_atom_u_getStringPtr(a) == own);
	osc_atom_u_free(a);
	char *blob = osc_mem_alloc(8); put32(blob, 4);
	a = osc_atom_u_alloc();
	osc_atom_u_setBlobPtr(a, blob);
	ENSURE("blob_pointer", osc_atom_u_getTypetag(a) == 'b' && osc_atom_u_getBlob(a) == blob && osc_atom_u_getBlobLen(a) == 4);
	osc_atom_u_free(a);
	t_osc_bndl_u *bn = osc_bundle_u_alloc();
	a = osc_atom_u_allocWithBndl(bn);
	ENSURE("bundle", osc_atom_u_getTypetag(a) == '.' && osc_atom_u_getBndl(a) == bn);
	osc_atom_u_free(a);
	VC_REACHED();
}
//@ proof atom_u_setBndl_s prop=C04 kind=bounded bound="an empty bundle and one of one message, one argument of every value, over an integer or a string" unwind=22 sweep=1 functions=osc_atom_u_setBndl,osc_atom_u_setBndl_s cost=2
static void setBndl_s(int withmsg, int overstring)
{
	char b[16 + 4 + 12]; uint32_t v = vc_u32();
	memcpy(b, "#bundle\0\0\0\0\0\0\0\0\1", 16);
	put32(b + 16, 12); memcpy(b + 20, "/a\0\0,i\0\0", 8); put32(b + 28, v);
	t_osc_atom_u *a = osc_atom_u_alloc();
	if(overstring) osc_atom_u_setString(a, "xy"); else osc_atom_u_setInt32(a, 7);
	osc_atom_u_setBndl(a, withmsg ? 32 : 16, b);
	ENSURE("typetag", osc_atom_u_getTypetag(a) == '.');
	t_osc_bndl_u *u = osc_atom_u_getBndl(a);
	ENSURE("bundle", u && osc_bundle_u_getMsgCount(u) == withmsg);
	if(withmsg) {
		put32(b + 28, 0);
		t_osc_msg_u *m = osc_bundle_u_getFirstMsg(u);
		ENSURE("address", osc_message_u_getAddress(m)[1] == 'a' && osc_message_u_getAddress(m)[2] == 0);
		ENSURE("argument", osc_message_u_getArgCount(m) == 1 && osc_atom_u_getTypetag(osc_message_u_getArg(m, 0)) == 'i' && osc_atom_u_getInt32(osc_message_u_getArg(m, 0)) == (int32_t)v);
	}
	osc_atom_u_setInt32(a, 9);
	ENSURE("replaced", osc_atom_u_getTypetag(a) == 'i' && osc_atom_u_getInt32(a) == 9 && !osc_atom_u_getBndl(a));
	osc_atom_u_free(a);
}
void atom_u_setBndl_s(void)
{
	setBndl_s(0, 0); setBndl_s(0, 1); setBndl_s(1, 0); setBndl_s(1, 1);
	VC_REACHED();
}
//@ proof atom_u_append prop=C04 absent=osc_bundle_u_free,osc_bundle_u_serialize,osc_bundle_u_nserialize,osc_bundle_u_copy,osc_bundle_s_deserialize,osc_bundle_u_getSerializedSize,osc_strfmt_* kind=bounded bound="chains of at most 4 atoms" unwind=6 sweep=1 functions=osc_atom_u_append
void atom_u_append(void)
{
	t_osc_atom_u a[5]; int n = (int)vc_range(1, 4);
	for(int i = 0; i < 5; i++) { a[i].next = a[i].prev = NULL; a[i].typetag = 'i'; a[i].w.i = i; }
	for(int i = 1; i < n; i++) { a[i - 1].next = a + i; a[i].prev = a + i - 1; }
	int from = (int)vc_range(0, 3); REQUIRE(from < n);
	osc_atom_u_append(a + from, a + 4);
	ENSURE("last", a[n - 1].next == a + 4 && a[4].prev == a + n - 1 && a[4].next == NULL);
	for(int i = 1; i < n; i++) ENSURE("others", a[i - 1].next == a + i && a[i].prev == a + i - 1 && a[i].w.i == i);
	osc_atom_u_append(NULL, a);
	osc_atom_u_append(a + 4, NULL);
	ENSURE("nothing", a[4].next == NULL);
	VC_REACHED();
}
