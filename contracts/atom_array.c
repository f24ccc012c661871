/* Contracts for osc_atom_array_s.c (C03) and osc_atom_array_u.c (C04, C25): each accessor is its atom's, element by element. */
#include <string.h>
#include "osc.h"
#include "osc_mem.h"
#include "osc_timetag.h"
#include "osc_array.h"
#include "osc_array.r"
#include "osc_atom_s.h"
#include "osc_atom_s.r"
#include "osc_atom_u.h"
#include "osc_atom_u.r"
#include "osc_atom_array_s.h"
#include "osc_atom_array_u.h"
//@ sources osc_atom_array_s osc_atom_array_u osc_array osc_atom_s osc_atom_u osc_mem osc_util osc_timetag

#define MAXN VC_MAX(3, 40)
static const char NUM[] = "cuiCUIhHfdTFN";
static int width(char t) { return t == 'h' || t == 'H' || t == 'd' ? 8 : t == 'T' || t == 'F' || t == 'N' ? 0 : 4; }
/* floating-point elements stay within every target's range: the accessors of single atoms settle the rest */
static float small_f(void) { return (float)vc_range(0, 100) + (vc_bool() ? 0.5f : 0.f); }

//@ for N,T,TH in Double,double,0 | Float,float,0 | Int32,int32_t,0 | Int64,int64_t,0 | UInt32,uint32_t,0 | UInt64,uint64_t,0 | Bool,char,0
//@ proof atom_array_s_get${N} prop=C03 kind=bounded bound="arrays of at most 3 elements, every numeric content" unwind=9 sweep=2 functions=osc_atom_array_s_get${N}Array,osc_atom_array_s_alloc
static void s_get_${N}(int n)
{
	char data[64 * 8], tags[64]; int given = vc_bool();
	t_osc_array *ar = osc_atom_array_s_alloc(n);
	ENSURE("len", osc_atom_array_s_getLen(ar) == n);
	for(int i = 0; i < n; i++) {
		t_osc_atom_s *a = osc_atom_array_s_get(ar, i);
		a->typetag = tags[i] = vc_pick(NUM, 13);
		a->data = data + 8 * i;
		if(tags[i] == 'f') put32(a->data, f32bits(small_f()));
		else if(tags[i] == 'd') put64(a->data, f64bits(small_f()));
		else put64(a->data, vc_u64());
	}
	${T} *mine = vc_malloc(n * sizeof(${T})), *out = given ? mine : NULL;
	ENSURE("ok", osc_atom_array_s_get${N}Array(ar, &out) == OSC_ERR_NONE);
	ENSURE("buffer", given ? out == mine : out != mine);
	for(int i = 0; i < n; i++) {
		t_osc_atom_s *a = osc_atom_array_s_get(ar, i);
		ENSURE("element", out[i] == (${T})osc_atom_s_get${N}(a));
		ENSURE("kept", a->typetag == tags[i] && a->data == data + 8 * i);
	}
	if(!given) osc_mem_free(out);
	osc_atom_array_s_free(ar);
}
void atom_array_s_get${N}(void)
{
	int max = MAXN, n = (int)vc_range(1, max);
	VC_SPLIT(i, 1, max, n, s_get_${N}(i))
	VC_REACHED();
}
//@ proof atom_array_u_get${N} prop=C04 kind=bounded bound="arrays of at most 3 elements, every numeric content" unwind=9 sweep=2 absent=osc_bundle_u_free,osc_bundle_u_serialize,osc_bundle_u_nserialize,osc_bundle_u_copy,osc_bundle_s_deserialize,osc_bundle_u_getSerializedSize,osc_strfmt_* functions=osc_atom_array_u_get${N}Array,osc_atom_array_u_alloc,osc_atom_array_u_free
static void u_get_${N}(int n)
{
	char tags[64]; uint64_t bits[64]; int given = vc_bool();
	t_osc_atom_array_u *ar = osc_atom_array_u_alloc(n);
	ENSURE("len", osc_atom_array_u_getLen(ar) == n);
	for(int i = 0; i < n; i++) {
		t_osc_atom_u *a = osc_atom_array_u_get(ar, i);
		a->typetag = tags[i] = vc_pick(NUM, 13);
		a->w.H = vc_u64();
		if(tags[i] == 'f') a->w.f = small_f();
		if(tags[i] == 'd') a->w.d = small_f();
		bits[i] = a->w.H;
	}
	${T} *mine = vc_malloc(n * sizeof(${T})), *out = given ? mine : NULL;
	ENSURE("ok", osc_atom_array_u_get${N}Array(ar, &out) == OSC_ERR_NONE);
	ENSURE("buffer", given ? out == mine : out != mine);
	for(int i = 0; i < n; i++) {
		t_osc_atom_u *a = osc_atom_array_u_get(ar, i);
		ENSURE("element", out[i] == (${T})osc_atom_u_get${N}(a));
		ENSURE("kept", a->typetag == tags[i] && a->w.H == bits[i]);
	}
	if(!given) osc_mem_free(out);
	osc_atom_array_u_free(ar);
}
void atom_array_u_get${N}(void)
{
	int max = MAXN, n = (int)vc_range(1, max);
	VC_SPLIT(i, 1, max, n, u_get_${N}(i))
	VC_REACHED();
}
//@ endfor

/* ---- copies of arrays whose atoms own strings and blobs (C25) ---- */
static void fill(t_osc_atom_u *a, char kind, char c)
{
	char s[12];
	if(kind == 's') { s[0] = c; s[1] = 'x'; s[2] = 0; osc_atom_u_setString(a, s); }
	else if(kind == 'b') { put32(s, 3); s[4] = c; s[5] = 0; s[6] = c; osc_atom_u_setBlob(a, s); }
	else osc_atom_u_setInt32(a, c);
}
static int holds(t_osc_atom_u *a, char kind, char c)
{
	if(!a || osc_atom_u_getTypetag(a) != kind) return 0;
	if(kind == 'i') return a->w.i == c;
	char *p = kind == 's' ? osc_atom_u_getStringPtr(a) : osc_atom_u_getBlob(a);
	if(kind == 's') return p && p[0] == c && p[1] == 'x' && p[2] == 0;
	return p && be32(p) == 3 && p[4] == c && p[5] == 0 && p[6] == c;
}
static const void *held(t_osc_atom_u *a) { char k = osc_atom_u_getTypetag(a); return k == 'i' ? NULL : a->w.s; }
static void drop(t_osc_atom_array_u *ar)
{
	for(int i = 0; i < osc_atom_array_u_getLen(ar); i++) osc_atom_u_clear(osc_atom_array_u_get(ar, i));
	osc_atom_array_u_free(ar);
}
//@ for K0,K1,NAME in 's','i',si | 'b','s',bs | 's','b',sb | 'i','b',ib
//@ proof atom_array_u_copy_${NAME} prop=C25 kind=bounded bound="arrays of two elements with strings of 2 and blobs of 3 bytes" unwind=9 sweep=0 absent=osc_bundle_u_free,osc_bundle_u_serialize,osc_bundle_u_nserialize,osc_bundle_u_copy,osc_bundle_s_deserialize,osc_bundle_u_getSerializedSize,osc_strfmt_* functions=osc_atom_array_u_copy,osc_atom_array_u_copyInto,osc_atom_array_u_free,osc_atom_array_u_alloc
void atom_array_u_copy_${NAME}(void)
{
	t_osc_atom_array_u *a = osc_atom_array_u_alloc(2), *c;
	char x = (char)vc_u8(), y = (char)vc_u8();
	REQUIRE(x && y);
	fill(osc_atom_array_u_get(a, 0), ${K0}, x); fill(osc_atom_array_u_get(a, 1), ${K1}, y);
	int into = vc_bool();
	if(into) { c = NULL; osc_atom_array_u_copyInto(&c, a, 0); } else c = osc_atom_array_u_copy(a);
	ENSURE("len", osc_atom_array_u_getLen(c) == 2);
	ENSURE("equal", holds(osc_atom_array_u_get(c, 0), ${K0}, x) && holds(osc_atom_array_u_get(c, 1), ${K1}, y));
	drop(a);
	ENSURE("kept", holds(osc_atom_array_u_get(c, 0), ${K0}, x) && holds(osc_atom_array_u_get(c, 1), ${K1}, y));
	drop(c);
	VC_REACHED();
}
//@ endfor
//@ proof atom_array_u_copy_sweep prop=C25 kind=bounded bound="run-time contract on sampled arrays of at most 40 elements, strings, blobs and numbers" cbmc=0 sweep=4 functions=osc_atom_array_u_copy,osc_atom_array_u_copyInto,osc_atom_array_u_free
void atom_array_u_copy_sweep(void)
{
	int n = (int)vc_range(1, 40), m = (int)vc_range(1, 40), off = (int)vc_range(0, 40), mode = (int)vc_range(0, 2);
	char k[40], v[40], dk[40], dv[40];
	t_osc_atom_array_u *a = osc_atom_array_u_alloc(n), *c = NULL, *d = NULL;
	for(int i = 0; i < n; i++) { k[i] = vc_pick("sbi", 3); v[i] = (char)vc_range('a', 'z'); fill(osc_atom_array_u_get(a, i), k[i], v[i]); }
	if(mode == 0) { c = osc_atom_array_u_copy(a); off = 0; m = 0; }
	else if(mode == 1) { m = 0; ENSURE("ok", osc_atom_array_u_copyInto(&c, a, off) == OSC_ERR_NONE); }
	else {
		c = d = osc_atom_array_u_alloc(m);
		for(int i = 0; i < m; i++) { dk[i] = vc_pick("sbi", 3); dv[i] = (char)vc_range('a', 'z'); fill(osc_atom_array_u_get(c, i), dk[i], dv[i]); }
		ENSURE("ok", osc_atom_array_u_copyInto(&c, a, off) == OSC_ERR_NONE && c == d);
	}
	ENSURE("len", osc_atom_array_u_getLen(c) == (n + off > m ? n + off : m));
	for(int i = 0; i < osc_atom_array_u_getLen(c); i++) {
		t_osc_atom_u *x = osc_atom_array_u_get(c, i);
		if(i >= off && i < off + n) {
			ENSURE("element", holds(x, k[i - off], v[i - off]));
			ENSURE("no_sharing", !held(x) || held(x) != held(osc_atom_array_u_get(a, i - off)));
		}
		else if(i < m) ENSURE("others_kept", holds(x, dk[i], dv[i]));
		else ENSURE("empty", osc_atom_u_getTypetag(x) == 0);
	}
	for(int i = 0; i < n; i++) ENSURE("source_kept", holds(osc_atom_array_u_get(a, i), k[i], v[i]));
	drop(a);
	for(int i = off; i < off + n; i++) ENSURE("independent", holds(osc_atom_array_u_get(c, i), k[i - off], v[i - off]));
	drop(c);
	ENSURE("null", osc_atom_array_u_copy(NULL) == NULL && osc_atom_array_u_copyInto(&c, NULL, 0) != OSC_ERR_NONE);
	VC_COVER("grown", mode == 2 && n + off > m);
	VC_REACHED();
}
