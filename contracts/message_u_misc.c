/* Contracts for osc_message_u.c, continued (C09): nested bundles as arguments, constructors with a value, argument arrays. */
#include <string.h>
#include "osc.h"
#include "osc_mem.h"
#include "osc_timetag.h"
#include "osc_atom_u.h"
#include "osc_atom_u.r"
#include "osc_array.h"
#include "osc_atom_array_u.h"
#include "osc_message_u.h"
#include "osc_message_u.r"
#include "osc_bundle_u.h"
//@ sources osc_message_u osc_message_iterator_u osc_atom_u osc_atom_array_u osc_array osc_mem osc_util osc_timetag

typedef t_osc_atom_u A;
typedef t_osc_msg_u M;
static int is_str(const char *p, const char *q) { int i = 0; if(!p) return 0; while(p[i] && p[i] == q[i]) i++; return p[i] == q[i]; }
/* one argument, well linked */
static A *only(M *m)
{
	if(!m || !is_str(osc_message_u_getAddress(m), "/ad") || m->argc != 1) return NULL;
	A *a = m->arghead;
	return a && m->argtail == a && !a->next && !a->prev ? a : NULL;
}
//@ proof msg_allocWith prop=C09 unwind=9 sweep=1 absent=osc_bundle_*,osc_strfmt_* functions=osc_message_u_allocWithAddress,osc_message_u_allocWithFloat,osc_message_u_allocWithDouble,osc_message_u_allocWithInt,osc_message_u_allocWithString,osc_message_u_allocWithTimetag,osc_message_u_allocWithBlob,osc_message_u_setAddressPtr
void msg_allocWith(void)
{
	char ad[4] = "/ad", s[4] = "ab", b[8]; s[0] = vc_chr("ab ");
	float f = vc_f32(); double d = vc_f64(); int i = vc_i32(); t_osc_timetag t; t.sec = vc_u32(); t.frac_sec = vc_u32();
	put32(b, 3); vc_bytes(b + 4, 3);
	M *m = osc_message_u_allocWithFloat(ad, f); A *a = only(m);
	ENSURE("float", a && a->typetag == 'f' && sameval(a->w.f, f));
	ENSURE("address", osc_message_u_getAddress(m) != ad);
	osc_message_u_free(m);
	m = osc_message_u_allocWithDouble(ad, d); a = only(m);
	ENSURE("double", a && a->typetag == 'd' && sameval(a->w.d, d)); osc_message_u_free(m);
	m = osc_message_u_allocWithInt(ad, i); a = only(m);
	ENSURE("int", a && a->typetag == 'i' && a->w.i == i); osc_message_u_free(m);
	m = osc_message_u_allocWithTimetag(ad, t); a = only(m);
	ENSURE("timetag", a && a->typetag == 't' && a->w.t.sec == t.sec && a->w.t.frac_sec == t.frac_sec); osc_message_u_free(m);
	m = osc_message_u_allocWithString(ad, s); a = only(m);
	ENSURE("string", a && a->typetag == 's' && a->w.s != s && a->w.s[0] == s[0] && a->w.s[1] == 'b' && a->w.s[2] == 0); osc_message_u_free(m);
	m = osc_message_u_allocWithBlob(ad, b); a = only(m);
	ENSURE("blob", a && a->typetag == 'b' && a->w.b != b && be32(a->w.b) == 3 && a->w.b[4] == b[4] && a->w.b[5] == b[5] && a->w.b[6] == b[6]); osc_message_u_free(m);
	m = osc_message_u_allocWithAddress(ad);
	ENSURE("address_only", m && m->argc == 0 && !m->arghead && !m->argtail && is_str(m->address, "/ad"));
	char *old = NULL, *mine = osc_mem_alloc(2), *was = m->address; mine[0] = '/'; mine[1] = 0;
	osc_message_u_setAddressPtr(m, mine, &old);
	ENSURE("pointer", osc_message_u_getAddress(m) == mine && old == was && m->argc == 0);
	osc_mem_free(old);
	osc_message_u_free(m);
	VC_REACHED();
}
//@ for KIND,NAME in 'i',int | 's',string | 'b',blob
//@ proof msg_arrays_${NAME} prop=C09 kind=bounded bound="two arguments before, two elements" unwind=9 sweep=1 absent=osc_bundle_*,osc_strfmt_* functions=osc_message_u_getArgArrayCopy,osc_message_u_setArgArrayCopy,osc_message_u_allocWithArray
static A *put_${NAME}(A *a, char c)
{
	char s[8];
	if(${KIND} == 's') { s[0] = c; s[1] = 'x'; s[2] = 0; osc_atom_u_setString(a, s); }
	else if(${KIND} == 'b') { put32(s, 2); s[4] = c; s[5] = 'x'; osc_atom_u_setBlob(a, s); }
	else osc_atom_u_setInt32(a, c);
	return a;
}
static int has_${NAME}(A *a, char c)
{
	if(!a || a->typetag != ${KIND}) return 0;
	if(${KIND} == 's') return a->w.s && a->w.s[0] == c && a->w.s[1] == 'x' && a->w.s[2] == 0;
	if(${KIND} == 'b') return a->w.b && be32(a->w.b) == 2 && a->w.b[4] == c && a->w.b[5] == 'x';
	return a->w.i == c;
}
void msg_arrays_${NAME}(void)
{
	char ad[4] = "/ad", x = (char)vc_range(1, 100), y = (char)vc_range(1, 100);
	t_osc_atom_array_u *ar = osc_atom_array_u_alloc(2);
	put_${NAME}(osc_atom_array_u_get(ar, 0), x); put_${NAME}(osc_atom_array_u_get(ar, 1), y);
	M *m = osc_message_u_allocWithArray(ad, ar);
	for(int i = 0; i < 2; i++) osc_atom_u_clear(osc_atom_array_u_get(ar, i));
	osc_array_free((t_osc_array *)ar);
	A *a = m->arghead, *b = m->argtail;
	ENSURE("arguments", m->argc == 2 && a && b && a->next == b && b->prev == a && !a->prev && !b->next && has_${NAME}(a, x) && has_${NAME}(b, y));
	ar = (t_osc_atom_array_u *)osc_message_u_getArgArrayCopy(m);
	ENSURE("array", osc_atom_array_u_getLen(ar) == 2 && has_${NAME}(osc_atom_array_u_get(ar, 0), x) && has_${NAME}(osc_atom_array_u_get(ar, 1), y));
	ENSURE("added", osc_message_u_setArgArrayCopy(m, ar) == OSC_ERR_NONE);
	A *c = b->next, *d = m->argtail;
	ENSURE("sequence", m->argc == 4 && m->arghead == a && a->next == b && c && c->prev == b && c->next == d && d->prev == c && !d->next);
	ENSURE("values", has_${NAME}(a, x) && has_${NAME}(b, y) && has_${NAME}(c, x) && has_${NAME}(d, y));
	osc_message_u_free(m);
	ENSURE("independent", has_${NAME}(osc_atom_array_u_get(ar, 0), x) && has_${NAME}(osc_atom_array_u_get(ar, 1), y));
	VC_REACHED();
}
//@ endfor
//@ proof msg_addBndl prop=C09 kind=bounded bound="a nested bundle of one message of one argument of every value, among two arguments" unwind=22 sweep=1 absent=osc_strfmt_* functions=osc_message_u_appendBndl,osc_message_u_prependBndl,osc_message_u_insertBndl,osc_message_u_appendBndl_s,osc_message_u_prependBndl_s,osc_message_u_insertBndl_s cost=2
static void add_bndl(int way)
{
	char b[32]; uint32_t v = vc_u32();
	memcpy(b, "#bundle\0\0\0\0\0\0\0\0\1", 16);
	put32(b + 16, 12); memcpy(b + 20, "/a\0\0,i\0\0", 8); put32(b + 28, v);
	M *m = osc_message_u_alloc();
	osc_message_u_appendInt32(m, 10); osc_message_u_appendInt32(m, 20);
	A *p = m->arghead, *q = m->argtail, *a = way == 0 ? osc_message_u_appendBndl(m, 32, b) : way == 1 ? osc_message_u_prependBndl(m, 32, b) : osc_message_u_insertBndl(m, 32, b, 1);
	A *w0 = way == 1 ? a : p, *w1 = way == 0 ? q : way == 1 ? p : a, *w2 = way == 0 ? a : q;
	ENSURE("sequence", m->argc == 3 && m->arghead == w0 && w0->next == w1 && w1->next == w2 && m->argtail == w2 && !w2->next && !w0->prev && w1->prev == w0 && w2->prev == w1);
	ENSURE("others", p->typetag == 'i' && p->w.i == 10 && q->typetag == 'i' && q->w.i == 20);
	t_osc_bndl_u *u = osc_atom_u_getBndl(a);
	ENSURE("bundle", osc_atom_u_getTypetag(a) == '.' && u && osc_bundle_u_getMsgCount(u) == 1);
	M *n = osc_bundle_u_getFirstMsg(u);
	ENSURE("message", is_str(osc_message_u_getAddress(n), "/a") && n->argc == 1 && n->arghead->typetag == 'i' && n->arghead->w.i == (int32_t)v);
	osc_message_u_free(m);
}
void msg_addBndl(void)
{
	add_bndl(0); add_bndl(1); add_bndl(2);
	VC_REACHED();
}
