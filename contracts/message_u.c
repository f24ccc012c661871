/* Contracts for the argument list of osc_message_u.c and its iterator (C09).
 * append/prepend/remove are loop-free and proved for a message with ANY number of arguments; their
 * specification speaks of the message record and the neighbouring arguments only. What walks the
 * list is compared with a sequence, for every message of up to N arguments. */
#include <string.h>
#include "osc.h"
#include "osc_mem.h"
#include "osc_timetag.h"
#include "osc_message_u.h"
#include "osc_message_u.r"
#include "osc_message_iterator_u.h"
#include "osc_atom_u.h"
#include "osc_atom_u.r"
//@ sources osc_message_u osc_message_iterator_u osc_atom_u osc_mem osc_util osc_timetag
/* bundles as arguments stay out of these proofs (recursion); the list code never looks at the values */
typedef t_osc_msg_u M;
typedef t_osc_atom_u A;

static A *at(int v, A *prev, A *next)
{
	A *a = vc_malloc(sizeof *a);
	memset(a, 0, sizeof *a);
	a->typetag = 'i'; a->w.i = v; a->prev = prev; a->next = next;
	return a;
}
static int same_atom(const A *a, const A *b) { return a->typetag == b->typetag && a->alloc == b->alloc && a->w.h == b->w.h; }
static A mid_a, mid_b;
static M *any_msg(A **h, A **t)
{
	M *m = vc_malloc(sizeof *m);
	memset(m, 0, sizeof *m);
	int n = (int)vc_range(0, 2);     /* 2: two or more */
	m->argc = n == 2 ? (int)vc_range(2, 0x7ffffffe) : n;
	memset(&mid_a, 0, sizeof mid_a); memset(&mid_b, 0, sizeof mid_b);
	if(n == 1) m->arghead = m->argtail = at(vc_i32(), NULL, NULL);
	if(n == 2) {
		m->arghead = at(vc_i32(), NULL, &mid_a);
		m->argtail = at(vc_i32(), &mid_b, NULL);
		if(m->argc == 2) { m->arghead->next = m->argtail; m->argtail->prev = m->arghead; }
		mid_a.prev = m->arghead; mid_b.next = m->argtail;
	}
	*h = m->arghead; *t = m->argtail;
	return m;
}
static A *any_atom(void)     /* as a caller may hand it over: with arbitrary links */
{
	A *a = at(vc_i32(), NULL, NULL);
	if(vc_bool()) { a->next = &mid_b; a->prev = &mid_a; }
	return a;
}
#define IS_LAST(a) do { \
	ENSURE("count", m->argc == c + 1); \
	ENSURE("last", m->argtail == (a) && (a)->next == NULL && (a)->prev == t); \
	ENSURE("head", m->arghead == (h ? h : (a))); \
	ENSURE("linked", t == NULL || (t->next == (a) && t->prev == ot.prev && same_atom(t, &ot))); \
	ENSURE("head_kept", h == NULL || h == t || (h->next == oh.next && h->prev == NULL && same_atom(h, &oh))); } while(0)
#define IS_FIRST(a) do { \
	ENSURE("count", m->argc == c + 1); \
	ENSURE("first", m->arghead == (a) && (a)->prev == NULL && (a)->next == h); \
	ENSURE("tail", m->argtail == (t ? t : (a))); \
	ENSURE("linked", h == NULL || (h->prev == (a) && h->next == oh.next && same_atom(h, &oh))); \
	ENSURE("tail_kept", t == NULL || h == t || (t->prev == ot.prev && t->next == NULL && same_atom(t, &ot))); } while(0)
#define ANY_MSG A *h, *t; M *m = any_msg(&h, &t); int c = m->argc; A oh, ot; if(h) { oh = *h; ot = *t; }

//@ proof msg_appendAtom prop=C09 sweep=2 absent=osc_bundle_*,osc_strfmt_* functions=osc_message_u_appendAtom
void msg_appendAtom(void)
{
	ANY_MSG; A *a = any_atom(); A o = *a;
	osc_message_u_appendAtom(m, a);
	IS_LAST(a);
	ENSURE("value", same_atom(a, &o));
	VC_COVER("long", c > 5); VC_COVER("empty", c == 0);
	VC_REACHED();
}
//@ proof msg_prependAtom prop=C09 sweep=2 absent=osc_bundle_*,osc_strfmt_* functions=osc_message_u_prependAtom
void msg_prependAtom(void)
{
	ANY_MSG; A *a = any_atom(); A o = *a;
	osc_message_u_prependAtom(m, a);
	IS_FIRST(a);
	ENSURE("value", same_atom(a, &o));
	VC_COVER("long", c > 5); VC_COVER("empty", c == 0);
	VC_REACHED();
}
//@ proof msg_insertAtom_ends prop=C09 unwind=2 sweep=2 absent=osc_bundle_*,osc_strfmt_* functions=osc_message_u_insertAtom
void msg_insertAtom_ends(void)
{
	/* any message; any position that is not strictly inside it */
	ANY_MSG; A *a = any_atom(); A o = *a;
	int pos = vc_i32();
	if(VC_STEER) pos = vc_bool() ? c : -(int)vc_range(0, 3);
	REQUIRE(pos <= 0 || pos >= c);
	osc_message_u_insertAtom(m, a, pos);
	if(pos <= 0) IS_FIRST(a); else IS_LAST(a);
	ENSURE("value", same_atom(a, &o));
	VC_COVER("negative", c > 5 && pos < 0); VC_COVER("beyond", c > 5 && pos > c);
	VC_REACHED();
}
//@ proof msg_removeAtom_any prop=C09 sweep=2 absent=osc_bundle_*,osc_strfmt_* functions=osc_message_u_removeAtom
void msg_removeAtom_any(void)
{
	/* an argument at any place of any message: first, last, both or neither */
	M *m = vc_malloc(sizeof *m);
	memset(m, 0, sizeof *m); memset(&mid_a, 0, sizeof mid_a); memset(&mid_b, 0, sizeof mid_b);
	int first = vc_bool(), last = vc_bool();
	A *p = first ? NULL : at(vc_i32(), &mid_a, NULL), *n = last ? NULL : at(vc_i32(), NULL, &mid_b), *a = at(vc_i32(), p, n);
	int least = 1 + !first + !last;
	m->argc = (int)vc_range(least, first && last ? 1 : 0x7ffffffe);
	int far_h = !first && m->argc > least && (last || vc_bool()), far_t = !last && m->argc > least && (!far_h || (m->argc > least + 1 && vc_bool()));
	if(p) { p->next = a; if(!far_h) p->prev = NULL; }
	if(n) { n->prev = a; if(!far_t) n->next = NULL; }
	m->arghead = first ? a : far_h ? &mid_a : p;
	m->argtail = last ? a : far_t ? &mid_b : n;
	A op, on, o = *a, ma = mid_a, mb = mid_b; if(p) op = *p; if(n) on = *n;
	A *h = m->arghead, *t = m->argtail; int c = m->argc;
	osc_message_u_removeAtom(m, a);
	ENSURE("count", m->argc == c - 1);
	ENSURE("head", m->arghead == (first ? n : h));
	ENSURE("tail", m->argtail == (last ? p : t));
	ENSURE("before", p == NULL || (p->next == n && p->prev == op.prev && same_atom(p, &op)));
	ENSURE("after", n == NULL || (n->prev == p && n->next == on.next && same_atom(n, &on)));
	ENSURE("value", same_atom(a, &o));
	ENSURE("rest", memcmp(&ma, &mid_a, sizeof ma) == 0 && memcmp(&mb, &mid_b, sizeof mb) == 0);
	VC_COVER("only", first && last); VC_COVER("middle", !first && !last && c > 7);
	VC_REACHED();
}

//@ for N,T,TAG,F in Int8,int8_t,c,c | Int16,int16_t,u,u | Int32,int32_t,i,i | Int64,int64_t,h,h | UInt8,uint8_t,C,C | UInt16,uint16_t,U,U | UInt32,uint32_t,I,I | UInt64,uint64_t,H,H
//@ proof msg_add${N} prop=C09 unwind=2 sweep=1 absent=osc_bundle_*,osc_strfmt_* functions=osc_message_u_append${N},osc_message_u_prepend${N},osc_message_u_insert${N}
void msg_add${N}(void)
{
	ANY_MSG; ${T} v = (${T})vc_u64(); int w = (int)vc_range(0, 3);
	A *a = w == 0 ? osc_message_u_append${N}(m, v) : w == 1 ? osc_message_u_prepend${N}(m, v) : osc_message_u_insert${N}(m, v, w == 2 ? 0 : c);
	ENSURE("tag", a->typetag == '${TAG}');
	ENSURE("value", a->w.${F} == v);
	if(w == 0 || (w == 3 && c != 0)) IS_LAST(a); else IS_FIRST(a);
	VC_REACHED();
}
//@ endfor
//@ for N,T,TAG,B,R in Float,float,f,f32bits,vc_f32() | Double,double,d,f64bits,vc_f64()
//@ proof msg_add${N} prop=C09 unwind=2 sweep=1 absent=osc_bundle_*,osc_strfmt_* functions=osc_message_u_append${N},osc_message_u_prepend${N},osc_message_u_insert${N}
void msg_add${N}(void)
{
	ANY_MSG; ${T} v = ${R}; int w = (int)vc_range(0, 3);
	REQUIRE(v == v);
	A *a = w == 0 ? osc_message_u_append${N}(m, v) : w == 1 ? osc_message_u_prepend${N}(m, v) : osc_message_u_insert${N}(m, v, w == 2 ? 0 : c);
	ENSURE("tag", a->typetag == '${TAG}');
	ENSURE("value", ${B}(a->w.${TAG}) == ${B}(v));
	if(w == 0 || (w == 3 && c != 0)) IS_LAST(a); else IS_FIRST(a);
	VC_REACHED();
}
//@ endfor
//@ for N,TAG in True,'T' | False,'F' | Nil,'N'
//@ proof msg_add${N} prop=C09 unwind=2 sweep=1 absent=osc_bundle_*,osc_strfmt_* functions=osc_message_u_append${N},osc_message_u_prepend${N},osc_message_u_insert${N}
void msg_add${N}(void)
{
	ANY_MSG; int w = (int)vc_range(0, 3);
	A *a = w == 0 ? osc_message_u_append${N}(m) : w == 1 ? osc_message_u_prepend${N}(m) : osc_message_u_insert${N}(m, w == 2 ? 0 : c);
	ENSURE("tag", a->typetag == ${TAG});
	if(w == 0 || (w == 3 && c != 0)) IS_LAST(a); else IS_FIRST(a);
	VC_REACHED();
}
//@ endfor
//@ proof msg_addBool prop=C09 unwind=2 sweep=1 absent=osc_bundle_*,osc_strfmt_* functions=osc_message_u_appendBool,osc_message_u_prependBool,osc_message_u_insertBool
void msg_addBool(void)
{
	ANY_MSG; int w = (int)vc_range(0, 3), v = vc_bool() ? vc_i32() : 0;
	A *a = w == 0 ? osc_message_u_appendBool(m, v) : w == 1 ? osc_message_u_prependBool(m, v) : osc_message_u_insertBool(m, v, w == 2 ? 0 : c);
	ENSURE("tag", a->typetag == (v ? 'T' : 'F'));
	if(w == 0 || (w == 3 && c != 0)) IS_LAST(a); else IS_FIRST(a);
	VC_REACHED();
}
//@ proof msg_addTimetag prop=C09 unwind=2 sweep=1 absent=osc_bundle_*,osc_strfmt_* functions=osc_message_u_appendTimetag,osc_message_u_prependTimetag,osc_message_u_insertTimetag
void msg_addTimetag(void)
{
	ANY_MSG; int w = (int)vc_range(0, 3);
	t_osc_timetag v; v.sec = vc_u32(); v.frac_sec = vc_u32();
	A *a = w == 0 ? osc_message_u_appendTimetag(m, v) : w == 1 ? osc_message_u_prependTimetag(m, v) : osc_message_u_insertTimetag(m, v, w == 2 ? 0 : c);
	ENSURE("tag", a->typetag == OSC_TIMETAG_TYPETAG);
	ENSURE("value", a->w.t.sec == v.sec && a->w.t.frac_sec == v.frac_sec);
	if(w == 0 || (w == 3 && c != 0)) IS_LAST(a); else IS_FIRST(a);
	VC_REACHED();
}
//@ for N in append | prepend
//@ proof msg_${N}String prop=C09 kind=bounded bound="strings of up to 4 characters, messages of any length" unwind=8 sweep=1 absent=osc_bundle_*,osc_strfmt_* functions=osc_message_u_${N}String,osc_message_u_${N}StringPtr
void msg_${N}String(void)
{
	ANY_MSG; char v[8]; int n = vc_string(v, 4, "ab/ "), ptr = vc_bool();
	A *a = ptr ? osc_message_u_${N}StringPtr(m, v) : osc_message_u_${N}String(m, v);
	ENSURE("tag", a->typetag == 's');
	ENSURE("value", ptr ? a->w.s == v : a->w.s != v);
	for(int i = 0; i <= 4; i++) ENSURE("text", i > n || a->w.s[i] == v[i]);
	if("${N}"[0] == 'a') IS_LAST(a); else IS_FIRST(a);
	VC_REACHED();
}
//@ endfor
//@ proof msg_insertString prop=C09 kind=bounded bound="strings of up to 4 characters, at either end of messages of any length" unwind=8 sweep=1 absent=osc_bundle_*,osc_strfmt_* functions=osc_message_u_insertString,osc_message_u_insertStringPtr
void msg_insertString(void)
{
	ANY_MSG; char v[8]; int n = vc_string(v, 4, "ab/ "), ptr = vc_bool(), first = vc_bool();
	A *a = ptr ? osc_message_u_insertStringPtr(m, v, first ? 0 : c) : osc_message_u_insertString(m, v, first ? 0 : c);
	ENSURE("tag", a->typetag == 's');
	for(int i = 0; i <= 4; i++) ENSURE("text", i > n || a->w.s[i] == v[i]);
	if(!first && c != 0) IS_LAST(a); else IS_FIRST(a);
	VC_REACHED();
}
//@ proof msg_addBlob prop=C09 kind=bounded bound="blobs of up to 4 bytes, messages of any length" unwind=9 sweep=1 absent=osc_bundle_*,osc_strfmt_* functions=osc_message_u_appendBlob,osc_message_u_prependBlob,osc_message_u_insertBlob
void msg_addBlob(void)
{
	ANY_MSG; char v[8]; int n = (int)vc_range(0, 4), w = (int)vc_range(0, 3);
	put32(v, n); vc_bytes(v + 4, 4);
	A *a = w == 0 ? osc_message_u_appendBlob(m, v) : w == 1 ? osc_message_u_prependBlob(m, v) : osc_message_u_insertBlob(m, v, w == 2 ? 0 : c);
	ENSURE("tag", a->typetag == 'b' && a->w.b != v && be32(a->w.b) == (uint32_t)n);
	for(int i = 0; i < n; i++) ENSURE("bytes", a->w.b[4 + i] == v[4 + i]);
	if(w == 0 || (w == 3 && c != 0)) IS_LAST(a); else IS_FIRST(a);
	VC_REACHED();
}
//@ proof msg_addBndl_u prop=C09 unwind=2 sweep=1 absent=osc_bundle_*,osc_strfmt_* functions=osc_message_u_appendBndl_u,osc_message_u_prependBndl_u,osc_message_u_insertBndl_u
void msg_addBndl_u(void)
{
	ANY_MSG; static char some; t_osc_bndl_u *b = (t_osc_bndl_u *)&some; int w = (int)vc_range(0, 3);
	A *a = w == 0 ? osc_message_u_appendBndl_u(m, b) : w == 1 ? osc_message_u_prependBndl_u(m, b) : osc_message_u_insertBndl_u(m, b, w == 2 ? 0 : c);
	ENSURE("bundle", a->typetag == OSC_BUNDLE_TYPETAG && a->w.bndl == b);
	if(w == 0 || (w == 3 && c != 0)) IS_LAST(a); else IS_FIRST(a);
	VC_REACHED();
}

/* ---- against a sequence, messages of up to N arguments ---- */
#define N (VC_MAX(4, 12))
#define CAP 16
static A *node[CAP];
static M *mkmsg(int *v, int n)
{
	M *m = vc_malloc(sizeof *m);
	memset(m, 0, sizeof *m);
	for(int i = 0; i < n; i++) { v[i] = vc_i32(); osc_message_u_appendAtom(m, node[i] = at(v[i], NULL, NULL)); }
	return m;
}
static int is(M *m, int *v, int n)
{
	int i = 0; A *e, *prev = NULL;
	for(e = m->arghead; e && i < n; prev = e, e = e->next, i++) if(e->typetag != 'i' || e->w.i != v[i] || e->prev != prev) return 0;
	return e == NULL && i == n && m->argtail == prev && m->argc == n && osc_message_u_getArgCount(m) == n;
}
//@ proof msg_getArg prop=C09 kind=bounded bound="messages of up to 4 arguments, every 32-bit position" unwind=7 sweep=3 absent=osc_bundle_*,osc_strfmt_* functions=osc_message_u_getArg,osc_message_u_getArgCount
void msg_getArg(void)
{
	int v[CAP], n = (int)vc_range(0, N), p = VC_STEER ? (int)vc_range(-2, n + 2) : vc_i32();
	VC_SPLIT(k, 0, N, n,
		M *m = mkmsg(v, k);
		ENSURE("built", is(m, v, k));
		A *a = osc_message_u_getArg(m, p);
		if(p >= k) ENSURE("beyond", a == NULL);
		else if(p >= 0) ENSURE("nth", a == node[p]);
		else { int f = 0; for(int i = 0; i < k; i++) f += a == node[i]; ENSURE("negative", a == NULL || f); }
		ENSURE("same", is(m, v, k)));
	ENSURE("null", osc_message_u_getArg(NULL, p) == NULL && osc_message_u_getArgCount(NULL) == 0);
	VC_COVER("third", n == 4 && p == 2);
	VC_REACHED();
}
//@ proof msg_insertAtom prop=C09 kind=bounded bound="messages of up to 4 arguments, every 32-bit position" unwind=7 sweep=3 absent=osc_bundle_*,osc_strfmt_* functions=osc_message_u_insertAtom
void msg_insertAtom(void)
{
	int v[CAP], n = (int)vc_range(0, N), p = VC_STEER ? (int)vc_range(-2, n + 2) : vc_i32();
	VC_SPLIT(k, 0, N, n,
		M *m = mkmsg(v, k);
		A *a = any_atom();
		int q = p < 0 ? 0 : p > k ? k : p;
		osc_message_u_insertAtom(m, a, p);
		for(int i = N; i > 0; i--) if(i > q) v[i] = v[i - 1];
		v[q] = a->w.i;
		ENSURE("inserted", is(m, v, k + 1));
		A *b = osc_message_u_getArg(m, q);
		ENSURE("that", b == a));
	VC_COVER("third", n == 4 && p == 2);
	VC_REACHED();
}
//@ proof msg_removeAtom prop=C09 kind=bounded bound="messages of up to 4 arguments" unwind=7 sweep=3 absent=osc_bundle_*,osc_strfmt_* functions=osc_message_u_removeAtom
void msg_removeAtom(void)
{
	int v[CAP], n = (int)vc_range(1, N), p = (int)vc_range(0, N - 1);
	REQUIRE(p < n);
	VC_SPLIT(k, 1, N, n,
		M *m = mkmsg(v, k);
		osc_message_u_removeAtom(m, node[p]);
		for(int i = 0; i + 1 < k; i++) if(i >= p) v[i] = v[i + 1];
		ENSURE("removed", is(m, v, k - 1)));
	M z; memset(&z, 0, sizeof z);
	osc_message_u_removeAtom(NULL, NULL); osc_message_u_removeAtom(&z, NULL);
	ENSURE("null", z.argc == 0);
	VC_REACHED();
}
//@ proof msg_iterate prop=C09 kind=bounded bound="messages of up to 4 arguments" unwind=7 sweep=3 absent=osc_bundle_*,osc_strfmt_* functions=osc_message_iterator_u_getIterator,osc_message_iterator_u_next,osc_message_iterator_u_hasNext,osc_message_iterator_u_resetIterator,osc_message_iterator_u_destroyIterator
void msg_iterate(void)
{
	int v[CAP], n = (int)vc_range(0, N);
	VC_SPLIT(k, 0, N, n,
		M *m = mkmsg(v, k);
		t_osc_msg_it_u *it = osc_msg_it_u_get(m);
		for(int round = 0; round < 2; round++) {
			for(int i = 0; i < k; i++) { ENSURE("has", osc_msg_it_u_hasNext(it)); ENSURE("ith", osc_msg_it_u_next(it) == node[i]); }
			ENSURE("end", !osc_msg_it_u_hasNext(it) && osc_msg_it_u_next(it) == NULL);
			osc_message_iterator_u_resetIterator(it);
		}
		osc_msg_it_u_destroy(it);
		ENSURE("same", is(m, v, k)));
	VC_REACHED();
}
//@ proof msg_clearArgs prop=C09 kind=bounded bound="messages of up to 4 arguments" unwind=7 sweep=2 absent=osc_bundle_*,osc_strfmt_* functions=osc_message_u_clearArgs,osc_message_u_free
void msg_clearArgs(void)
{
	int v[CAP], n = (int)vc_range(0, N);
	VC_SPLIT(k, 0, N, n,
		M *m = osc_message_u_alloc();
		ENSURE("empty", is(m, v, 0) && m->address == NULL && m->next == NULL && m->prev == NULL);
		for(int i = 0; i < k; i++) { v[i] = vc_i32(); osc_message_u_appendInt32(m, v[i]); }
		ENSURE("built", is(m, v, k));
		osc_message_u_clearArgs(m);
		ENSURE("cleared", is(m, v, 0));
		osc_message_u_appendInt32(m, v[0] = vc_i32());
		ENSURE("usable", is(m, v, 1));
		osc_message_u_free(m));
	osc_message_u_clearArgs(NULL); osc_message_u_free(NULL);
	VC_REACHED();
}
//@ proof msg_setAddress prop=C09 kind=bounded bound="addresses of up to 5 characters" unwind=9 sweep=3 absent=osc_bundle_*,osc_strfmt_* functions=osc_message_u_setAddress,osc_message_u_getAddress,osc_message_u_allocWithAddress
void msg_setAddress(void)
{
	char a[8], b[8]; vc_string(a, 5, "//ab"); int nb = vc_string(b, 5, "//ab");
	M *m = osc_message_u_alloc();
	int ok = a[0] == '/';
	t_osc_err e = osc_message_u_setAddress(m, a);
	ENSURE("first", (e == OSC_ERR_NONE) == ok && (ok ? osc_message_u_getAddress(m) != a && osc_message_u_getAddress(m) != NULL : osc_message_u_getAddress(m) == NULL));
	if(ok) ENSURE("text1", strcmp(osc_message_u_getAddress(m), a) == 0);
	int ok2 = b[0] == '/';
	e = osc_message_u_setAddress(m, b);
	ENSURE("second", (e == OSC_ERR_NONE) == ok2);
	char *now = osc_message_u_getAddress(m);
	ENSURE("set", (now != NULL) == (ok || ok2));
	if(now) ENSURE("text2", strcmp(now, ok2 ? b : a) == 0);
	ENSURE("args", m->argc == 0 && m->arghead == NULL);
	osc_message_u_setAddress(m, NULL);
	ENSURE("cleared", osc_message_u_getAddress(m) == NULL);
	ENSURE("null", osc_message_u_setAddress(NULL, b) != OSC_ERR_NONE && osc_message_u_getAddress(NULL) == NULL);
	osc_message_u_free(m);
	VC_COVER("grow", ok && ok2 && nb == 5 && a[1] == 0);
	VC_REACHED();
}
//@ proof msg_history prop=C09 cbmc=0 sweep=6 functions=osc_message_u_appendAtom,osc_message_u_prependAtom,osc_message_u_insertAtom,osc_message_u_removeAtom,osc_message_u_getArg
void msg_history(void)
{
	int v[64], n = 0;
	M *m = osc_message_u_alloc();
	for(int s = 0; s < 40; s++) {
		int p = (int)vc_range(-1, n + 1), q = p < 0 ? 0 : p > n ? n : p, x = vc_i32();
		switch((int)vc_range(0, 4)) {
		case 0: osc_message_u_appendInt32(m, x); v[n++] = x; break;
		case 1: osc_message_u_prependInt32(m, x); memmove(v + 1, v, n * sizeof *v); v[0] = x; n++; break;
		case 2: osc_message_u_insertInt32(m, x, p); memmove(v + q + 1, v + q, (n - q) * sizeof *v); v[q] = x; n++; break;
		default: if(q < n) { A *a = osc_message_u_getArg(m, q); ENSURE("arg", a->w.i == v[q]); osc_message_u_removeAtom(m, a); osc_atom_u_free(a); n--; memmove(v + q, v + q + 1, (n - q) * sizeof *v); } break;
		}
		ENSURE("sequence", is(m, v, n));
	}
	osc_message_u_free(m);
}
