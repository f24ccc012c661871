/* Contracts for the message list of osc_bundle_u.c and its iterator (C10).
 * addMsg and removeMsg are loop-free and proved for a bundle with ANY number of messages; what walks
 * the list is compared with a sequence for every bundle of up to N messages. */
#include <string.h>
#include "osc.h"
#include "osc_mem.h"
#include "osc_timetag.h"
#include "osc_message_u.h"
#include "osc_message_u.r"
#include "osc_message_iterator_u.h"
#include "osc_atom_u.h"
#include "osc_atom_u.r"
#include "osc_bundle_u.h"
#include "osc_bundle_u.r"
#include "osc_bundle_iterator_u.h"
#include "osc_array.h"
#include "osc_match.h"
//@ sources osc_bundle_u osc_bundle_iterator_u osc_message_u osc_message_iterator_u osc_atom_u osc_array osc_mem osc_util osc_match
typedef t_osc_bndl_u B;
typedef t_osc_msg_u M;

static M *mk(void)
{
	M *m = vc_malloc(sizeof *m);
	memset(m, 0, sizeof *m);
	m->argc = vc_u8();
	return m;
}
/* an empty, one-message or longer bundle; a bundle of one message may or may not name it as its tail */
static M mid_a, mid_b;
static B *any_bndl(M **h, M **t)
{
	B *b = vc_malloc(sizeof *b);
	memset(b, 0, sizeof *b); memset(&mid_a, 0, sizeof mid_a); memset(&mid_b, 0, sizeof mid_b);
	int n = (int)vc_range(0, 2);
	b->msgcount = n == 2 ? (int)vc_range(2, 0x7ffffffe) : n;
	*h = *t = NULL;
	if(n == 1) { *h = *t = mk(); b->msghead = *h; b->msgtail = vc_bool() ? *h : NULL; }
	if(n == 2) {
		*h = b->msghead = mk(); *t = b->msgtail = mk();
		if(b->msgcount == 2) { (*h)->next = *t; (*t)->prev = *h; }
		else { (*h)->next = &mid_a; mid_a.prev = *h; (*t)->prev = &mid_b; mid_b.next = *t; }
	}
	return b;
}
//@ proof bndl_addMsg_any prop=C10 sweep=2 absent=osc_message_u_free,osc_strfmt_*,osc_bundle_u_free functions=osc_bundle_u_addMsg,osc_bundle_u_addMsg_impl unwind=2
void bndl_addMsg_any(void)
{
	M *h, *t; B *b = any_bndl(&h, &t);
	int c = b->msgcount; M oh, ot; if(h) { oh = *h; ot = *t; }
	M *m = mk(); int ac = m->argc;
	if(vc_bool()) { m->next = &mid_a; m->prev = &mid_b; }
	ENSURE("ok", osc_bundle_u_addMsg(b, m) == OSC_ERR_NONE);
	ENSURE("count", b->msgcount == c + 1 && osc_bundle_u_getMsgCount(b) == c + 1);
	ENSURE("last", m->next == NULL && m->prev == t && (b->msgtail == m || (c == 0 && b->msgtail == NULL)));
	ENSURE("head", b->msghead == (h ? h : m) && osc_bundle_u_getFirstMsg(b) == b->msghead);
	ENSURE("linked", t == NULL || (t->next == m && t->prev == ot.prev));
	ENSURE("head_kept", h == NULL || h == t || (h->next == oh.next && h->prev == NULL));
	ENSURE("message_kept", m->argc == ac && (t == NULL || t->argc == ot.argc));
	VC_COVER("long", c > 5); VC_COVER("one", c == 1);
	VC_REACHED();
}
//@ proof bndl_removeMsg_any prop=C10 sweep=2 absent=osc_message_u_free,osc_strfmt_*,osc_bundle_u_free functions=osc_bundle_u_removeMsg
void bndl_removeMsg_any(void)
{
	B *b = vc_malloc(sizeof *b);
	memset(b, 0, sizeof *b); memset(&mid_a, 0, sizeof mid_a); memset(&mid_b, 0, sizeof mid_b);
	int first = vc_bool(), last = vc_bool();
	M *p = first ? NULL : mk(), *n = last ? NULL : mk(), *a = mk();
	a->prev = p; a->next = n;
	int least = 1 + !first + !last;
	b->msgcount = (int)vc_range(least, first && last ? 1 : 0x7ffffffe);
	int far_h = !first && b->msgcount > least && (last || vc_bool()), far_t = !last && b->msgcount > least && (!far_h || (b->msgcount > least + 1 && vc_bool()));
	if(p) { p->next = a; p->prev = far_h ? &mid_a : NULL; }
	if(n) { n->prev = a; n->next = far_t ? &mid_b : NULL; }
	b->msghead = first ? a : far_h ? &mid_a : p;
	b->msgtail = last ? (first && vc_bool() ? NULL : a) : far_t ? &mid_b : n;
	M op, on; if(p) op = *p; if(n) on = *n;
	M ma = mid_a, mb = mid_b, *h = b->msghead, *t = b->msgtail; int c = b->msgcount;
	ENSURE("ok", osc_bundle_u_removeMsg(b, a) == OSC_ERR_NONE);
	ENSURE("count", b->msgcount == c - 1);
	ENSURE("head", b->msghead == (first ? n : h));
	ENSURE("tail", b->msgtail == (last ? p : t));
	ENSURE("before", p == NULL || (p->next == n && p->prev == op.prev && p->argc == op.argc));
	ENSURE("after", n == NULL || (n->prev == p && n->next == on.next && n->argc == on.argc));
	ENSURE("rest", memcmp(&ma, &mid_a, sizeof ma) == 0 && memcmp(&mb, &mid_b, sizeof mb) == 0);
	VC_COVER("middle", !first && !last && c > 7); VC_COVER("only", first && last);
	VC_REACHED();
}
//@ proof bndl_null prop=C10 sweep=1 absent=osc_strfmt_* unwind=2
void bndl_null(void)
{
	B *b = osc_bundle_u_alloc(); M *m = mk();
	osc_bundle_u_addMsg(NULL, m); osc_bundle_u_addMsg(b, NULL); osc_bundle_u_addMsgWithoutDups(b, NULL);
	osc_bundle_u_removeMsg(NULL, m); osc_bundle_u_removeMsg(b, NULL); osc_bundle_u_clear(NULL); osc_bundle_u_free(NULL);
	ENSURE("empty", b->msgcount == 0 && b->msghead == NULL && b->msgtail == NULL);
	ENSURE("null", osc_bundle_u_getMsgCount(NULL) == 0 && osc_bundle_u_getFirstMsg(NULL) == NULL);
	VC_REACHED();
}

/* ---- against a sequence, bundles of up to N messages ---- */
#define N (VC_MAX(3, 8))
#define CAP 64
/* addresses "/x"; id tells the messages apart (it is the value of their only argument) */
static M *msg(char adr, int id)
{
	M *m = osc_message_u_alloc();
	char a[3] = { '/', adr, 0 };
	if(adr) osc_message_u_setAddress(m, a);
	osc_message_u_appendInt32(m, id);
	return m;
}
static char any_adr(void) { return VC_STEER ? "abc"[vc_range(0, 2)] : (char)vc_range('a', 'z'); }
struct seq { char adr[CAP]; int id[CAP]; int n; };
static B *build(struct seq *s, int n)
{
	B *b = osc_bundle_u_alloc();
	s->n = n;
	for(int i = 0; i < n; i++) { s->adr[i] = any_adr(); s->id[i] = vc_i32(); osc_bundle_u_addMsg(b, msg(s->adr[i], s->id[i])); }
	return b;
}
static int is_msg(M *m, char adr, int id)
{
	const char *a = osc_message_u_getAddress(m);
	if(adr ? (!a || a[0] != '/' || a[1] != adr || a[2]) : a != NULL) return 0;
	return m->argc == 1 && m->arghead && m->arghead == m->argtail && m->arghead->typetag == 'i' && m->arghead->w.i == id && !m->arghead->next && !m->arghead->prev;
}
static int is(B *b, struct seq *s)
{
	int i = 0; M *m, *prev = NULL;
	for(m = b->msghead; m && i < s->n; prev = m, m = m->next, i++) if(!is_msg(m, s->adr[i], s->id[i]) || m->prev != prev) return 0;
	return m == NULL && i == s->n && (b->msgtail == prev || (s->n == 1 && b->msgtail == NULL)) && osc_bundle_u_getMsgCount(b) == s->n;
}
static void drop(struct seq *s, int i) { for(int j = i; j + 1 < s->n; j++) { s->adr[j] = s->adr[j + 1]; s->id[j] = s->id[j + 1]; } s->n--; }
static void drop_all(struct seq *s, char adr) { for(int i = s->n - 1; i >= 0; i--) if(s->adr[i] == adr) drop(s, i); }
static void push(struct seq *s, char adr, int id) { s->adr[s->n] = adr; s->id[s->n++] = id; }
#define LIM prop=C10 kind=bounded

//@ proof bndl_build prop=C10 kind=bounded bound="bundles of up to 3 messages with addresses of one letter" unwind=8 sweep=2 absent=osc_strfmt_*,osc_bundle_u_serialize,osc_bundle_s_* functions=osc_bundle_u_addMsg,osc_bundle_u_removeMsg,osc_bundle_u_clear,osc_bundle_u_free,osc_bundle_iterator_u_next,osc_bundle_iterator_u_hasNext,osc_bundle_iterator_u_getIterator,osc_bundle_iterator_u_resetIterator
void bndl_build(void)
{
	int n = (int)vc_range(0, N), p = (int)vc_range(0, N - 1), id = vc_i32(); char x = any_adr();
	VC_SPLIT(k, 0, N, n,
		struct seq s; B *b = build(&s, k);
		ENSURE("built", is(b, &s));
		t_osc_bndl_it_u *it = osc_bndl_it_u_get(b);
		for(int r = 0; r < 2; r++) {
			for(int i = 0; i < k; i++) { ENSURE("has", osc_bndl_it_u_hasNext(it)); ENSURE("ith", is_msg(osc_bndl_it_u_next(it), s.adr[i], s.id[i])); }
			ENSURE("end", !osc_bndl_it_u_hasNext(it) && osc_bndl_it_u_next(it) == NULL);
			osc_bundle_iterator_u_resetIterator(it);
		}
		osc_bndl_it_u_destroy(it);
		ENSURE("same", is(b, &s));
		if(p < k) {
			M *m = b->msghead;
			for(int i = 0; i < k; i++) if(i < p) m = m->next;
			osc_bundle_u_removeMsg(b, m); osc_message_u_free(m);
			drop(&s, p);
			ENSURE("removed", is(b, &s));
			osc_bundle_u_addMsg(b, msg(x, id)); push(&s, x, id);
			ENSURE("added_after", is(b, &s));
		}
		osc_bundle_u_clear(b); s.n = 0;
		ENSURE("cleared", is(b, &s));
		osc_bundle_u_addMsg(b, msg(x, id)); push(&s, x, id);
		ENSURE("usable", is(b, &s));
		osc_bundle_u_free(b));
	VC_REACHED();
}
//@ proof bndl_dups prop=C10 kind=bounded bound="bundles of up to 3 messages with addresses of one letter" unwind=8 sweep=3 absent=osc_strfmt_*,osc_bundle_u_serialize,osc_bundle_s_* functions=osc_bundle_u_addMsgWithoutDups,osc_bundle_u_removeMessage,osc_bundle_u_addMsg_impl
void bndl_dups(void)
{
	int n = (int)vc_range(0, N), id = vc_i32(), rm = vc_bool(); char x = any_adr(), adr[3] = { '/', x, 0 };
	VC_SPLIT(k, 0, N, n,
		struct seq s; B *b = build(&s, k);
		drop_all(&s, x);
		if(rm) { osc_bundle_u_removeMessage(b, adr); ENSURE("removed", is(b, &s)); }
		else {
			osc_bundle_u_addMsgWithoutDups(b, msg(x, id)); push(&s, x, id);
			ENSURE("one_left", is(b, &s));
		}
		osc_bundle_u_addMsg(b, msg('q', 7)); push(&s, 'q', 7);
		ENSURE("usable", is(b, &s));
		osc_bundle_u_free(b));
	VC_REACHED();
}
//@ proof bndl_replace prop=C10 kind=bounded bound="bundles of up to 3 messages with addresses of one letter" unwind=8 sweep=3 absent=osc_strfmt_*,osc_bundle_u_serialize,osc_bundle_s_*,osc_bundle_u_copy functions=osc_bundle_u_replaceMessage,osc_message_u_deepCopy
void bndl_replace(void)
{
	int n = (int)vc_range(0, N), id = vc_i32(); char x = any_adr();
	VC_SPLIT(k, 0, N, n,
		struct seq s; B *b = build(&s, k);
		osc_bundle_u_replaceMessage(b, msg(x, id));
		int f = -1;
		for(int i = k - 1; i >= 0; i--) if(s.adr[i] == x) f = i;
		if(f < 0) push(&s, x, id); else s.id[f] = id;
		ENSURE("first_replaced", is(b, &s));
		osc_bundle_u_free(b));
	VC_REACHED();
}
//@ proof bndl_copies prop=C10 kind=bounded bound="bundles of up to 2 messages with addresses of one letter" unwind=8 sweep=3 absent=osc_strfmt_*,osc_bundle_u_serialize,osc_bundle_s_*,osc_bundle_u_copy functions=osc_bundle_u_addMsgCopy,osc_bundle_u_addMsgWithoutDupsCopy,osc_message_u_deepCopy
void bndl_copies(void)
{
	int n = (int)vc_range(0, VC_MAX(2, 8)), id = vc_i32(), nodups = vc_bool(); char x = any_adr();
	VC_SPLIT(k, 0, VC_MAX(2, 8), n,
		struct seq s; B *b = build(&s, k);
		M *m = msg(x, id);
		if(nodups) { osc_bundle_u_addMsgWithoutDupsCopy(b, m); drop_all(&s, x); } else osc_bundle_u_addMsgCopy(b, m);
		push(&s, x, id);
		ENSURE("added", is(b, &s));
		ENSURE("source_kept", is_msg(m, x, id) && !m->next && !m->prev);
		osc_message_u_free(m);
		ENSURE("independent", is(b, &s));
		osc_bundle_u_free(b));
	VC_REACHED();
}
//@ proof bndl_addMsgList prop=C10 kind=bounded bound="lists of up to 3 messages" unwind=8 sweep=3 absent=osc_strfmt_*,osc_bundle_u_serialize,osc_bundle_s_* functions=osc_bundle_u_addMsgList,osc_message_u_append,osc_message_u_next
void bndl_addMsgList(void)
{
	int n = (int)vc_range(1, N), p = (int)vc_range(0, N - 1);
	REQUIRE(p < n);
	VC_SPLIT(k, 1, N, n,
		struct seq s; s.n = 0;
		M *first = NULL; M *rm = NULL;
		for(int i = 0; i < k; i++) {
			char x = any_adr(); int id = vc_i32(); M *m = msg(x, id);
			push(&s, x, id);
			if(i == p) rm = m;
			if(!first) first = m; else osc_message_u_append(first, m);
		}
		B *b = osc_bundle_u_alloc();
		osc_bundle_u_addMsgList(b, first);
		ENSURE("listed", is(b, &s));
		osc_bundle_u_removeMsg(b, rm); osc_message_u_free(rm); drop(&s, p);
		ENSURE("removed", is(b, &s));
		osc_bundle_u_free(b));
	VC_REACHED();
}
static int visited;
static void visit(M *m, void *c) { struct seq *s = (struct seq *)c; ENSURE("visited", visited < s->n && is_msg(m, s->adr[visited], s->id[visited])); visited++; }
//@ proof bndl_lookup prop=C10 cbmc=0 kind=bounded bound="run-time contract on sampled bundles of up to 60 messages with addresses of one letter" sweep=4 functions=osc_bundle_u_getMessagesWithCallback,osc_bundle_u_lookupAddress,osc_bundle_u_addressExists,osc_bundle_u_addressIsBound,osc_bundle_u_getFirstFullMatch
void bndl_lookup(void)
{
	int n = (int)vc_range(0, VC_MAX(2, 60)); char x = any_adr(), adr[3] = { '/', x, 0 };
	VC_SPLIT(k, 0, VC_MAX(2, 60), n,
		struct seq s; B *b = build(&s, k);
		int e = -1; int bound = -1; int cnt = 0; int at = -1;
		for(int i = k - 1; i >= 0; i--) if(s.adr[i] == x) { cnt++; at = i; }
		osc_bundle_u_addressExists(b, adr, 1, &e);
		ENSURE("exists", e == (cnt > 0));
		osc_bundle_u_addressExists(b, adr, 0, &e);
		ENSURE("exists_partial", e == (cnt > 0));
		osc_bundle_u_addressIsBound(b, adr, 1, &bound);
		ENSURE("bound", bound == (cnt > 0));
		M *m = osc_bundle_u_getFirstFullMatch(b, adr);
		ENSURE("first", cnt ? m && is_msg(m, x, s.id[at]) : m == NULL);
		t_osc_msg_ar_u *ar = osc_bundle_u_lookupAddress(b, adr, 1);
		ENSURE("number", osc_message_array_u_getLen(ar) == cnt);
		int j = 0;
		for(int i = 0; i < k; i++) if(s.adr[i] == x) ENSURE("found", is_msg(osc_message_array_u_get(ar, j++), x, s.id[i]));
		osc_message_array_u_free(ar);
		visited = 0; ENSURE("callbacks", osc_bundle_u_getMessagesWithCallback(b, visit, &s) == OSC_ERR_NONE && visited == k);
		ENSURE("same", is(b, &s));
		osc_bundle_u_free(b));
	VC_REACHED();
}
//@ proof bndl_setops prop=C10 cbmc=0 kind=bounded bound="run-time contract on sampled bundles" sweep=3 functions=osc_bundle_u_union,osc_bundle_u_intersection,osc_bundle_u_addMsgArrayCopy
void bndl_setops(void)
{
	struct seq s, t, u; u.n = 0;
	int n1 = (int)vc_range(0, 8), n2 = (int)vc_range(0, 8), isect = vc_bool();
	B *b = build(&s, n1), *c = build(&t, n2), *o = NULL;
	if(isect) osc_bundle_u_intersection(b, c, &o); else osc_bundle_u_union(b, c, &o);
	for(int i = 0; i < n1; i++) {
		int in = 0, dup = 0;
		for(int j = 0; j < n2; j++) in |= t.adr[j] == s.adr[i];
		for(int j = 0; j < u.n; j++) dup |= u.adr[j] == s.adr[i];
		if(!dup && (in || !isect)) push(&u, s.adr[i], s.id[i]);
	}
	if(!isect) for(int i = 0; i < n2; i++) {
		int dup = 0;
		for(int j = 0; j < u.n; j++) dup |= u.adr[j] == t.adr[i];
		if(!dup) push(&u, t.adr[i], t.id[i]);
	}
	ENSURE("result", is(o, &u));
	ENSURE("operands_kept", is(b, &s) && is(c, &t));
	char adr[3] = { '/', 'a', 0 };
	t_osc_msg_ar_u *ar = osc_bundle_u_lookupAddress(c, adr, 1);
	osc_bundle_u_addMsgArrayCopy(b, ar);
	for(int i = 0; i < n2; i++) if(t.adr[i] == 'a') push(&s, 'a', t.id[i]);
	ENSURE("array_added", is(b, &s));
	osc_message_array_u_free(ar);
	osc_bundle_u_free(b); osc_bundle_u_free(c); osc_bundle_u_free(o);
}
//@ proof bndl_history prop=C10 cbmc=0 kind=bounded bound="run-time contract on sampled histories" sweep=6 functions=osc_bundle_u_addMsg,osc_bundle_u_removeMsg,osc_bundle_u_addMsgWithoutDups,osc_bundle_u_replaceMessage,osc_bundle_u_removeMessage
void bndl_history(void)
{
	struct seq s; s.n = 0; B *b = osc_bundle_u_alloc();
	for(int i = 0; i < 25; i++) {
		char x = any_adr(), adr[3] = { '/', x, 0 }; int id = vc_i32(), p = s.n ? (int)vc_range(0, s.n - 1) : 0, f = -1;
		if(s.n > 14) { osc_bundle_u_clear(b); s.n = 0; }
		switch((int)vc_range(0, 5)) {
		case 0: case 1: osc_bundle_u_addMsg(b, msg(x, id)); push(&s, x, id); break;
		case 2: osc_bundle_u_addMsgWithoutDups(b, msg(x, id)); drop_all(&s, x); push(&s, x, id); break;
		case 3: osc_bundle_u_removeMessage(b, adr); drop_all(&s, x); break;
		case 4: osc_bundle_u_replaceMessage(b, msg(x, id)); for(int j = s.n - 1; j >= 0; j--) if(s.adr[j] == x) f = j;
			if(f < 0) push(&s, x, id); else s.id[f] = id; break;
		default: if(s.n) { M *m = b->msghead; for(int j = 0; j < p; j++) m = m->next; osc_bundle_u_removeMsg(b, m); osc_message_u_free(m); drop(&s, p); } break;
		}
		ENSURE("sequence", is(b, &s));
	}
	osc_bundle_u_free(b);
}
