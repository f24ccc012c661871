/* Contracts for osc_linkedlist.c (C13).
 * append/prepend/unlink/pop at the ends are loop-free and proved for a list of ANY length: their
 * contracts only speak of the list record and the neighbouring elements. What walks the list
 * (peekNth, popNth, iterate, clone, clear) is compared with a sequence for every list of up to N elements;
 * a list is determined by its sequence (checked: links, ends and count), so one step from every
 * such list covers every history of operations that stays within N. */
#include <string.h>
#include "osc_mem.h"
#include "osc_linkedlist.h"
#include "osc_linkedlist.r"
//@ sources osc_linkedlist osc_mem

typedef t_osc_linkedlist LL;
typedef t_osc_linkedlist_elem EL;
t_osc_linkedlist_elem *osc_linkedlist_elem_alloc(void *data);
void osc_linkedlist_unlink(t_osc_linkedlist *ll, t_osc_linkedlist_elem *e);
t_osc_linkedlist_elem *osc_linkedlist_getHeadElem(t_osc_linkedlist *ll), *osc_linkedlist_getTailElem(t_osc_linkedlist *ll);
void osc_linkedlist_init(t_osc_linkedlist *ll, t_osc_linkedlist_dtor dtor);

static EL *el(void *data, EL *prev, EL *next)
{
	EL *e = vc_malloc(sizeof *e);
	e->data = data; e->prev = prev; e->next = next;
	return e;
}
/* an arbitrary element: only what the list record points at is looked at, the rest of the links are arbitrary */
static char cell[64];
static void *any_data(void) { return &cell[vc_range(1, 60)]; }

/* ---- any list: unbounded ---- */
static LL *any_list(EL **h, EL **t)
{
	LL *ll = vc_malloc(sizeof *ll);
	int n = (int)vc_range(0, 2);     /* 0: empty, 1: one element, 2: two or more; head and tail distinct */
	static EL mid_a, mid_b;
	ll->e = NULL; ll->dtor = NULL; ll->head = ll->tail = NULL;
	ll->count = n == 2 ? (unsigned long)vc_range(2, 0x7fffffffffffL) : (unsigned long)n;
	if(n == 1) ll->head = ll->tail = el(any_data(), NULL, NULL);
	if(n == 2) {
		int adjacent = ll->count == 2;
		ll->head = el(any_data(), NULL, &mid_a);
		ll->tail = el(any_data(), &mid_b, NULL);
		if(adjacent) { ll->head->next = ll->tail; ll->tail->prev = ll->head; }
		mid_a.prev = ll->head; mid_b.next = ll->tail;
	}
	*h = ll->head; *t = ll->tail;
	return ll;
}
//@ proof list_append_any prop=C13 sweep=2 functions=osc_linkedlist_append
void list_append_any(void)
{
	EL *h, *t; LL *ll = any_list(&h, &t);
	unsigned long c = ll->count; void *d = vc_bool() ? any_data() : NULL;
	EL oh, ot; if(h) { oh = *h; ot = *t; }
	osc_linkedlist_append(ll, d);
	if(!d) ENSURE("null_ignored", ll->count == c && ll->head == h && ll->tail == t);
	else {
		ENSURE("count", ll->count == c + 1);
		ENSURE("last", ll->tail != t && ll->tail->data == d && ll->tail->next == NULL && ll->tail->prev == t);
		ENSURE("head", ll->head == (h ? h : ll->tail));
		ENSURE("linked", t == NULL || (t->next == ll->tail && t->data == ot.data && t->prev == ot.prev));
		ENSURE("head_kept", h == NULL || h == t || (h->data == oh.data && h->next == oh.next && h->prev == NULL));
	}
	VC_COVER("long", c > 5 && d);
	VC_COVER("empty", c == 0 && d);
	VC_REACHED();
}
//@ proof list_prepend_any prop=C13 sweep=2 functions=osc_linkedlist_prepend
void list_prepend_any(void)
{
	EL *h, *t; LL *ll = any_list(&h, &t);
	unsigned long c = ll->count; void *d = vc_bool() ? any_data() : NULL;
	EL oh, ot; if(h) { oh = *h; ot = *t; }
	osc_linkedlist_prepend(ll, d);
	if(!d) ENSURE("null_ignored", ll->count == c && ll->head == h && ll->tail == t);
	else {
		ENSURE("count", ll->count == c + 1);
		ENSURE("first", ll->head != h && ll->head->data == d && ll->head->prev == NULL && ll->head->next == h);
		ENSURE("tail", ll->tail == (t ? t : ll->head));
		ENSURE("linked", h == NULL || (h->prev == ll->head && h->data == oh.data && h->next == oh.next));
		ENSURE("tail_kept", t == NULL || h == t || (t->data == ot.data && t->prev == ot.prev && t->next == NULL));
	}
	VC_COVER("long", c > 5 && d);
	VC_COVER("empty", c == 0 && d);
	VC_REACHED();
}
//@ proof list_pophead_any prop=C13 sweep=2 functions=osc_linkedlist_popHead,osc_linkedlist_unlink,osc_linkedlist_peekHead,osc_linkedlist_getHeadElem
void list_pophead_any(void)
{
	EL *h, *t; LL *ll = any_list(&h, &t);
	unsigned long c = ll->count;
	EL oh; EL *second = NULL; void *sd = NULL; EL *snext = NULL;
	if(h) { oh = *h; second = h->next; if(second) { second->data = any_data(); sd = second->data; snext = second->next; } }
	ENSURE("peek", osc_linkedlist_peekHead(ll) == (c ? oh.data : NULL) && ll->count == c && osc_linkedlist_getHeadElem(ll) == h);
	void *d = osc_linkedlist_popHead(ll);
	ENSURE("data", d == (c ? oh.data : NULL));
	ENSURE("count", ll->count == (c ? c - 1 : 0));
	ENSURE("head", ll->head == second && (second == NULL || (second->prev == NULL && second->data == sd && second->next == snext)));
	ENSURE("tail", ll->tail == (c <= 1 ? NULL : t));
	VC_COVER("long", c > 5);
	VC_REACHED();
}
//@ proof list_poptail_any prop=C13 sweep=2 functions=osc_linkedlist_popTail,osc_linkedlist_unlink,osc_linkedlist_peekTail,osc_linkedlist_getTailElem
void list_poptail_any(void)
{
	EL *h, *t; LL *ll = any_list(&h, &t);
	unsigned long c = ll->count;
	EL ot; EL *second = NULL; void *sd = NULL; EL *sprev = NULL;
	if(t) { ot = *t; second = t->prev; if(second) { second->data = any_data(); sd = second->data; sprev = second->prev; } }
	ENSURE("peek", osc_linkedlist_peekTail(ll) == (c ? ot.data : NULL) && ll->count == c && osc_linkedlist_getTailElem(ll) == t);
	void *d = osc_linkedlist_popTail(ll);
	ENSURE("data", d == (c ? ot.data : NULL));
	ENSURE("count", ll->count == (c ? c - 1 : 0));
	ENSURE("tail", ll->tail == second && (second == NULL || (second->next == NULL && second->data == sd && second->prev == sprev)));
	ENSURE("head", ll->head == (c <= 1 ? NULL : h));
	VC_COVER("long", c > 5);
	VC_REACHED();
}
//@ proof list_unlink_middle prop=C13 sweep=2 functions=osc_linkedlist_unlink
void list_unlink_middle(void)
{
	/* an element in the middle of any list */
	LL *ll = vc_malloc(sizeof *ll);
	unsigned long c = (unsigned long)vc_range(3, 0x7fffffffffffL);
	static EL mid_a, mid_b;
	EL *p = el(any_data(), &mid_a, NULL), *n = el(any_data(), NULL, &mid_b), *e = el(any_data(), p, n);
	p->next = e; n->prev = e;
	int pf = c == 3 || vc_bool(), nl = c == 3 || vc_bool();
	if(c == 4) nl = !pf;
	if(pf) p->prev = NULL;
	if(nl) n->next = NULL;
	EL oh = mid_a, otl = mid_b;
	ll->e = NULL; ll->dtor = NULL; ll->count = c;
	ll->head = pf ? p : &mid_a; ll->tail = nl ? n : &mid_b;
	EL *h = ll->head, *t = ll->tail, op = *p, on = *n; void *ed = e->data;
	osc_linkedlist_unlink(ll, e);
	ENSURE("count", ll->count == c - 1);
	ENSURE("ends", ll->head == h && ll->tail == t);
	ENSURE("linked", p->next == n && n->prev == p);
	ENSURE("others", p->prev == op.prev && n->next == on.next && p->data == op.data && n->data == on.data);
	ENSURE("element", e->data == ed && e->next == NULL && e->prev == NULL);
	ENSURE("rest", memcmp(&mid_a, &oh, sizeof oh) == 0 && memcmp(&mid_b, &otl, sizeof otl) == 0);
	VC_REACHED();
}
//@ proof list_null prop=C13 sweep=1
void list_null(void)
{
	osc_linkedlist_append(NULL, cell); osc_linkedlist_prepend(NULL, cell); osc_linkedlist_clear(NULL); osc_linkedlist_destroy(NULL);
	ENSURE("null", !osc_linkedlist_peekHead(NULL) && !osc_linkedlist_peekTail(NULL) && !osc_linkedlist_popHead(NULL)
	       && !osc_linkedlist_popTail(NULL) && !osc_linkedlist_peekNth(NULL, vc_i32()) && !osc_linkedlist_popNth(NULL, vc_i32())
	       && osc_linkedlist_getCount(NULL) == 0);
	VC_REACHED();
}

/* ---- against a sequence, lists of up to N elements ---- */
#define N (VC_MAX(5, 12))
#define CAP 16
static LL *mklist(t_osc_linkedlist_dtor dtor, char *m, int n)
{
	LL *ll = osc_linkedlist_new(dtor);
	for(int i = 0; i < n; i++) { m[i] = (char)vc_range(1, 60); osc_linkedlist_append(ll, &cell[(int)m[i]]); }
	return ll;
}
/* the whole representation is that of the sequence m[0..n) */
static int is(LL *ll, char *m, int n)
{
	int i = 0; EL *e, *prev = NULL;
	for(e = ll->head; e && i < n; prev = e, e = e->next, i++)
		if(e->data != &cell[(int)m[i]] || e->prev != prev) return 0;
	return e == NULL && i == n && ll->tail == prev && ll->count == (unsigned long)n && osc_linkedlist_getCount(ll) == (unsigned long)n;
}
static int in(int i, int n) { return i >= 0 && i < n; }
//@ proof list_peekNth prop=C13 kind=bounded bound="lists of up to 5 elements, every 32-bit position" unwind=8 sweep=3 functions=osc_linkedlist_peekNth,osc_linkedlist_new,osc_linkedlist_append
void list_peekNth(void)
{
	char m[CAP]; int n = (int)vc_range(0, N), p = VC_STEER ? (int)vc_range(-3, n + 3) : vc_i32();
	VC_SPLIT(k, 0, N, n,
		LL *ll = mklist(NULL, m, k);
		ENSURE("built", is(ll, m, k));
		void *want = in(p, k) ? &cell[(int)m[p]] : p == -1 && k ? &cell[(int)m[k - 1]] : NULL;
		ENSURE("nth", osc_linkedlist_peekNth(ll, p) == want);
		ENSURE("same", is(ll, m, k));
		osc_linkedlist_destroy(ll));
	VC_COVER("middle", n == 5 && p == 3);
	VC_REACHED();
}
//@ proof list_popNth prop=C13 kind=bounded bound="lists of up to 5 elements, every 32-bit position" unwind=8 sweep=3 functions=osc_linkedlist_popNth,osc_linkedlist_unlink
void list_popNth(void)
{
	char m[CAP]; int n = (int)vc_range(0, N), p = VC_STEER ? (int)vc_range(-3, n + 3) : vc_i32();
	VC_SPLIT(k, 0, N, n,
		LL *ll = mklist(NULL, m, k);
		int q = p == -1 ? k - 1 : p;
		void *want = in(q, k) ? &cell[(int)m[q]] : NULL;
		ENSURE("data", osc_linkedlist_popNth(ll, p) == want);
		int r = k;
		if(in(q, k)) { for(int i = 0; i < k - 1; i++) if(i >= q) m[i] = m[i + 1]; r = k - 1; }
		ENSURE("rest", is(ll, m, r));
		osc_linkedlist_destroy(ll));
	VC_COVER("middle", n == 5 && p == 3);
	VC_REACHED();
}
static struct seen { char d[CAP]; int n, last, ended; } seen;
static void visit(void *ctx, int i, void *data)
{
	struct seen *s = ctx;
	if(i < 0) { s->ended++; s->last = data == NULL; return; }
	if(s->n == i && !s->ended && i < CAP) s->d[i] = (char)((char *)data - cell);
	s->n++;
}
//@ proof list_iterate prop=C13 kind=bounded bound="lists of up to 5 elements" unwind=8 sweep=2 functions=osc_linkedlist_iterate
void list_iterate(void)
{
	char m[CAP]; int n = (int)vc_range(0, N);
	VC_SPLIT(k, 0, N, n,
		LL *ll = mklist(NULL, m, k);
		memset(&seen, 0, sizeof seen);
		osc_linkedlist_iterate(ll, visit, &seen);
		ENSURE("each_once", seen.n == k && seen.ended == 1 && seen.last);
		for(int i = 0; i < k; i++) ENSURE("order", seen.d[i] == m[i]);
		ENSURE("same", is(ll, m, k));
		osc_linkedlist_destroy(ll));
	memset(&seen, 0, sizeof seen);
	osc_linkedlist_iterate(NULL, visit, &seen);
	ENSURE("null", seen.n == 0 && seen.ended == 1);
	VC_REACHED();
}
static int killed[64];
static void dtor(void *d) { killed[(char *)d - cell]++; }
static void copyd(void **c, void *d) { *c = (char *)d + 1; }
//@ proof list_clear_clone prop=C13 kind=bounded bound="lists of up to 4 elements" unwind=8 sweep=2 functions=osc_linkedlist_clear,osc_linkedlist_clone,osc_linkedlist_destroy,osc_linkedlist_cloneCallback
void list_clear_clone(void)
{
	char m[CAP], m2[CAP]; int n = (int)vc_range(0, VC_MAX(4, 12)), useddtor = vc_bool();
	memset(killed, 0, sizeof killed);
	VC_SPLIT(k, 0, VC_MAX(4, 12), n,
		LL *ll = mklist(useddtor ? dtor : NULL, m, k);
		LL *c = osc_linkedlist_clone(ll, copyd);
		for(int i = 0; i < k; i++) m2[i] = m[i] + 1;
		ENSURE("clone", c != ll && is(c, m2, k));
		ENSURE("source_kept", is(ll, m, k));
		osc_linkedlist_clear(ll);
		ENSURE("cleared", ll->head == NULL && ll->tail == NULL && osc_linkedlist_getCount(ll) == 0);
		ENSURE("clone_kept", is(c, m2, k));
		int j = (int)vc_range(0, 62);
		int cnt = 0;
		for(int i = 0; i < k; i++) cnt += m[i] == j;
		ENSURE("each_released_once", killed[j] == (useddtor ? cnt : 0));
		osc_linkedlist_append(ll, cell + 5);
		char one[1] = { 5 };
		ENSURE("usable_after_clear", is(ll, one, 1));
		osc_linkedlist_destroy(ll); osc_linkedlist_destroy(c));
	VC_REACHED();
}
//@ proof list_history prop=C13 cbmc=0 sweep=6 functions=osc_linkedlist_append,osc_linkedlist_prepend,osc_linkedlist_popNth,osc_linkedlist_popHead,osc_linkedlist_popTail,osc_linkedlist_peekNth
void list_history(void)
{
	char m[64]; int n = 0;
	LL *ll = osc_linkedlist_new(NULL);
	for(int s = 0; s < 40; s++) {
		int op = (int)vc_range(0, 5), p = (int)vc_range(-2, n + 2), q = p == -1 ? n - 1 : p; char v = (char)vc_range(1, 60);
		void *r;
		switch(op) {
		case 0: case 1: osc_linkedlist_append(ll, &cell[(int)v]); m[n++] = v; break;
		case 2: osc_linkedlist_prepend(ll, &cell[(int)v]); memmove(m + 1, m, n); m[0] = v; n++; break;
		case 3: r = osc_linkedlist_popHead(ll); ENSURE("pophead", r == (n ? &cell[(int)m[0]] : NULL)); if(n) { n--; memmove(m, m + 1, n); } break;
		case 4: r = osc_linkedlist_popTail(ll); ENSURE("poptail", r == (n ? &cell[(int)m[n - 1]] : NULL)); if(n) n--; break;
		default: r = osc_linkedlist_popNth(ll, p); ENSURE("popnth", r == (in(q, n) ? &cell[(int)m[q]] : NULL));
			if(in(q, n)) { n--; memmove(m + q, m + q + 1, n - q); } break;
		}
		ENSURE("sequence", is(ll, m, n));
	}
	osc_linkedlist_destroy(ll);
}
