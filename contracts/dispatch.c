/* Contracts for osc_dispatch.c and osc_vtable.c (C21). A table is compared with a list of
 * (selector, method, context) kept by the harness; what a selector matches is what osc_match says (C11). */
#include "seq.h"
#include "osc_match.h"
#include "osc_error.h"
#include "osc_vtable.h"
#include "osc_dispatch.h"
#include "osc_vtable.r"
//@ sources osc_dispatch osc_vtable osc_message_s

enum { NONE, COMPLETE, PARTIAL };
static int kind_of(int ret, int po, const char *adr)
{
	if((ret & OSC_MATCH_ADDRESS_COMPLETE) && (ret & OSC_MATCH_PATTERN_COMPLETE)) return COMPLETE;
	if(po > 0 && (adr[po] == '/' || (adr[po] == '*' && adr[po + 1] == 0))) return PARTIAL;
	return NONE;
}
/* ---- the table */
#define TE VC_MAX_CONST(4, 12)
static int tn; static char tsel[TE + 1][8]; static t_osc_vtable_method tm[TE + 1]; static void *tc[TE + 1];
static int which(const char *s) { for(int i = 0; i < tn; i++) if(!strcmp(tsel[i], s)) return i; return -1; }
static void meth0(t_osc_vtable_entry *e, long len, char *b, t_osc_bndl_s *p, t_osc_bndl_s *c, void *ctx);
static void meth1(t_osc_vtable_entry *e, long len, char *b, t_osc_bndl_s *p, t_osc_bndl_s *c, void *ctx);
static t_osc_vtable_method a_method(void) { switch((int)vc_range(0, 2)) { case 0: return meth0; case 1: return meth1; } return NULL; }
static char ctxs[8];
static void table_is(t_osc_vtable *v)
{
	ENSURE("count", osc_vtable_getNumEntries(v) == tn && osc_vtable_getNumSlots(v) >= tn);
	for(int i = 0; i < tn; i++) {
		char q[8]; strcpy(q, tsel[i]);
		t_osc_vtable_entry *e = osc_vtable_getEntryByIndex(v, i);
		ENSURE("entry", e != NULL && osc_vtable_entry_getSelector(e) != NULL && !strcmp(osc_vtable_entry_getSelector(e), tsel[i]));
		ENSURE("method", e->method == tm[i] && e->context == tc[i]);
		ENSURE("found", osc_vtable_getEntryBySelector(v, q) == e && osc_vtable_getIndexForSelector(v, q) == i && osc_vtable_getIndexForEntry(v, e) == i);
	}
	ENSURE("no_more", osc_vtable_getEntryByIndex(v, tn) == NULL && osc_vtable_getEntryByIndex(v, -1) == NULL);
}
static void t_add(t_osc_vtable *v, const char *s)
{
	char q[8]; strcpy(q, s);
	int i = which(s); t_osc_vtable_method m = a_method(); void *c = &ctxs[vc_range(0, 7)];
	if(i < 0) { i = tn++; strcpy(tsel[i], s); }
	tm[i] = m; tc[i] = c;
	ENSURE("ok", osc_vtable_addEntry(v, q, m, c) == OSC_ERR_NONE);
	q[0] = 'X';      /* the caller's string is not kept */
}
static void t_rebind(t_osc_vtable *v, const char *s, int with)
{
	char q[8]; strcpy(q, s);
	int i = which(s); t_osc_vtable_method m = a_method(); void *c = &ctxs[vc_range(0, 7)];
	ENSURE("rebound", (with ? osc_vtable_rebindSelectorWithContext(v, q, m, c) : osc_vtable_rebindSelector(v, q, m)) == (i < 0 ? OSC_ERR_INVAL : OSC_ERR_NONE));
	if(i >= 0) { tm[i] = m; if(with) tc[i] = c; }
}
static void t_rename(t_osc_vtable *v, const char *s, const char *t, int alias)
{
	char q[8], r[8]; strcpy(q, s); strcpy(r, t);
	int i = which(s), j = which(t);
	t_osc_vtable_entry *e = i < 0 ? NULL : osc_vtable_getEntryByIndex(v, i);
	int ok = i >= 0 && (j < 0 || j == i);
	ENSURE("renamed", (osc_vtable_renameEntry(v, alias && e ? osc_vtable_entry_getSelector(e) : q, r) == OSC_ERR_NONE) == ok);
	if(ok) strcpy(tsel[i], t);
	ENSURE("same_entry", e == NULL || osc_vtable_getEntryByIndex(v, i) == e);
	r[0] = 'X';
}
static void gone(t_osc_vtable *v, const char *s) { char q[8]; strcpy(q, s); if(which(s) < 0) ENSURE("not_there", osc_vtable_getEntryBySelector(v, q) == NULL && osc_vtable_getIndexForSelector(v, q) == -1); }

//@ for N,S in 0,0 | 0,2 | 1,1 | 1,0 | 2,0 | 2,3
//@ proof vtable_${N}_${S} prop=C21 kind=bounded bound="tables of up to 3 entries with fixed selectors, one operation" unwind=24 sweep=1 functions=osc_vtable_alloc,osc_vtable_addEntry,osc_vtable_getEntryBySelector,osc_vtable_getEntryByIndex,osc_vtable_rebindSelector,osc_vtable_rebindSelectorWithContext,osc_vtable_renameEntry
void vtable_${N}_${S}(void)
{
	static const char *const name[5] = { "/a", "/b", "/c", "/a/b", "/d" };
	for(int op = 0; op < 4; op++) for(int k = 0; k < 4; k++) for(int l = 0; l < (op == 3 ? 4 : 1); l++) {
		tn = 0;
		t_osc_vtable *v = osc_vtable_alloc(${S});
		for(int i = 0; i < ${N}; i++) t_add(v, name[i]);
		table_is(v);
		switch(op) {
		case 0: t_add(v, name[k]); break;
		case 1: t_rebind(v, name[k], 0); break;
		case 2: t_rebind(v, name[k], 1); break;
		case 3: t_rename(v, name[k], name[l], 0); break;
		}
		table_is(v);
		for(int i = 0; i < 5; i++) gone(v, name[i]);
#if VC_IS_NATIVE
		osc_vtable_free(v);
#endif
	}
	VC_REACHED();
}
//@ endfor
//@ proof vtable_history prop=C21 cbmc=0 kind=bounded bound="run-time contract on sampled histories of 40 operations over 12 selectors" sweep=6 functions=osc_vtable_alloc,osc_vtable_addEntry,osc_vtable_getEntryBySelector,osc_vtable_getEntryByIndex,osc_vtable_rebindSelector,osc_vtable_rebindSelectorWithContext,osc_vtable_renameEntry,osc_vtable_free
void vtable_history(void)
{
	static char name[TE][8];
	for(int i = 0; i < TE; i++) { name[i][0] = '/'; name[i][1] = (char)('a' + i); vc_string(name[i] + 2, 5, "ab/\xe9"); }
	tn = 0;
	t_osc_vtable *v = osc_vtable_alloc((int)vc_range(0, 4));
	for(int s = 0; s < 40; s++) {
		const char *x = name[vc_range(0, TE - 1)], *y = name[vc_range(0, TE - 1)];
		switch((int)vc_range(0, 5)) {
		case 0: case 1: t_add(v, x); break;
		case 2: t_rebind(v, x, 0); break;
		case 3: t_rebind(v, x, 1); break;
		default: t_rename(v, x, y, vc_bool()); break;
		}
		table_is(v);
		for(int i = 0; i < TE; i++) gone(v, name[i]);
	}
	osc_vtable_free(v);
}

/* ---- dispatch: what each method is given */
#define DM VC_MAX_CONST(2, 8)
#define DE VC_MAX_CONST(2, 5)
static int calls[DE], delegated, strange, d_sel; static t_osc_vtable_entry *entry[DE]; static long d_len; static char *d_bndl; static int ctx_of[DE];
static int del_ctx;
static struct seq want_c[DE], want_p[DE], want_u;
static void given(int i, t_osc_vtable_entry *e, long len, char *b, t_osc_bndl_s *p, t_osc_bndl_s *c);
static void got_unmatched(t_osc_bndl_s *u);
static void meth(int m, t_osc_vtable_entry *e, long len, char *b, t_osc_bndl_s *p, t_osc_bndl_s *c, void *ctx)
{
	int i = (int)((int *)ctx - ctx_of);
	if(i < 0 || i >= DE || (i & 1) != m || e != entry[i] || len != d_len || b != d_bndl) { strange++; return; }
	calls[i]++;
	given(i, e, len, b, p, c);
}
static void meth0(t_osc_vtable_entry *e, long len, char *b, t_osc_bndl_s *p, t_osc_bndl_s *c, void *ctx) { meth(0, e, len, b, p, c, ctx); }
static void meth1(t_osc_vtable_entry *e, long len, char *b, t_osc_bndl_s *p, t_osc_bndl_s *c, void *ctx) { meth(1, e, len, b, p, c, ctx); }
static void delegate(long len, char *b, t_osc_bndl_s *u, void *ctx)
{
	if(len != d_len || b != d_bndl || ctx != (void *)&del_ctx) strange++;
	delegated++; got_unmatched(u);
}
#if defined(VC_PROOF_dispatch_all) || defined(VC_PROOF_dispatch_selected) || defined(VC_PROOF_dispatch_strip)
/* the verifier: osc_match is any function of its arguments; a bundle of messages is the multiset of what was appended */
static const char *const adr_of[2] = { "/b/", "/d*" };
static char sel0[] = "/x", sel1[] = "/y";
#define AT(i) (16 + 16 * (i))
static int RET[2][2], PO[2][2];
struct bag { int n[2]; } ; static struct bag bags[8]; static int nbags, freed[8];
static char *base;
static int msg_of(const char *a) { for(int i = 0; i < 2; i++) if(a == base + AT(i) + 4) return i; return -1; }
int osc_match(const char *p, const char *a, int *po, int *ao)
{
	int m = msg_of(p), s = a[1] == 'x' ? 0 : 1;
	ENSURE("matches_address_with_selector", m >= 0 && (a == osc_vtable_entry_getSelector(entry[s])));
	*po = PO[m][s]; *ao = (int)vc_range(0, 2);
	return RET[m][s];
}
static int cut_m = -1, cut_n; static char *cut_at;
int32_t osc_message_s_renameCopyPattern(char *dest, t_osc_msg_s *src, int32_t n, char *adr)
{
	cut_m = msg_of(osc_message_s_getAddress(src)); cut_n = n; cut_at = adr;
	put32(dest, 8); for(int i = 4; i < 12; i++) dest[i] = i == 4 ? '/' : i == 8 ? ',' : 0;
	return 8;
}
int32_t osc_message_s_renameCopy(char *dest, t_osc_msg_s *src, int32_t n, char *adr) { return osc_message_s_renameCopyPattern(dest, src, n, adr); }
static int cut_ok = 1;
t_osc_err osc_bundle_s_appendMessage_b(t_osc_bndl_s **b, t_osc_msg_s *msg)
{
	int m = msg_of(osc_message_s_getAddress(msg));
	if(m < 0) { m = cut_m; ENSURE("stripped_copy", m >= 0); if(cut_at - (base + AT(m) + 4) + cut_n != 3) cut_ok = 0; cut_m = -1; }
	if(!*b) { bags[nbags].n[0] = bags[nbags].n[1] = 0; *b = (t_osc_bndl_s *)&bags[nbags++]; }
	((struct bag *)*b)->n[m]++;
	return OSC_ERR_NONE;
}
void osc_bundle_s_deepFree(t_osc_bndl_s *b) { }
static void holds(struct bag *b, struct seq *s, int m) { ENSURE("exactly_its_messages", (b ? b->n[m] : 0) == s->n); }
static int K[2][2];
static void given(int i, t_osc_vtable_entry *e, long len, char *b, t_osc_bndl_s *p, t_osc_bndl_s *c)
{
	for(int m = 0; m < 2; m++) {
		ENSURE("complete_matches", (c ? ((struct bag *)c)->n[m] : 0) == (K[m][i] == COMPLETE));
		ENSURE("partial_matches", (p ? ((struct bag *)p)->n[m] : 0) == (K[m][i] == PARTIAL));
	}
}
static void got_unmatched(t_osc_bndl_s *u)
{
	for(int m = 0; m < 2; m++) ENSURE("unmatched", u && ((struct bag *)u)->n[m] == (K[m][0] == NONE && K[m][1] == NONE));
}
static void dispatch_run(int strip, int some)
{
	static char buf[48]; base = d_bndl = buf; d_len = 48;
	for(int k = 0; k < 16; k++) base[k] = k < 7 ? "#bundle"[k] : 0;
	for(int i = 0; i < 2; i++) {
		char *p = base + AT(i);
		put32(p, 12); for(int k = 0; k < 4; k++) p[4 + k] = k < 3 ? adr_of[i][k] : 0;
		p[8] = ','; p[9] = 'i'; p[10] = p[11] = 0; put32(p + 12, vc_u32());
	}
	t_osc_vtable *v = osc_vtable_alloc(2);
	osc_vtable_addEntry(v, sel0, meth0, ctx_of); osc_vtable_addEntry(v, sel1, meth1, ctx_of + 1);
	entry[0] = osc_vtable_getEntryByIndex(v, 0); entry[1] = osc_vtable_getEntryByIndex(v, 1);
	int del = vc_bool();
	if(del) osc_vtable_setDelegationMethod(v, delegate, &del_ctx);
	calls[0] = calls[1] = delegated = strange = nbags = 0; cut_ok = 1; cut_m = -1;
	int any = 0;
	for(int i = 0; i < 2; i++) for(int s = 0; s < 2; s++) {
		RET[i][s] = vc_i32(); PO[i][s] = vc_i32(); REQUIRE(0 <= PO[i][s] && PO[i][s] <= 3);
		K[i][s] = kind_of(RET[i][s], PO[i][s], adr_of[i]);
	}
	int lost = (K[0][0] == NONE && K[0][1] == NONE) || (K[1][0] == NONE && K[1][1] == NONE);
	char *sels[2] = { sel1, "/z" };
	ENSURE("ok", (some ? osc_dispatch_selectors(v, 2, sels, 48, base, strip) : osc_dispatch(v, 48, base, strip)) == OSC_ERR_NONE);
	ENSURE("called", strange == 0 && (calls[0] == 1 || (calls[0] == 0 && (some || (K[0][0] == NONE && K[1][0] == NONE))))
		&& (calls[1] == 1 || (calls[1] == 0 && K[0][1] == NONE && K[1][1] == NONE)));
	ENSURE("only_selected", !some || calls[0] == 0);
	ENSURE("delegated", delegated == (del && lost));
	ENSURE("rest_of_address", cut_ok);
	VC_REACHED();
}
#elif VC_IS_NATIVE
static int holds(t_osc_bndl_s *b, struct seq *s) { return s->n == 0 ? b == NULL : b != NULL && is(s, osc_bundle_s_getLen(b), osc_bundle_s_getPtr(b)); }
static void given(int i, t_osc_vtable_entry *e, long len, char *b, t_osc_bndl_s *p, t_osc_bndl_s *c)
{
	ENSURE("complete_matches", holds(c, &want_c[i]));
	ENSURE("partial_matches", holds(p, &want_p[i]));
}
static void got_unmatched(t_osc_bndl_s *u) { ENSURE("unmatched", u && (want_u.n == 0 ? osc_bundle_s_getLen(u) == 16 : holds(u, &want_u))); }
#else
static void given(int i, t_osc_vtable_entry *e, long len, char *b, t_osc_bndl_s *p, t_osc_bndl_s *c) { }
static void got_unmatched(t_osc_bndl_s *u) { }
#endif
#if !defined(VC_PROOF_dispatch_all) && !defined(VC_PROOF_dispatch_selected) && !defined(VC_PROOF_dispatch_strip)
static void dispatch_run(int strip, int some) { }
#endif
//@ for P,A,B in dispatch_all,0,0 | dispatch_selected,0,1 | dispatch_strip,1,0
//@ proof ${P} prop=C21 kind=bounded bound="2 messages and 2 entries, every outcome of osc_match" unwind=24 sweep=0 stub=osc_match,osc_message_s_renameCopy,osc_message_s_renameCopyPattern,osc_bundle_s_appendMessage_b,osc_bundle_s_deepFree functions=osc_dispatch,osc_dispatch_selectors,osc_dispatch_impl,osc_dispatch_msg,osc_vtable_delegate,osc_vtable_callWithEntry assume="osc_match is a function of its arguments whose offset lies in the pattern (C11); appending and renaming by their contracts (C20, C18)"
void ${P}(void) { dispatch_run(${A}, ${B}); }
//@ endfor

//@ proof dispatch_sweep prop=C21 cbmc=0 kind=bounded bound="run-time contract on sampled bundles of up to 8 messages and tables of up to 5 entries" sweep=12 functions=osc_dispatch,osc_dispatch_selectors,osc_dispatch_impl,osc_dispatch_msg,osc_vtable_delegate,osc_vtable_callWithEntry
static struct mmsg pool[8], cut[5][8];
void dispatch_sweep(void)
{
#if VC_IS_NATIVE
	struct seq all; char sel[DE][12]; char *sels[DE + 2];
	int n = (int)vc_range(0, 8), ne = (int)vc_range(0, DE), strip = vc_bool(), some = vc_bool(), del = vc_range(0, 3) > 0, picked[DE];
	t_osc_vtable *v = osc_vtable_alloc((int)vc_range(0, 3));
	for(int s = 0; s < ne; s++) {
		sel[s][0] = '/'; vc_string(sel[s] + 1, 8, "ab/ab");
		for(int j = 0; j < s; j++) REQUIRE(strcmp(sel[s], sel[j]));
		calls[s] = 0; want_c[s].n = want_p[s].n = 0; picked[s] = 0;
		osc_vtable_addEntry(v, sel[s], s & 1 ? meth1 : meth0, ctx_of + s);
	}
	for(int s = 0; s < ne; s++) entry[s] = osc_vtable_getEntryByIndex(v, s);
	if(del) osc_vtable_setDelegationMethod(v, delegate, &del_ctx);
	delegated = strange = 0; all.n = n; want_u.n = 0;
	for(int i = 0; i < n; i++) {
		mmsg_any(pool + i);
		int a = (int)vc_range(2, 10), pat = vc_bool();
		pool[i].al = a; pool[i].adr[0] = '/';
		for(int k = 1; k < a; k++) pool[i].adr[k] = pat ? vc_pick("ab/*a?b/*", 9) : vc_pick("ab/ab", 5);
		pool[i].adr[a] = 0;
		all.m[i] = pool + i;
		int any = 0;
		for(int s = 0; s < ne; s++) {
			int po, ao, r = osc_match(pool[i].adr, sel[s], &po, &ao), k = kind_of(r, po, pool[i].adr);
			if(k == NONE) continue;
			any = 1;
			if(k == COMPLETE) want_c[s].m[want_c[s].n++] = pool + i;
			else if(!strip) want_p[s].m[want_p[s].n++] = pool + i;
			else {
				struct mmsg *x = &cut[s][i]; *x = pool[i];
				x->al -= po; memmove(x->adr, x->adr + po, x->al + 1);
				want_p[s].m[want_p[s].n++] = x;
			}
		}
		if(!any) want_u.m[want_u.n++] = pool + i;
	}
	d_bndl = seq_bytes(&all); d_len = seq_size(&all);
	int np = 0;
	for(int s = 0; s < ne; s++) if(vc_bool()) { picked[s] = 1; sels[np++] = sel[s]; }
	if(vc_bool()) sels[np++] = "/nobody/is/here";
	ENSURE("ok", (some ? osc_dispatch_selectors(v, np, sels, (int)d_len, d_bndl, strip) : osc_dispatch(v, (int)d_len, d_bndl, strip)) == OSC_ERR_NONE);
	ENSURE("called_right", strange == 0);
	for(int s = 0; s < ne; s++) {
		int due = (!some || picked[s]) && want_c[s].n + want_p[s].n > 0;
		ENSURE("called", calls[s] <= (!some || picked[s]) && (!due || calls[s] == 1));
	}
	ENSURE("delegated", delegated == (del && (n == 0 || want_u.n > 0)));
	osc_vtable_free(v);
#endif
}
