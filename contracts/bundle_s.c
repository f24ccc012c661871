/* Contracts for the serialized bundle edits of osc_bundle_s.c and its iterator (C20). */
#include "model.h"
#include "osc_array.h"
#include "osc_error.h"
//@ sources osc_bundle_s osc_bundle_iterator_s osc_message_s

#include "seq.h"
/* the library owns (and may resize) what append and replace get: plain heap memory */
static char *heap_bytes(const struct seq *s)
{
	char *v = seq_bytes(s); int z = seq_size(s); char *p = osc_mem_alloc(z);
	for(int i = 0; i < z; i++) p[i] = v[i];
	return p;
}
static void edit_append(struct seq *s, const struct mmsg *x, int fresh, int wrapped)
{
	t_osc_msg_s *m = wrap(x);
	if(fresh) s->n = 0;
	if(wrapped) {
		t_osc_bndl_s *b = fresh ? NULL : osc_bundle_s_alloc(seq_size(s), heap_bytes(s));
		s->m[s->n++] = x;
		ENSURE("ok", osc_bundle_s_appendMessage_b(&b, m) == OSC_ERR_NONE);
		ENSURE("appended", is(s, osc_bundle_s_getLen(b), osc_bundle_s_getPtr(b)));
		osc_bundle_s_deepFree(b);
	} else {
		long len = fresh ? 0 : seq_size(s); char *b = fresh ? NULL : heap_bytes(s);
		s->m[s->n++] = x;
		ENSURE("ok", osc_bundle_s_appendMessage(&len, &b, m) == OSC_ERR_NONE);
		ENSURE("appended", is(s, len, b));
		ENSURE("null_message", osc_bundle_s_appendMessage(&len, &b, NULL) == OSC_ERR_NONE && is(s, len, b));
		osc_mem_free(b);
	}
	osc_message_s_free(m);
}
static void edit_remove(struct seq *s, const struct mmsg *x)
{
	char *b = seq_bytes(s), adr[M_ADR + 1]; long len = seq_size(s);
	for(int i = 0; i <= x->al; i++) adr[i] = x->adr[i];
	struct seq r; r.n = 0;
	for(int i = 0; i < s->n; i++) if(!same_adr(s->m[i], x)) r.m[r.n++] = s->m[i];
	ENSURE("ok", osc_bundle_s_removeMessage(adr, &len, b, 1) == OSC_ERR_NONE);
	ENSURE("removed", is(&r, len, b));
}
static void edit_replace(struct seq *s, int p, const struct mmsg *x, int room)
{
	char *v = seq_bytes(s); int z = seq_size(s), at = 16;
	long len = z + room, pos = z;
	char *b = osc_mem_alloc(len);
	for(int i = 0; i < z; i++) b[i] = v[i];
	for(int i = 0; i < p; i++) at += 4 + mmsg_size(s->m[i]);
	t_osc_msg_s *o = osc_message_s_alloc(), *m = wrap(x); osc_message_s_wrap(o, b + at);
	s->m[p] = x;
	ENSURE("ok", osc_bundle_s_replaceMessage(&len, &pos, &b, o, m) == OSC_ERR_NONE);
	ENSURE("replaced", is(s, pos, b));
	ENSURE("room", len >= pos);
	osc_mem_free(b); osc_message_s_free(o); osc_message_s_free(m);
}
static void edit_concat(struct seq *s, struct seq *t)
{
	char *b1 = seq_bytes(s), *b2 = seq_bytes(t);
	struct seq c = *s; for(int i = 0; i < t->n; i++) c.m[c.n++] = t->m[i];
	char *b = vc_malloc(seq_size(&c));
	ENSURE("length", osc_bundle_s_concat(seq_size(s), b1, seq_size(t), b2, b) == seq_size(&c));
	ENSURE("concatenated", is(&c, seq_size(&c), b));
}
static void look(struct seq *s)
{
	char *b = seq_bytes(s); long len = seq_size(s); int n = -1, i = 0;
	if(VC_IS_NATIVE) ENSURE("sane", osc_error_bundleSanityCheck(len, b) == OSC_ERR_NONE);
	ENSURE("count", osc_bundle_s_getMsgCount(len, b, &n) == OSC_ERR_NONE && n == s->n);
	t_osc_bndl_it_s *it = osc_bndl_it_s_get(len, b); char *p = b + 16;
	while(osc_bndl_it_s_hasNext(it)) {
		ENSURE("visited_once", i < s->n);
		t_osc_msg_s *m = osc_bndl_it_s_next(it);
		ENSURE("in_order", m && osc_message_s_getPtr(m) == p && osc_message_s_getAddress(m) == p + 4 && osc_message_s_getSize(m) == mmsg_size(s->m[i]));
		ENSURE("fields", osc_message_s_getArgCount(m) == s->m[i]->argc);
		p += 4 + mmsg_size(s->m[i]); i++;
	}
	ENSURE("all_visited", i == s->n);
	osc_bndl_it_s_reset(it);
	ENSURE("reset", osc_bndl_it_s_hasNext(it) == (s->n > 0));
	osc_bndl_it_s_destroy(it);
}
/* ---- native: sequences with few different addresses, so that some are equal */
static void any_seq(struct seq *s, struct mmsg *room, int max)
{
	s->n = (int)vc_range(0, max);
	for(int i = 0; i < s->n; i++) {
		mmsg_any(room + i);
		room[i].al = (int)vc_range(2, 6); room[i].adr[0] = '/';
		for(int k = 1; k < room[i].al; k++) room[i].adr[k] = vc_pick("ab", 2);
		room[i].adr[room[i].al] = 0;
		s->m[i] = room + i;
	}
}
static const struct mmsg *any_msg(struct mmsg *x) { struct seq s; do any_seq(&s, x, 1); while(s.n == 0); return x; }
static struct mmsg pool1[MAXB], pool2[MAXB], one;
//@ proof bs_edit_sweep prop=C20 cbmc=0 kind=bounded bound="run-time contract on sampled bundles of up to 8 messages" sweep=8 functions=osc_bundle_s_appendMessage,osc_bundle_s_appendMessage_b,osc_bundle_s_removeMessage,osc_bundle_s_replaceMessage,osc_bundle_s_concat
void bs_edit_sweep(void)
{
	struct seq s, t; any_seq(&s, pool1, 8); any_seq(&t, pool2, 8);
	const struct mmsg *x = any_msg(&one);
	switch((int)vc_range(0, 3)) {
	case 0: edit_append(&s, x, vc_bool(), vc_bool()); break;
	case 1: edit_remove(&s, s.n && vc_range(0, 3) ? s.m[vc_range(0, s.n - 1)] : x); break;
	case 2: if(s.n) edit_replace(&s, (int)vc_range(0, s.n - 1), x, vc_bool() ? (int)vc_range(0, 200) : 0); break;
	case 3: edit_concat(&s, &t); break;
	}
}
//@ proof bs_look_sweep prop=C20 cbmc=0 kind=bounded bound="run-time contract on sampled bundles of up to 60 messages" sweep=6 functions=osc_bundle_s_getMsgCount,osc_bundle_s_lookupAddress_b,osc_bundle_s_setLen,osc_bundle_s_setPtr,osc_bundle_iterator_s_next,osc_bundle_iterator_s_hasNext,osc_bundle_s_addressExists,osc_bundle_s_addressIsBound,osc_bundle_s_lookupAddress,osc_bundle_s_getFirstFullMatch,osc_bundle_s_getFirstEqualAddr,osc_bundle_s_getFirstMsg
static int visited;
static void visit(t_osc_msg_s *m, void *c) { struct seq *s = (struct seq *)c; ENSURE("callback", visited < s->n && osc_message_s_getSize(m) == mmsg_size(s->m[visited])); visited++; }
static int prefix_of(const struct mmsg *x, const struct mmsg *m)
{
	/* partial match of an address without pattern characters: one is the other, or ends at a '/' of the other */
	int k = 0;
	while(k < x->al && k < m->al && x->adr[k] == m->adr[k]) k++;
	return (k == x->al && (k == m->al || m->adr[k] == '/')) || (k == m->al && x->adr[k] == '/');
}
void bs_look_sweep(void)
{
	static struct mmsg pool[60];
	struct seq s; any_seq(&s, pool, vc_bool() ? 8 : 60);
	if(s.n && vc_bool()) { /* one address many times, so that the result grows */
		int from = (int)vc_range(0, s.n - 1);
		for(int i = 0; i < s.n; i++) if(vc_range(0, 3)) { memcpy(pool[i].adr, pool[from].adr, pool[from].al + 1); pool[i].al = pool[from].al; }
	}
	if(vc_bool()) for(int i = 0; i < s.n; i++) for(int k = 2; k < pool[i].al - 1; k++) if(vc_range(0, 2) == 0 && pool[i].adr[k - 1] != '/') pool[i].adr[k] = '/';
	look(&s);
	char *b = seq_bytes(&s); long len = seq_size(&s);
	visited = 0;
	ENSURE("callbacks", osc_bundle_s_getMessagesWithCallback(len, b, visit, &s) == OSC_ERR_NONE && visited == s.n);
	const struct mmsg *x = s.n && vc_bool() ? s.m[vc_range(0, s.n - 1)] : any_msg(&one);
	char adr[M_ADR + 1]; memcpy(adr, x->adr, x->al + 1);
	int cnt = 0, bound = 0, pcnt = 0, pbound = 0, first = -1, at = 16;
	for(int i = 0; i < s.n; i++) {
		if(same_adr(s.m[i], x)) { if(!cnt) first = at; cnt++; bound |= s.m[i]->argc > 0; }
		if(prefix_of(x, s.m[i])) { pcnt++; pbound |= s.m[i]->argc > 0; }
		at += 4 + mmsg_size(s.m[i]);
	}
	int r = -1;
	osc_bundle_s_addressExists(len, b, adr, 1, &r); ENSURE("exists", r == (cnt > 0));
	osc_bundle_s_addressExists(len, b, adr, 0, &r); ENSURE("exists_partial", r == (pcnt > 0));
	osc_bundle_s_addressIsBound(len, b, adr, 1, &r); ENSURE("bound", r == bound);
	osc_bundle_s_addressIsBound(len, b, adr, 0, &r); ENSURE("bound_partial", r == pbound);
	ENSURE("first_match", osc_bundle_s_getFirstFullMatch(len, b, adr) == (cnt ? b + first : NULL));
	ENSURE("first_equal", osc_bundle_s_getFirstEqualAddr(len, b, adr) == (cnt ? b + first : NULL));
	int full = vc_bool();
	t_osc_bndl_s *sb = osc_bundle_s_alloc(0, NULL); osc_bundle_s_setLen(sb, len); osc_bundle_s_setPtr(sb, b);
	ENSURE("set", osc_bundle_s_getLen(sb) == len && osc_bundle_s_getPtr(sb) == b);
	t_osc_msg_ar_s *ar = vc_bool() ? osc_bundle_s_lookupAddress(len, b, adr, full) : osc_bundle_s_lookupAddress_b(sb, adr, full);
	osc_bundle_s_free(sb);
	ENSURE("found_count", (ar ? osc_message_array_s_getLen(ar) : 0) == (full ? cnt : pcnt));
	int j = 0; at = 16;
	for(int i = 0; i < s.n; i++) {
		if(full ? same_adr(s.m[i], x) : prefix_of(x, s.m[i])) ENSURE("found", osc_message_s_getPtr(osc_message_array_s_get(ar, j++)) == b + at);
		at += 4 + mmsg_size(s.m[i]);
	}
	if(ar) osc_message_array_s_free(ar);
	t_osc_bndl_s *bs = osc_bundle_s_alloc(len, b);
	t_osc_msg_s *m = osc_bundle_s_getFirstMsg(bs);
	ENSURE("first_msg", s.n ? m && osc_message_s_getPtr(m) == b + 16 : m == NULL);
	osc_message_s_free(m); osc_bundle_s_free(bs);
}
//@ proof bs_make_sweep prop=C20 cbmc=0 kind=bounded bound="run-time contract on sampled bundles of up to 8 messages" sweep=6 functions=osc_bundle_s_union,osc_bundle_s_intersection,osc_bundle_s_difference,osc_bundle_s_wrapMessage,osc_bundle_s_allocEmptyBundle,osc_bundle_s_setBundleID_b,osc_bundle_s_deepCopy,osc_bundle_s_getTimetag,osc_bundle_s_setTimetag
static int has(const struct seq *s, const struct mmsg *x) { for(int i = 0; i < s->n; i++) if(same_adr(s->m[i], x)) return 1; return 0; }
void bs_make_sweep(void)
{
	struct seq s, t, u; any_seq(&s, pool1, 8); any_seq(&t, pool2, 8); u.n = 0;
	char *b1 = seq_bytes(&s), *b2 = seq_bytes(&t); long l1 = seq_size(&s), l2 = seq_size(&t);
	const struct mmsg *x = any_msg(&one);
	switch((int)vc_range(0, 5)) {
	case 5: {
		/* the addresses that only one of them has, the first message of each */
		for(int i = 0; i < s.n; i++) if(!has(&t, s.m[i]) && !has(&u, s.m[i])) u.m[u.n++] = s.m[i];
		for(int i = 0; i < t.n; i++) if(!has(&s, t.m[i]) && !has(&u, t.m[i])) u.m[u.n++] = t.m[i];
		long len = 0; char *r = vc_bool() ? osc_mem_alloc(l1 + l2) : NULL;
		ENSURE("ok", osc_bundle_s_difference(l1, b1, l2, b2, &len, &r) == OSC_ERR_NONE);
		ENSURE("difference", is(&u, len, r));
		osc_mem_free(r); break; }
	case 0: {
		t_osc_bndl_s *p = osc_bundle_s_alloc(l1, b1), *q = osc_bundle_s_alloc(l2, b2), *r = osc_bundle_s_union(p, q);
		u = s; for(int i = 0; i < t.n; i++) if(!has(&u, t.m[i])) u.m[u.n++] = t.m[i];
		ENSURE("union", r && is(&u, osc_bundle_s_getLen(r), osc_bundle_s_getPtr(r)));
		osc_bundle_s_free(p); osc_bundle_s_free(q); osc_bundle_s_deepFree(r); break; }
	case 1: {
		for(int i = 0; i < s.n; i++) if(has(&t, s.m[i]) && !has(&u, s.m[i])) u.m[u.n++] = s.m[i];
		long len = 0; char *r = NULL;
		ENSURE("ok", osc_bundle_s_intersection(l1, b1, l2, b2, &len, &r) == OSC_ERR_NONE);
		ENSURE("intersection", is(&u, len, r));
		osc_mem_free(r); break; }
	case 2: {
		char *m = vc_malloc(mmsg_size(x) + 4), *r = NULL, alloc = 7; long len = 0; mmsg_bytes(x, m);
		ENSURE("ok", osc_bundle_s_wrapMessage(mmsg_size(x), m + 4, &len, &r, &alloc) == OSC_ERR_NONE);
		u.n = 1; u.m[0] = x;
		ENSURE("wrapped", alloc == 1 && is(&u, len, r));
		osc_mem_free(r); break; }
	case 3: {
		t_osc_bndl_s *e = osc_bundle_s_allocEmptyBundle();
		ENSURE("empty", is(&u, osc_bundle_s_getLen(e), osc_bundle_s_getPtr(e)));
		t_osc_timetag tt; tt.sec = vc_u32(); tt.frac_sec = vc_u32();
		osc_bundle_s_setTimetag(osc_bundle_s_getLen(e), osc_bundle_s_getPtr(e), tt);
		t_osc_timetag g = osc_bundle_s_getTimetag(osc_bundle_s_getLen(e), osc_bundle_s_getPtr(e));
		ENSURE("timetag", g.sec == tt.sec && g.frac_sec == tt.frac_sec && be32(osc_bundle_s_getPtr(e) + 8) == tt.sec && be32(osc_bundle_s_getPtr(e) + 12) == tt.frac_sec);
		ENSURE("sane", osc_error_bundleSanityCheck(16, osc_bundle_s_getPtr(e)) == OSC_ERR_NONE);
		osc_bundle_s_setBundleID_b(e);
		ENSURE("header_again", is(&u, osc_bundle_s_getLen(e), osc_bundle_s_getPtr(e)));
		osc_bundle_s_deepFree(e); break; }
	case 4: {
		t_osc_bndl_s *p = osc_bundle_s_alloc(l1, b1), *q = NULL;
		ENSURE("ok", osc_bundle_s_deepCopy(&q, p) == OSC_ERR_NONE);
		ENSURE("copy", osc_bundle_s_getPtr(q) != b1 && is(&s, osc_bundle_s_getLen(q), osc_bundle_s_getPtr(q)));
		osc_bundle_s_free(p); osc_bundle_s_deepFree(q); break; }
	}
	ENSURE("operands_kept", is(&s, l1, b1) && is(&t, l2, b2));
}
//@ proof bs_history prop=C20 cbmc=0 kind=bounded bound="run-time contract on sampled histories of 25 edits" sweep=5 functions=osc_bundle_s_appendMessage,osc_bundle_s_removeMessage,osc_bundle_s_replaceMessage,osc_error_bundleSanityCheck
void bs_history(void)
{
	static struct mmsg store[25]; struct seq s; s.n = 0; long len = 0; char *b = NULL;
	for(int i = 0; i < 25; i++) {
		const struct mmsg *x = any_msg(store + i);
		t_osc_msg_s *m = wrap(x); int op = (int)vc_range(0, 4);
		if(op <= 1 || !b || s.n == 0) { if(s.n >= MAXB) { osc_message_s_free(m); break; } osc_bundle_s_appendMessage(&len, &b, m); s.m[s.n++] = x; }
		else if(op == 2) {
			char adr[M_ADR + 1]; memcpy(adr, x->adr, x->al + 1); struct seq r; r.n = 0;
			for(int k = 0; k < s.n; k++) if(!same_adr(s.m[k], x)) r.m[r.n++] = s.m[k];
			osc_bundle_s_removeMessage(adr, &len, b, 1); s = r;
		} else {
			int p = (int)vc_range(0, s.n - 1), at = 16; long pos = len;
			for(int k = 0; k < p; k++) at += 4 + mmsg_size(s.m[k]);
			t_osc_msg_s *o = osc_message_s_alloc(); osc_message_s_wrap(o, b + at);
			osc_bundle_s_replaceMessage(&len, &pos, &b, o, m); len = pos; s.m[p] = x; osc_message_s_free(o);
		}
		osc_message_s_free(m);
		ENSURE("content", is(&s, len, b));
		ENSURE("sane", osc_error_bundleSanityCheck(len, b) == OSC_ERR_NONE);
	}
	osc_mem_free(b);
}
/* ---- the verifier: up to three messages of fixed shape, two of them under the same address */
static void fixed_msg(struct mmsg *m, char c, int al, char t, int n)
{
	m->al = al; m->adr[0] = '/'; for(int i = 1; i < al; i++) m->adr[i] = c; m->adr[al] = 0;
	m->argc = 1; marg_any(m->a, t, n);
}
static inline void op_append(struct seq *s, struct seq *t)
{
	(void)t;
	edit_append(s,pool2,0,0);
}
static inline void op_fresh(struct seq *s, struct seq *t)
{
	(void)t;
	edit_append(s,pool2,1,1);
}
static inline void op_wrapped(struct seq *s, struct seq *t)
{
	(void)t;
	edit_append(s,pool2,0,1);
}
static inline void op_remove(struct seq *s, struct seq *t)
{
	(void)t;
	edit_remove(s,pool2);
}
static inline void op_removelast(struct seq *s, struct seq *t)
{
	(void)t;
	edit_remove(s,s->n>0?s->m[s->n-1]:pool2);
}
static inline void op_replace(struct seq *s, struct seq *t)
{
	(void)t;
	if(s->n>0)edit_replace(s,s->n-1,pool2,0);
}
static inline void op_replacefirst(struct seq *s, struct seq *t)
{
	(void)t;
	if(s->n>0)edit_replace(s,0,pool2+1,20);
}
static inline void op_concat(struct seq *s, struct seq *t)
{
	(void)t;
	edit_concat(s,t);
}
static inline void op_look(struct seq *s, struct seq *t)
{
	(void)t;
	look(s);
}
//@ for OP,C in append, | fresh, | wrapped, | remove,cbmc=0 | removelast,cbmc=0 | replace, | replacefirst, | concat, | look,cbmc=0
//@ proof bs_${OP} prop=C20 ${C} kind=bounded bound="bundles of up to 3 messages of fixed shape, every value" unwind=130 sweep=1 absent=osc_strfmt_*,osc_bundle_u_*,osc_match functions=osc_bundle_s_appendMessage,osc_bundle_s_removeMessage,osc_bundle_s_replaceMessage,osc_bundle_s_concat,osc_bundle_iterator_s_next,osc_bundle_iterator_s_hasNext
void bs_${OP}(void)
{
	struct seq s, t; t.n = 2;
	int n = (int)vc_range(0, 3);
	fixed_msg(pool1, 'a', 2, 'i', 0); fixed_msg(pool1 + 1, 'b', 4, 's', 4); fixed_msg(pool1 + 2, 'a', 2, 'T', 0);
	fixed_msg(pool2, 'a', 2, 'd', 0); fixed_msg(pool2 + 1, 'c', 3, 'b', 3);
	t.m[0] = pool2; t.m[1] = pool2 + 1;
	VC_SPLIT(k, 0, 3, n,
		s.n = k; for(int i = 0; i < k; i++) s.m[i] = pool1 + i;
		op_${OP}(&s, &t));
	VC_REACHED();
}
//@ endfor
