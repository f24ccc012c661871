/* Contracts for osc_query.c and osc_rset.c (C27). What a selector matches is what osc_match says of the
 * message address (a pattern) and the selector: that is C11. */
#include "seq.h"
#include "osc_match.h"
#include "osc_rset.h"
#include "osc_query.h"
#include "osc_error.h"
t_osc_err osc_rset_result_addCompleteMatch(t_osc_rset_result *res, t_osc_msg_s *msg);
//@ sources osc_query osc_rset osc_message_s

enum { NONE, COMPLETE, PARTIAL };
/* what the result of osc_match(adr, selector) = (ret, po) means for a query */
static int kind_of(int ret, int po, const char *adr)
{
	if((ret & OSC_MATCH_ADDRESS_COMPLETE) && (ret & OSC_MATCH_PATTERN_COMPLETE)) return COMPLETE;
	if(po > 0 && (adr[po] == '/' || (adr[po] == '*' && adr[po + 1] == 0))) return PARTIAL;
	return NONE;
}

/* ---- the verifier: osc_match is any function of its two arguments; the result set records the calls */
#define QM 3
#define QS 3
static const char *const adr_of[QM] = { "/a", "/b/", "/d*" };
static const int adrlen[QM] = { 2, 3, 3 };
static char sel0[] = "/x", sel1[] = "/y", sel2[] = "/z";
static char *const sel_of[QS] = { sel0, sel1, sel2 };
static int RET[QM][QS], PO[QM][QS], cnt[3][QM][QS], un[QM], un_null, strange, renamed;
static char *base; static int q_strip;
/* where message i starts: 16 header bytes; each message is size, address, typetags ",i", an int (64 bytes in all: the
 * verifier keeps the bytes of larger arrays in one expression) */
#define AT(i) (16 + 16 * (i))
#if defined(VC_PROOF_query_select) || defined(VC_PROOF_query_strip)
static int msg_of(const char *a) { for(int i = 0; i < QM; i++) if(a == base + AT(i) + 4) return i; return -1; }
static int idx_of(const char *s) { for(int i = 0; i < QS; i++) if(s == sel_of[i]) return i; return -1; }
int osc_match(const char *p, const char *a, int *po, int *ao)
{
	int m = msg_of(p), s = idx_of(a);
	ENSURE("matches_address_with_selector", m >= 0 && s >= 0);
	*po = PO[m][s]; *ao = (int)vc_range(0, 2);
	return RET[m][s];
}
static t_osc_rset *the_set;
t_osc_rset *osc_rset_alloc(void) { the_set = (t_osc_rset *)malloc(64); return the_set; }
#ifdef VC_PROOF_query_strip
static int cut_m, cut_n; static char *cut_at;
int32_t osc_message_s_renameCopyPattern(char *dest, t_osc_msg_s *src, int32_t n, char *adr)
{
	cut_m = msg_of(osc_message_s_getAddress(src)); cut_n = n; cut_at = adr;
	put32(dest, 8); for(int i = 4; i < 12; i++) dest[i] = i == 4 ? '/' : i == 8 ? ',' : 0;
	return 8;
}
int32_t osc_message_s_renameCopy(char *dest, t_osc_msg_s *src, int32_t n, char *adr) { return osc_message_s_renameCopyPattern(dest, src, n, adr); }
#else
static int cut_m, cut_n; static char *cut_at;
#endif
static void record(int k, t_osc_rset *r, char *sel, t_osc_msg_s *msg)
{
	char *a = osc_message_s_getAddress(msg);
	int s = idx_of(sel), m = msg_of(a);
	if(k == PARTIAL && q_strip) { ENSURE("stripped_copy", m < 0 && cut_m >= 0 && s >= 0); m = cut_m; ENSURE("rest_of_address", cut_at == base + AT(m) + 4 + PO[m][s] && cut_n == adrlen[m] - PO[m][s]); }
	if(r == the_set && s >= 0 && m >= 0) cnt[k][m][s]++; else strange++;
}
t_osc_err osc_rset_addCompleteMatch(t_osc_rset *r, char *sel, t_osc_msg_s *msg) { record(COMPLETE, r, sel, msg); return OSC_ERR_NONE; }
t_osc_err osc_rset_addPartialMatch(t_osc_rset *r, char *sel, t_osc_msg_s *msg) { record(PARTIAL, r, sel, msg); return OSC_ERR_NONE; }
t_osc_err osc_rset_addUnmatched(t_osc_rset *r, t_osc_msg_s *msg)
{
	if(!msg) { un_null++; return OSC_ERR_NONE; }
	int m = msg_of(osc_message_s_getAddress(msg));
	if(r == the_set && m >= 0) un[m]++; else strange++;
	return OSC_ERR_NONE;
}
#endif

static void put_msg(int i)
{
	char *p = base + AT(i); int w = 4;
	put32(p, w + 8); for(int k = 0; k < w; k++) p[4 + k] = k < adrlen[i] ? adr_of[i][k] : 0;
	p[4 + w] = ','; p[5 + w] = 'i'; p[6 + w] = p[7 + w] = 0; put32(p + 8 + w, vc_u32());
}
static void query_run(int strip)
{
#if defined(VC_PROOF_query_select) || defined(VC_PROOF_query_strip)
	static char buf[64]; t_osc_rset *rset = NULL; char *sels[QS];
	int nm = (int)vc_range(1, QM), ns = (int)vc_range(0, QS), hole = (int)vc_range(0, QS); q_strip = strip;
	base = buf;
	for(int k = 0; k < 16; k++) base[k] = k < 7 ? "#bundle"[k] : 0;
	for(int i = 0; i < QM; i++) put_msg(i);
	for(int s = 0; s < QS; s++) sels[s] = s == hole ? NULL : sel_of[s];
	for(int i = 0; i < QM; i++) for(int s = 0; s < QS; s++) {
		RET[i][s] = vc_i32(); PO[i][s] = vc_i32(); REQUIRE(0 <= PO[i][s] && PO[i][s] <= adrlen[i]);
		cnt[COMPLETE][i][s] = cnt[PARTIAL][i][s] = 0;
	}
	strange = un_null = un[0] = un[1] = un[2] = 0;
	VC_SPLIT(n, 1, QM, nm,
		ENSURE("ok", osc_query_select(ns, sels, AT(n), base, strip, &rset) == OSC_ERR_NONE);)
	ENSURE("result_set", rset == the_set && strange == 0 && un_null == 0);
	for(int i = 0; i < QM; i++) {
		int any = 0;
		for(int s = 0; s < QS; s++) {
			int k = i < nm && s < ns && s != hole ? kind_of(RET[i][s], PO[i][s], adr_of[i]) : NONE;
			ENSURE("complete_matches", cnt[COMPLETE][i][s] == (k == COMPLETE));
			ENSURE("partial_matches", cnt[PARTIAL][i][s] == (k == PARTIAL));
			if(k != NONE) any = 1;
		}
		ENSURE("unmatched", un[i] == (i < nm && !any));
	}
	VC_REACHED();
#endif
}
//@ proof query_select prop=C27 kind=bounded bound="up to 3 messages and 3 selectors, every outcome of osc_match" unwind=24 sweep=0 stub=osc_match,osc_rset_alloc,osc_rset_addCompleteMatch,osc_rset_addPartialMatch,osc_rset_addUnmatched functions=osc_query_select,osc_query_select_impl assume="osc_match is a function of its arguments whose offset lies in the pattern (C11)"
void query_select(void) { query_run(0); }
//@ proof query_strip prop=C27 kind=bounded bound="up to 3 messages and 3 selectors, every outcome of osc_match; the renamed copy by its contract (C18)" unwind=24 sweep=0 stub=osc_message_s_renameCopy,osc_message_s_renameCopyPattern,osc_match,osc_rset_alloc,osc_rset_addCompleteMatch,osc_rset_addPartialMatch,osc_rset_addUnmatched functions=osc_query_select,osc_query_select_impl assume="osc_match is a function of its arguments whose offset lies in the pattern (C11)"
void query_strip(void) { query_run(1); }

/* ---- the result set itself */
static int holds(t_osc_bndl_s *b, struct seq *s) { return s->n == 0 ? b == NULL : b != NULL && is(s, osc_bundle_s_getLen(b), osc_bundle_s_getPtr(b)); }
static struct mmsg rm[3];
static void rset_any(int i, int n) { rm[i].al = 2; rm[i].adr[0] = '/'; rm[i].adr[1] = (char)('a' + i); rm[i].adr[2] = 0; rm[i].argc = n; for(int k = 0; k < n; k++) marg_any(rm[i].a + k, 'i', 0); }
//@ for K,S in 0,0 | 1,0 | 2,0 | 0,1 | 1,1
//@ proof rset_add${K}${S} prop=C27 kind=bounded bound="two messages into a set of up to two selectors" unwind=24 sweep=1 functions=osc_rset_alloc,osc_rset_addCompleteMatch,osc_rset_addPartialMatch,osc_rset_addUnmatched,osc_rset_select,osc_rset_next,osc_rset_getUnmatched,osc_rset_appendResult,osc_rset_result_alloc
void rset_add${K}${S}(void)
{
	struct seq c0, p0, c1, p1, u; c0.n = p0.n = c1.n = p1.n = u.n = 0;
	t_osc_rset *r = osc_rset_alloc();
	rset_any(0, 1); rset_any(1, 0);
	t_osc_msg_s *m = wrap(rm), *o = wrap(rm + 1);
	ENSURE("empty", !osc_rset_getUnmatched(r) && !osc_rset_select(r, "/x"));
	ENSURE("ok", osc_rset_addCompleteMatch(r, "/x", m) == OSC_ERR_NONE); c0.m[c0.n++] = rm;
	char *s = ${S} ? "/y" : "/x";
	if(${K} == 0) { osc_rset_addCompleteMatch(r, s, o); if(${S}) c1.m[c1.n++] = rm + 1; else c0.m[c0.n++] = rm + 1; }
	if(${K} == 1) { osc_rset_addPartialMatch(r, s, o); if(${S}) p1.m[p1.n++] = rm + 1; else p0.m[p0.n++] = rm + 1; }
	if(${K} == 2) { osc_rset_addUnmatched(r, o); u.m[u.n++] = rm + 1; }
	t_osc_rset_result *a = osc_rset_select(r, "/x"), *b = osc_rset_select(r, "/y");
	ENSURE("results", a != NULL && (b != NULL) == (${S} == 1) && !osc_rset_select(r, "/z"));
	ENSURE("first", holds(osc_rset_result_getCompleteMatches(a), &c0) && holds(osc_rset_result_getPartialMatches(a), &p0));
	ENSURE("selector", !strcmp(osc_rset_result_getSelector(a), "/x") && osc_rset_result_getSelectorLen(a) == 2);
	if(${S}) ENSURE("second", holds(osc_rset_result_getCompleteMatches(b), &c1) && holds(osc_rset_result_getPartialMatches(b), &p1));
	ENSURE("unmatched", holds(osc_rset_getUnmatched(r), &u));
	osc_rset_initIterator(r);
	ENSURE("iterate_first", osc_rset_hasNext(r) && osc_rset_next(r) == a);
	if(${S}) ENSURE("iterate_second", osc_rset_hasNext(r) && osc_rset_next(r) == b);
	ENSURE("iterate_end", !osc_rset_hasNext(r) && osc_rset_next(r) == NULL);
	VC_REACHED();
#if VC_IS_NATIVE
	osc_rset_free(r); osc_message_s_free(m); osc_message_s_free(o);
#endif
}
//@ endfor

/* ---- run-time contract: any bundle, any selectors, the real match */
#define SMAX 5
//@ proof query_sweep prop=C27 cbmc=0 kind=bounded bound="run-time contract on sampled bundles of up to 8 messages and 5 selectors" sweep=12 functions=osc_query_select,osc_query_select_impl,osc_rset_addCompleteMatch,osc_rset_addPartialMatch,osc_rset_addUnmatched,osc_rset_select,osc_rset_next,osc_message_s_renameCopyPattern
static struct mmsg pool[8], cut[SMAX][8];
void query_sweep(void)
{
	struct seq all, c[SMAX], p[SMAX], u; char sel[SMAX][12]; char *sels[SMAX + 1]; int order[SMAX], no = 0;
	int n = (int)vc_range(0, 8), ns = (int)vc_range(0, SMAX), strip = vc_bool();
	for(int s = 0; s < SMAX; s++) {
		sel[s][0] = '/'; vc_string(sel[s] + 1, 8, "ab/ab"); sels[s] = vc_range(0, 7) ? sel[s] : NULL;
		if(s < ns) for(int j = 0; j < s; j++) if(sels[s] && sels[j]) REQUIRE(strcmp(sel[s], sel[j]));
		c[s].n = p[s].n = 0;
	}
	all.n = n; u.n = 0;
	for(int i = 0; i < n; i++) {
		mmsg_any(pool + i);
		int a = (int)vc_range(2, 10), pat = vc_bool();
		pool[i].al = a; pool[i].adr[0] = '/';
		for(int k = 1; k < a; k++) pool[i].adr[k] = pat ? vc_pick("ab/*a?b/*", 9) : vc_pick("ab/ab", 5);
		pool[i].adr[a] = 0;
		all.m[i] = pool + i;
	}
	for(int i = 0; i < n; i++) {
		int any = 0;
		for(int s = 0; s < ns; s++) if(sels[s]) {
			int po, ao, r = osc_match(pool[i].adr, sels[s], &po, &ao), k = kind_of(r, po, pool[i].adr);
			if(k == NONE) continue;
			any = 1;
			int known = 0; for(int j = 0; j < no; j++) if(order[j] == s) known = 1;
			if(!known) order[no++] = s;
			if(k == COMPLETE) c[s].m[c[s].n++] = pool + i;
			else if(!strip) p[s].m[p[s].n++] = pool + i;
			else {
				struct mmsg *x = &cut[s][i]; *x = pool[i];
				x->al -= po; memmove(x->adr, x->adr + po, x->al + 1);
				p[s].m[p[s].n++] = x;
			}
		}
		if(!any) u.m[u.n++] = pool + i;
	}
	char *b = seq_bytes(&all); t_osc_rset *rset = NULL;
	ENSURE("ok", osc_query_select(ns, sels, seq_size(&all), b, strip, &rset) == OSC_ERR_NONE);
	ENSURE("result_set", rset != NULL);
	for(int s = 0; s < ns; s++) if(sels[s]) {
		t_osc_rset_result *r = osc_rset_select(rset, sels[s]);
		ENSURE("has_result", (r != NULL) == (c[s].n + p[s].n > 0));
		if(!r) continue;
		ENSURE("selector", !strcmp(osc_rset_result_getSelector(r), sels[s]) && osc_rset_result_getSelectorLen(r) == (int)strlen(sels[s]));
		ENSURE("complete_matches", holds(osc_rset_result_getCompleteMatches(r), &c[s]));
		ENSURE("partial_matches", holds(osc_rset_result_getPartialMatches(r), &p[s]));
	}
	t_osc_bndl_s *un = osc_rset_getUnmatched(rset);
	ENSURE("unmatched", n == 0 ? un == NULL || osc_bundle_s_getLen(un) <= 16 : holds(un, &u));
	osc_rset_initIterator(rset);
	for(int j = 0; j < no; j++) ENSURE("each_result", osc_rset_hasNext(rset) && osc_rset_next(rset) == osc_rset_select(rset, sels[order[j]]));
	ENSURE("no_more", !osc_rset_hasNext(rset) && !osc_rset_next(rset));
	osc_rset_free(rset);
}
//@ proof query_null prop=C27 sweep=1 functions=osc_query_select,osc_rset_select,osc_rset_hasNext
void query_null(void)
{
	t_osc_rset *r = NULL;
	ENSURE("no_bundle", osc_query_select(0, NULL, 0, NULL, 0, &r) == OSC_ERR_NOBUNDLE && r == NULL);
	ENSURE("no_set", osc_rset_select(NULL, "/a") == NULL && !osc_rset_hasNext(NULL) && !osc_rset_next(NULL) && !osc_rset_getUnmatched(NULL)
		&& !osc_rset_result_getSelector(NULL) && !osc_rset_result_getSelectorLen(NULL) && !osc_rset_result_getCompleteMatches(NULL) && !osc_rset_result_getPartialMatches(NULL));
	VC_REACHED();
}
