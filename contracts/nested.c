/* Contracts for flattening and exploding nested bundles (C28): osc_bundle_u_flatten, osc_bundle_u_explode,
 * osc_message_u_explode and the serialized forms. The oracles work on abstract bundles (model.h): a
 * bundle is a set of messages here, the order among them is not promised. */
#define M_ADR VC_MAX_CONST(8, 60)
#define M_MSGS VC_MAX_CONST(4, 48)
#define M_ARGS VC_MAX_CONST(1, 12)
#include <stdio.h>
#include "model.h"
#include "vc_printf.h"
#include "osc_match.h"
//@ sources osc_bundle_u osc_bundle_s osc_message_u osc_message_s osc_bundle_iterator_u osc_message_iterator_u osc_atom_u
#ifdef VC_CBMC
#include <stdarg.h>
/* sprintf, for the one format the code uses */
int sprintf(char *buf, const char *fmt, ...)
{
	va_list ap; size_t c = 0;
	ENSURE("sprintf_model", fmt[0] == '%' && fmt[1] == 's' && fmt[2] == '%' && fmt[3] == 's' && fmt[4] == '%' && fmt[5] == 's' && fmt[6] == 0);
	va_start(ap, fmt);
	for(int i = 0; i < 3; i++) { char *s = va_arg(ap, char *); for(size_t k = 0; s[k]; k++) buf[c++] = s[k]; }
	va_end(ap);
	buf[c] = 0;
	return (int)c;
}
#endif

/* every message of b is in u, and nothing else; nested bundles likewise */
static int set_is(t_osc_bndl_u *u, const struct mbndl *b)
{
	if(!u || osc_bundle_u_getMsgCount(u) != b->n) return 0;
	for(int i = 0; i < b->n; i++) {
		const struct mmsg *m = b->m + i; int found = 0;
		for(t_osc_msg_u *x = osc_bundle_u_getFirstMsg(u); x; x = osc_message_u_next(x)) {
			char *adr = osc_message_u_getAddress(x);
			if(!adr || strcmp(adr, m->adr)) continue;
			found++;
			if(osc_message_u_getArgCount(x) != m->argc) return 0;
			for(int k = 0; k < m->argc; k++) {
				t_osc_atom_u *a = osc_message_u_getArg(x, k);
				if(m->a[k].t == OSC_BUNDLE_TYPETAG) { if(osc_atom_u_getTypetag(a) != OSC_BUNDLE_TYPETAG || !set_is(osc_atom_u_getBndl(a), m->a[k].b)) return 0; }
				else if(!marg_is(a, m->a + k)) return 0;
			}
		}
		if(found != 1) return 0;
	}
	return 1;
}
static struct mmsg *find(struct mbndl *b, const char *adr) { for(int i = 0; i < b->n; i++) if(!strcmp(b->m[i].adr, adr)) return b->m + i; return NULL; }
static struct mmsg *put(struct mbndl *b, const char *adr)
{
	struct mmsg *m = b->m + b->n++;
	m->al = (int)strlen(adr); strcpy(m->adr, adr); m->argc = 0;
	return m;
}
/* put m, whose address from the given level on is rest, into b; 0: the address is in the way of another */
static int explode(struct mbndl *b, const struct mmsg *m, const char *rest, int level, int maxlevel, char sep)
{
	char first[M_ADR + 2]; int i = rest[0] == sep;
	while(rest[i]) { i++; if(rest[i] == sep) break; }
	memcpy(first, rest, i); first[i] = 0;
	if(rest[i] == 0 || (maxlevel >= 0 && level >= maxlevel)) {
		if(find(b, rest)) return 0;
		struct mmsg *x = put(b, rest); x->argc = m->argc; memcpy(x->a, m->a, sizeof(x->a));
		return 1;
	}
	struct mmsg *x = find(b, first);
	if(!x) {
		x = put(b, first); x->argc = 1; memset(x->a, 0, sizeof(x->a[0]));
		x->a[0].t = OSC_BUNDLE_TYPETAG; x->a[0].v = 1 /* made here */; x->a[0].b = (struct mbndl *)vc_malloc(sizeof(struct mbndl)); x->a[0].b->n = 0;
	}
	if(x->argc != 1 || x->a[0].t != OSC_BUNDLE_TYPETAG || !x->a[0].v) return 0;
	char next[M_ADR + 2]; int k = i;
	next[0] = '/';
	if(rest[k] != '/') { k++; }            /* a separator other than / goes; the rest begins with / again */
	strcpy(next + (rest[k] != '/'), rest + k);
	return explode(x->a[0].b, m, next, level + 1, maxlevel, sep);
}
/* 0: two messages end up at one address */
static int flatten(struct mbndl *out, const struct mbndl *b, const char *prefix, const char *sep, int level, int maxlevel, int drop)
{
	for(int i = 0; i < b->n; i++) {
		const struct mmsg *m = b->m + i; char adr[200]; struct mmsg keep;
		snprintf(adr, sizeof(adr), "%s%s%s", prefix ? prefix : "", prefix ? sep : "", m->adr);
		keep.argc = 0;
		for(int k = 0; k < m->argc; k++) {
			if(m->a[k].t == OSC_BUNDLE_TYPETAG && (level < maxlevel || maxlevel <= 0)) { if(!flatten(out, m->a[k].b, adr, sep, level + 1, maxlevel, drop)) return 0; }
			else keep.a[keep.argc++] = m->a[k];
		}
		if(drop && keep.argc == 0) continue;
		if(out->n >= M_MSGS || strlen(adr) > M_ADR || find(out, adr)) return 0;
		struct mmsg *x = put(out, adr); x->argc = keep.argc; memcpy(x->a, keep.a, sizeof(x->a));
	}
	return 1;
}
/* addresses that are no patterns, of a few components */
static void plain_address(struct mmsg *m, const char *seps)
{
	int n = (int)vc_range(1, 4), ns = (int)strlen(seps);
	m->al = 0;
	for(int i = 0; i < n; i++) {
		m->adr[m->al++] = i ? vc_pick(seps, ns) : '/';
		int l = (int)vc_range(vc_range(0, 9) > 0, 2);
		for(int k = 0; k < l; k++) m->adr[m->al++] = vc_pick("ab", 2);
	}
	m->adr[m->al] = 0;
}
static int taken(const struct mbndl *b, int i) { for(int k = 0; k < i; k++) if(!strcmp(b->m[k].adr, b->m[i].adr)) return 1; return 0; }
static void plain_bundle(struct mbndl *b, int depth, const char *seps)
{
	b->n = (int)vc_range(0, 6);
	for(int i = 0; i < b->n; i++) {
		struct mmsg *m = b->m + i;
		mmsg_any(m);
		do plain_address(m, seps); while(taken(b, i));
		if(m->argc == 0) { m->argc = 1; marg_any(m->a, 'i', 0); }
		if(depth > 0) for(int k = 0; k < m->argc; k++) if(vc_range(0, 3) == 0) {
			memset(m->a + k, 0, sizeof(m->a[k]));
			m->a[k].t = OSC_BUNDLE_TYPETAG; m->a[k].b = (struct mbndl *)vc_malloc(sizeof(struct mbndl));
			plain_bundle(m->a[k].b, depth - 1, seps);
		}
	}
}
static t_osc_bndl_s *as_s(const struct mbndl *b) { t_osc_bndl_u *u = mbndl_u(b); t_osc_bndl_s *s = osc_bundle_u_serialize(u); osc_bundle_u_free(u); return s; }
static t_osc_bndl_u *as_u(t_osc_bndl_s *s) { return osc_bundle_s_deserialize(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s)); }

//@ proof explode_sweep prop=C28 cbmc=0 kind=bounded bound="run-time contract on sampled bundles of up to 6 messages with addresses of up to 4 components" sweep=6 functions=osc_bundle_u_explode,osc_message_u_explode,osc_message_u_explode_impl,osc_bundle_s_explode
void explode_sweep(void)
{
	static struct mbndl x, want; int serial = (int)vc_range(0, 1), maxlevel = (int)vc_range(-1, 4), which = (int)vc_range(0, 4);
	char *sep = which == 0 ? NULL : which == 1 ? (char *)"" : which == 2 ? (char *)"." : (char *)"/";
	plain_bundle(&x, serial, which == 2 ? "./" : "/");
	want.n = 0;
	for(int i = 0; i < x.n; i++) REQUIRE(explode(&want, x.m + i, x.m[i].adr, 0, maxlevel, which == 2 ? '.' : '/'));
	t_osc_bndl_u *e = NULL;
	if(serial) {
		t_osc_bndl_s *s = as_s(&x), *d = NULL;
		if(vc_range(0, 1)) d = osc_bundle_s_allocEmptyBundle();
		ENSURE("ok", osc_bundle_s_explode(&d, s, maxlevel, sep) == OSC_ERR_NONE);
		ENSURE("sane", osc_error_bundleSanityCheck(osc_bundle_s_getLen(d), osc_bundle_s_getPtr(d)) == OSC_ERR_NONE);
		e = as_u(d);
		t_osc_bndl_u *u = as_u(s);
		ENSURE("source_kept", mbndl_is(u, &x));
		osc_bundle_u_free(u); osc_bundle_s_deepFree(s); osc_bundle_s_deepFree(d);
	} else {
		t_osc_bndl_u *u = mbndl_u(&x);
		ENSURE("ok", osc_bundle_u_explode(&e, u, maxlevel, sep) == OSC_ERR_NONE);
		ENSURE("source_kept", mbndl_is(u, &x));
		osc_bundle_u_free(u);
	}
	ENSURE("tree", set_is(e, &want));
	osc_bundle_u_free(e);
}
//@ proof flatten_sweep prop=C28 cbmc=0 kind=bounded bound="run-time contract on sampled bundles of up to 6 messages, nested up to 3 deep" sweep=6 functions=osc_bundle_u_flatten,osc_bundle_u_flatten_impl,osc_bundle_s_flatten
void flatten_sweep(void)
{
	static struct mbndl x, want; int serial = (int)vc_range(0, 1), maxlevel = (int)vc_range(0, 4), which = (int)vc_range(0, 3), drop = (int)vc_range(0, 1);
	char *sep = which == 0 ? NULL : which == 1 ? (char *)"" : which == 2 ? (char *)"." : (char *)"/--";
	plain_bundle(&x, (int)vc_range(0, 3), "/");
	want.n = 0;
	REQUIRE(flatten(&want, &x, NULL, sep ? sep : "", 0, maxlevel, drop));
	t_osc_bndl_u *e = NULL;
	if(serial) {
		t_osc_bndl_s *s = as_s(&x), *d = NULL;
		ENSURE("ok", osc_bundle_s_flatten(&d, s, maxlevel, sep, drop) == OSC_ERR_NONE);
		e = as_u(d);
		t_osc_bndl_u *u = as_u(s);
		ENSURE("source_kept", mbndl_is(u, &x));
		osc_bundle_u_free(u); osc_bundle_s_deepFree(s); osc_bundle_s_deepFree(d);
	} else {
		t_osc_bndl_u *u = mbndl_u(&x);
		ENSURE("ok", osc_bundle_u_flatten(&e, u, maxlevel, sep, drop) == OSC_ERR_NONE);
		ENSURE("source_kept", mbndl_is(u, &x));
		osc_bundle_u_free(u);
	}
	ENSURE("flat", set_is(e, &want));
	osc_bundle_u_free(e);
}
//@ proof inverse_sweep prop=C28 cbmc=0 kind=bounded bound="run-time contract on sampled bundles of up to 6 messages with addresses of up to 4 components" sweep=6 functions=osc_bundle_u_explode,osc_bundle_u_flatten,osc_message_u_explode_impl,osc_bundle_u_flatten_impl,osc_bundle_s_explode,osc_bundle_s_flatten
void inverse_sweep(void)
{
	static struct mbndl x, tree; int serial = (int)vc_range(0, 1), maxlevel = (int)vc_range(-1, 4);
	plain_bundle(&x, 0, "/");
	tree.n = 0;
	for(int i = 0; i < x.n; i++) REQUIRE(explode(&tree, x.m + i, x.m[i].adr, 0, maxlevel, '/'));
	t_osc_bndl_u *u = mbndl_u(&x), *e = NULL, *f = NULL;
	if(serial) {
		t_osc_bndl_s *s = osc_bundle_u_serialize(u), *d = NULL, *g = NULL;
		osc_bundle_s_explode(&d, s, maxlevel, (char *)"/");
		osc_bundle_s_flatten(&g, d, 0, (char *)"", 1);
		f = as_u(g);
		osc_bundle_s_deepFree(s); osc_bundle_s_deepFree(d); osc_bundle_s_deepFree(g);
	} else {
		osc_bundle_u_explode(&e, u, maxlevel, (char *)"/");
		osc_bundle_u_flatten(&f, e, 0, (char *)"", 1);
		osc_bundle_u_free(e);
	}
	ENSURE("inverse", set_is(f, &x));
	osc_bundle_u_free(u); osc_bundle_u_free(f);
}
/* osc_match by its contract (C11), for addresses without pattern characters */
#ifdef VC_CBMC
int osc_match(const char *pattern, const char *address, int *po, int *ao)
{
	int i = 0;
	while(pattern[i] && pattern[i] == address[i]) i++;
	*po = *ao = i;
	return (pattern[i] == 0 ? OSC_MATCH_PATTERN_COMPLETE : 0) | (address[i] == 0 ? OSC_MATCH_ADDRESS_COMPLETE : 0);
}
#endif
/* fixed addresses, any values */
static void fixed(struct mbndl *x, const char *a0, const char *a1)
{
	x->n = 0;
	struct mmsg *m = put(x, a0); m->argc = 1; marg_any(m->a, 'i', 0);
	if(a1) { m = put(x, a1); m->argc = 1; marg_any(m->a, 'h', 0); }
}
/* the value at an address of nested bundles, the address given component by component */
static t_osc_msg_u *only(t_osc_bndl_u *b, int i, int n, const char *adr)
{
	ENSURE("messages", b && osc_bundle_u_getMsgCount(b) == n);
	t_osc_msg_u *m = osc_bundle_u_getFirstMsg(b);
	for(int k = 0; k < i; k++) m = osc_message_u_next(m);
	char *a = osc_message_u_getAddress(m);
	for(int k = 0; ; k++) { ENSURE("address", a[k] == adr[k]); if(!adr[k]) break; }
	ENSURE("one_argument", osc_message_u_getArgCount(m) == 1);
	return m;
}
static t_osc_bndl_u *sub(t_osc_msg_u *m) { t_osc_atom_u *a = osc_message_u_getArg(m, 0); ENSURE("nested", osc_atom_u_getTypetag(a) == OSC_BUNDLE_TYPETAG); return osc_atom_u_getBndl(a); }
static int val(t_osc_msg_u *m, const struct mmsg *want) { return marg_is(osc_message_u_getArg(m, 0), want->a); }
#define IN(b, i, n, adr) sub(only(b, i, n, adr))
#define VAL(b, i, n, adr, k) ENSURE("value", val(only(b, i, n, adr), x.m + k))
//@ for SHAPE,NMSG in one,1 | deep,1 | limit,1 | shared,2 | apart,2 | dots,1
//@ proof explode_${SHAPE} prop=C28 kind=bounded bound="${NMSG} message(s) of fixed address, any value" unwind=12 sweep=1 absent=osc_strfmt_* stub=osc_match assume="osc_match by its contract for addresses without pattern characters (C11)" functions=osc_bundle_u_explode,osc_message_u_explode,osc_message_u_explode_impl
void explode_${SHAPE}(void)
{
	enum { one, deep, limit, shared, apart, dots };
	struct mbndl x;
	fixed(&x, ${SHAPE} == deep ? "/a/b/c" : ${SHAPE} == limit ? "/a/b/c" : ${SHAPE} == dots ? "/a.b" : "/a/b", ${SHAPE} == shared ? "/a/c" : ${SHAPE} == apart ? "/c" : NULL);
	t_osc_bndl_u *u = mbndl_u(&x), *e = NULL;
	ENSURE("ok", osc_bundle_u_explode(&e, u, ${SHAPE} == limit ? 1 : -1, ${SHAPE} == dots ? (char *)"." : ${SHAPE} == one ? NULL : (char *)"/") == OSC_ERR_NONE);
	switch(${SHAPE}) {
	case one: case dots: VAL(IN(e, 0, 1, "/a"), 0, 1, "/b", 0); break;
	case deep: VAL(IN(IN(e, 0, 1, "/a"), 0, 1, "/b"), 0, 1, "/c", 0); break;
	case limit: VAL(IN(e, 0, 1, "/a"), 0, 1, "/b/c", 0); break;
	case shared: VAL(IN(e, 0, 1, "/a"), 0, 2, "/b", 0); VAL(IN(e, 0, 1, "/a"), 1, 2, "/c", 1); break;
	case apart: VAL(IN(e, 0, 2, "/a"), 0, 1, "/b", 0); VAL(e, 1, 2, "/c", 1); break;
	}
	ENSURE("source_kept", mbndl_is(u, &x));
	VC_REACHED();
}
//@ endfor
/* a nested bundle, with an argument beside it or not, and a second message */
//@ for SHAPE,DROP,MAX,SEP in plain,1,0,"" | kept,0,0,"" | sep,1,2,"-" | limit,1,1,"" | beside,1,0,""
//@ proof flatten_${SHAPE} prop=C28 kind=bounded bound="a bundle nested 2 deep of fixed addresses, any values" unwind=14 sweep=1 absent=osc_strfmt_* functions=osc_bundle_u_flatten,osc_bundle_u_flatten_impl
void flatten_${SHAPE}(void)
{
	enum { plain, kept, sep, limit, beside };
	struct mbndl x; fixed(&x, "/c", "/d");
	t_osc_bndl_u *in2 = osc_bundle_u_alloc(), *in1 = osc_bundle_u_alloc(), *u = osc_bundle_u_alloc(), *e = NULL;
	osc_bundle_u_addMsg(in2, mmsg_u(x.m));
	t_osc_msg_u *m = osc_message_u_alloc(); osc_message_u_setAddress(m, "/b"); osc_message_u_appendBndl_u(m, in2); osc_bundle_u_addMsg(in1, m);
	m = osc_message_u_alloc(); osc_message_u_setAddress(m, "/a"); osc_message_u_appendBndl_u(m, in1);
	if(${SHAPE} == beside) osc_message_u_appendAtom(m, marg_u(x.m[1].a));
	osc_bundle_u_addMsg(u, m);
	osc_bundle_u_addMsg(u, mmsg_u(x.m + 1));
	ENSURE("ok", osc_bundle_u_flatten(&e, u, ${MAX}, (char *)${SEP}, ${DROP}) == OSC_ERR_NONE);
	switch(${SHAPE}) {
	case plain: VAL(e, 0, 2, "/a/b/c", 0); VAL(e, 1, 2, "/d", 1); break;
	case kept: VAL(e, 0, 4, "/a/b/c", 0); VAL(e, 3, 4, "/d", 1); break;
	case sep: VAL(e, 0, 2, "/a-/b-/c", 0); VAL(e, 1, 2, "/d", 1); break;
	case limit: VAL(IN(e, 0, 2, "/a/b"), 0, 1, "/c", 0); VAL(e, 1, 2, "/d", 1); break;
	case beside: VAL(e, 0, 3, "/a/b/c", 0); VAL(e, 1, 3, "/a", 1); VAL(e, 2, 3, "/d", 1); break;
	}
	ENSURE("source_kept", osc_bundle_u_getMsgCount(u) == 2 && osc_message_u_getArgCount(osc_bundle_u_getFirstMsg(u)) == (${SHAPE} == beside ? 2 : 1));
	VC_REACHED();
}
//@ endfor
