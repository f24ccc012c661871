/* Contracts for osc_message_s.c and its iterator (C18). */
#include "model.h"
#include "osc_message_s.r"
#include "osc_message_iterator_s.r"
#include "osc_atom_s.r"
#include "osc_util.h"
#include "osc_error.h"
//@ sources osc_message_s osc_message_iterator_s

/* the serialized message x in a block of its own, wrapped */
static t_osc_msg_s *wrapped(struct mmsg *x, char **bytes)
{
	char *b = vc_malloc(mmsg_size(x) + 4);
	mmsg_bytes(x, b);
	t_osc_msg_s *m = osc_message_s_alloc();
	ENSURE("wrap", osc_message_s_wrap(m, b) == OSC_ERR_NONE);
	*bytes = b;
	return m;
}
static int arg_at(struct mmsg *x, int n)
{
	int at = 4 + PADSTR(x->al) + PADSTR(1 + x->argc);
	for(int i = 0; i < n; i++) at += marg_size(x->a + i);
	return at;
}
/* fields, counts, the n-th argument for any n (in range or not), in any order, with or without the cache */
static void msg_fields(struct mmsg *x, int cached, int n1, int n2)
{
	char *b; t_osc_msg_s *m = wrapped(x, &b);
	ENSURE("size", osc_message_s_getSize(m) == mmsg_size(x) && osc_message_s_getPtr(m) == b);
	ENSURE("address", osc_message_s_getAddress(m) == b + 4);
	ENSURE("typetags", osc_message_s_getTypetags(m) == b + 4 + PADSTR(x->al));
	ENSURE("data", osc_message_s_getData(m) == b + arg_at(x, 0));
	ENSURE("count", osc_message_s_getArgCount(m) == x->argc);
	if(cached) ENSURE("cache", osc_message_s_cacheDataOffsets(m) == OSC_ERR_NONE);
	int ns[2] = { n1, n2 };
	for(int k = 0; k < 2; k++) {
		int n = ns[k]; t_osc_atom_s *a = NULL;
		ENSURE("typetag", osc_message_s_getTypetag(m, n) == (n >= 0 && n < x->argc ? x->a[n].t : 0));
		osc_message_s_getArg(m, n, &a);
		if(n < 0 || n >= x->argc) ENSURE("refused", a == NULL);
		else {
			ENSURE("argument", a && osc_atom_s_getTypetag(a) == x->a[n].t && osc_atom_s_getData(a) == b + arg_at(x, n));
			osc_message_s_getArg(m, n, &a);
			ENSURE("argument_again", osc_atom_s_getTypetag(a) == x->a[n].t && osc_atom_s_getData(a) == b + arg_at(x, n));
			osc_atom_s_free(a);
		}
	}
	osc_message_s_free(m);
}
static void msg_iterate(struct mmsg *x, int cached)
{
	char *b; t_osc_msg_s *m = wrapped(x, &b);
	if(cached) osc_message_s_cacheDataOffsets(m);
	t_osc_msg_it_s *it = osc_msg_it_s_get(m);
	int i = 0;
	while(osc_msg_it_s_hasNext(it)) {
		ENSURE("visited_once", i < x->argc);
		t_osc_atom_s *a = osc_msg_it_s_next(it);
		ENSURE("in_order", osc_atom_s_getTypetag(a) == x->a[i].t && osc_atom_s_getData(a) == b + arg_at(x, i));
		i++;
	}
	ENSURE("all_visited", i == x->argc);
	ENSURE("end", osc_msg_it_s_next(it) == NULL);
	osc_msg_it_s_reset(it);
	ENSURE("reset", osc_msg_it_s_hasNext(it) == (x->argc > 0));
	if(x->argc > 0) ENSURE("reset_first", osc_atom_s_getData(osc_msg_it_s_next(it)) == b + arg_at(x, 0));
	osc_msg_it_s_destroy(it);
	osc_message_s_free(m);
}
static void msg_rename(struct mmsg *x, struct mmsg *y)    /* y: x under its new address */
{
	char *b; t_osc_msg_s *m = wrapped(x, &b);
	int z = mmsg_size(y) + 4;
	char *d = vc_malloc(z), *want = vc_malloc(z);
	mmsg_bytes(y, want);
	int r = osc_message_s_renameCopy(d, m, y->al, y->adr), legal = 1;
	for(int i = 1; i < y->al; i++) if(y->adr[i] == '#' || y->adr[i] == ' ') legal = 0;
	if(!legal) ENSURE("illegal_address", r == 0);
	else ENSURE("renamed_size", r == z - 4);
	if(legal) for(int i = 0; i < z; i++) ENSURE("renamed", d[i] == want[i]);
	osc_message_s_free(m);
}
//@ proof msgs_fields_sweep prop=C18 cbmc=0 kind=bounded bound="run-time contract on sampled messages of up to 12 arguments" sweep=6 functions=osc_message_s_wrap,osc_message_s_getArg,osc_message_s_getTypetag,osc_message_s_cacheDataOffsets,osc_message_s_getArgCount
void msgs_fields_sweep(void)
{
	struct mmsg x; mmsg_any(&x);
	msg_fields(&x, vc_bool(), (int)vc_range(-2, x.argc + 1), (int)vc_range(-2, x.argc + 1));
}
//@ proof msgs_iterate_sweep prop=C18 cbmc=0 kind=bounded bound="run-time contract on sampled messages of up to 12 arguments" sweep=4 functions=osc_message_iterator_s_next,osc_message_iterator_s_hasNext,osc_message_iterator_s_resetIterator
void msgs_iterate_sweep(void)
{
	struct mmsg x; mmsg_any(&x);
	msg_iterate(&x, vc_bool());
}
//@ proof msgs_rename_sweep prop=C18 cbmc=0 kind=bounded bound="run-time contract on sampled messages of up to 12 arguments" sweep=4 functions=osc_message_s_renameCopy
void msgs_rename_sweep(void)
{
	struct mmsg x, y; mmsg_any(&x); y = x;
	if(vc_range(0, 5) == 0) {
		/* a message that has no typetags at all */
		char b[64]; int p = PADSTR(x.al); memset(b, 0, sizeof b); put32(b, p); memcpy(b + 4, x.adr, x.al);
		char *c = vc_malloc(p + 4); memcpy(c, b, p + 4);
		t_osc_msg_s *m = osc_message_s_alloc(); osc_message_s_wrap(m, c);
		ENSURE("no_typetags", osc_message_s_getTypetags(m) == NULL && osc_message_s_getArgCount(m) == 0);
		mmsg_address(&y, (int)vc_range(2, M_ADR));
		for(int i = 1; i < y.al; i++) if(y.adr[i] == '#' || y.adr[i] == ' ') y.adr[i] = 'x';
		char *d = vc_malloc(PADSTR(y.al) + 4);
		ENSURE("rename_no_typetags", osc_message_s_renameCopy(d, m, y.al, y.adr) == PADSTR(y.al) && !strcmp(d + 4, y.adr) && be32(d) == (uint32_t)PADSTR(y.al));
		osc_message_s_free(m);
		return;
	}
	mmsg_address(&y, (int)vc_range(2, M_ADR));
	msg_rename(&x, &y);
}
//@ for SHAPE,A,C,T0,N0,T1,N1,T2,N2 in none,3,0,'i',0,'i',0,'i',0 | dis,2,3,'d',0,'i',0,'s',4 | sTb,4,3,'s',1,'T',0,'b',2 | bch,5,3,'b',5,'c',0,'h',0
//@ proof msgs_fields_${SHAPE} prop=C18 kind=bounded bound="three arguments of fixed types, every value, indices from -1 to 3" unwind=70 sweep=1 absent=osc_strfmt_*,osc_bundle_* functions=osc_message_s_wrap,osc_message_s_getArg,osc_message_s_getTypetag,osc_message_s_cacheDataOffsets,osc_message_s_getArgCount
void msgs_fields_${SHAPE}(void)
{
	struct mmsg x; mmsg_address(&x, ${A}); x.argc = ${C};
	marg_any(x.a, ${T0}, ${N0}); marg_any(x.a + 1, ${T1}, ${N1}); marg_any(x.a + 2, ${T2}, ${N2});
	int n = (int)vc_range(-1, 3);
	if(vc_bool()) { VC_SPLIT(i, -1, 3, n, msg_fields(&x, 1, 2 - i, i)); }
	else { VC_SPLIT(i, -1, 3, n, msg_fields(&x, 0, i, 2 - i)); }
	VC_REACHED();
}
//@ proof msgs_iterate_${SHAPE} prop=C18 kind=bounded bound="three arguments of fixed types, every value" unwind=70 sweep=1 absent=osc_strfmt_*,osc_bundle_* functions=osc_message_iterator_s_next,osc_message_iterator_s_hasNext,osc_message_iterator_s_resetIterator
void msgs_iterate_${SHAPE}(void)
{
	struct mmsg x; mmsg_address(&x, ${A}); x.argc = ${C};
	marg_any(x.a, ${T0}, ${N0}); marg_any(x.a + 1, ${T1}, ${N1}); marg_any(x.a + 2, ${T2}, ${N2});
	if(vc_bool()) msg_iterate(&x, 1); else msg_iterate(&x, 0);
	VC_REACHED();
}
//@ proof msgs_rename_${SHAPE} prop=C18 kind=bounded bound="three arguments of fixed types, every value, new addresses of 2 to 5 characters" unwind=70 sweep=1 absent=osc_strfmt_*,osc_bundle_* functions=osc_message_s_renameCopy
void msgs_rename_${SHAPE}(void)
{
	struct mmsg x, y; mmsg_address(&x, ${A}); x.argc = ${C};
	marg_any(x.a, ${T0}, ${N0}); marg_any(x.a + 1, ${T1}, ${N1}); marg_any(x.a + 2, ${T2}, ${N2});
	y = x;
	int n = (int)vc_range(2, 5);
	VC_SPLIT(i, 2, 5, n, mmsg_address(&y, i); msg_rename(&x, &y));
	VC_REACHED();
}
//@ endfor
