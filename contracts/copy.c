/* Contracts for the copies of messages and bundles (C25); those of atoms are in atom_u.c. */
#include "model.h"
//@ sources osc_bundle_u osc_bundle_s osc_message_u osc_atom_u
long vc_live(void);
#if VC_IS_NATIVE
#define LIVE() vc_live()
#else
#define LIVE() 0
#endif

/* change every part of u in place */
static void spoil_message(t_osc_msg_u *u)
{
	for(int i = 0; i < osc_message_u_getArgCount(u); i++) osc_atom_u_setInt64(osc_message_u_getArg(u, i), 77);
	osc_message_u_setAddress(u, "/spoiled");
	osc_message_u_appendInt32(u, 1);
}
static void spoil_bundle(t_osc_bndl_u *u)
{
	for(t_osc_msg_u *m = osc_bundle_u_getFirstMsg(u); m; m = osc_message_u_next(m)) {
		if(VC_IS_NATIVE) for(int i = 0; i < osc_message_u_getArgCount(m); i++) { t_osc_atom_u *a = osc_message_u_getArg(m, i); if(osc_atom_u_getTypetag(a) == OSC_BUNDLE_TYPETAG) spoil_bundle(osc_atom_u_getBndl(a)); }
		spoil_message(m);
	}
	t_osc_msg_u *n = osc_message_u_alloc(); osc_message_u_setAddress(n, "/new"); osc_bundle_u_addMsg(u, n);
}
static void message_copy(const struct mmsg *x, int which, int spoil)
{
	long l0 = LIVE();
	t_osc_msg_u *u = mmsg_u(x), *c = NULL;
	long l1 = LIVE();
	ENSURE("ok", osc_message_u_deepCopy(&c, u) == OSC_ERR_NONE);
	ENSURE("equal", c != u && mmsg_is(c, x));
	ENSURE("alone", osc_message_u_next(c) == NULL);
	ENSURE("source_kept", mmsg_is(u, x));
	t_osc_msg_u *gone = which ? u : c, *kept = which ? c : u;
	if(spoil) spoil_message(gone);
	osc_message_u_free(gone);
	ENSURE("independent", mmsg_is(kept, x));
	ENSURE("released", !VC_IS_NATIVE || LIVE() - l0 == l1 - l0);
	osc_message_u_free(kept);
	ENSURE("all_released", LIVE() == l0);
}
static void bundle_copy(const struct mbndl *x, int which, int spoil)
{
	long l0 = LIVE();
	t_osc_bndl_u *u = mbndl_u(x), *c = NULL;
	long l1 = LIVE();
	ENSURE("ok", osc_bundle_u_copy(&c, u) == OSC_ERR_NONE);
	ENSURE("equal", c != u && mbndl_is(c, x));
	ENSURE("source_kept", mbndl_is(u, x));
	t_osc_bndl_u *gone = which ? u : c, *kept = which ? c : u;
	if(spoil) spoil_bundle(gone);
	osc_bundle_u_free(gone);
	ENSURE("independent", mbndl_is(kept, x));
	osc_bundle_u_free(kept);
	ENSURE("all_released", LIVE() == l0);
	(void)l1;
}
//@ proof copy_message_sweep prop=C25 cbmc=0 kind=bounded bound="run-time contract on sampled messages of up to 12 arguments, nested bundles included" sweep=6 functions=osc_message_u_deepCopy,osc_message_u_free,osc_atom_u_copy,osc_atom_u_copyInto,osc_bundle_u_copy
void copy_message_sweep(void)
{
	static struct mbndl x; do mbndl_any(&x, 2); while(x.n == 0);
	message_copy(x.m, vc_bool(), vc_bool());
}
//@ proof copy_bundle_sweep prop=C25 cbmc=0 kind=bounded bound="run-time contract on sampled bundles of up to 6 messages, nested up to 2 deep" sweep=6 functions=osc_bundle_u_copy,osc_bundle_u_free,osc_message_u_free,osc_atom_u_free
void copy_bundle_sweep(void) { static struct mbndl x; mbndl_any(&x, 2); bundle_copy(&x, vc_bool(), vc_bool()); }
//@ proof copy_list_sweep prop=C25 cbmc=0 kind=bounded bound="run-time contract on sampled bundles of up to 6 messages, nested up to 2 deep" sweep=5 functions=osc_bundle_u_addMsgCopy,osc_bundle_u_addMsgWithoutDupsCopy,osc_message_u_deepCopy
void copy_list_sweep(void)
{
	static struct mbndl x; mbndl_any(&x, 1);
	long l0 = LIVE();
	t_osc_bndl_u *u = mbndl_u(&x), *v = osc_bundle_u_alloc();
	for(t_osc_msg_u *m = osc_bundle_u_getFirstMsg(u); m; m = osc_message_u_next(m)) ENSURE("ok", osc_bundle_u_addMsgCopy(v, m) == OSC_ERR_NONE);
	ENSURE("equal", mbndl_is(v, &x));
	int which = vc_bool();
	t_osc_bndl_u *gone = which ? u : v, *kept = which ? v : u;
	if(vc_bool()) spoil_bundle(gone);
	osc_bundle_u_free(gone);
	ENSURE("independent", mbndl_is(kept, &x));
	osc_bundle_u_free(kept);
	ENSURE("all_released", LIVE() == l0);
}
//@ proof copy_serialized_sweep prop=C25 cbmc=0 kind=bounded bound="run-time contract on sampled bundles of up to 6 messages, nested up to 2 deep" sweep=3 functions=osc_bundle_s_deepCopy,osc_bundle_s_deepFree
void copy_serialized_sweep(void)
{
	static struct mbndl x; mbndl_any(&x, 2);
	long l0 = LIVE();
	int z = mbndl_size(&x); char *b = vc_malloc(z), *want = vc_malloc(z); mbndl_bytes(&x, b); memcpy(want, b, z);
	long l1 = LIVE();
	t_osc_bndl_s *s = osc_bundle_s_alloc(z, b), *c = NULL;
	if(vc_bool()) c = osc_bundle_s_alloc(0, NULL);
	ENSURE("ok", osc_bundle_s_deepCopy(&c, s) == OSC_ERR_NONE);
	ENSURE("equal", osc_bundle_s_getLen(c) == z && osc_bundle_s_getPtr(c) != b && !memcmp(osc_bundle_s_getPtr(c), want, z));
	ENSURE("source_kept", osc_bundle_s_getLen(s) == z && osc_bundle_s_getPtr(s) == b && !memcmp(b, want, z));
	if(vc_bool()) { memset(osc_bundle_s_getPtr(c), 0x55, z); osc_bundle_s_deepFree(c); ENSURE("independent", !memcmp(b, want, z)); osc_bundle_s_deepFree(s); }
	else { memset(b, 0x55, z); osc_bundle_s_deepFree(s); ENSURE("independent", !memcmp(osc_bundle_s_getPtr(c), want, z)); osc_bundle_s_deepFree(c); }
	ENSURE("all_released", LIVE() == l0 + 1);
	(void)l1;
}
//@ for T,N in i,0 | d,0 | s,3 | b,4 | T,0
//@ proof copy_message_${T} prop=C25 timeout=100 kind=bounded bound="a message of one argument of fixed length, every value" unwind=14 sweep=1 absent=osc_strfmt_* functions=osc_message_u_deepCopy,osc_message_u_free
void copy_message_${T}(void)
{
	struct mmsg x; mmsg_address(&x, 3); x.argc = 1; marg_any(x.a, "${T}"[0], ${N});
	for(int k = 0; k < 4; k++) message_copy(&x, k & 1, k >> 1);
	VC_REACHED();
}
//@ proof copy_bundle_${T} prop=C25 timeout=100 kind=bounded bound="a bundle of one message of fixed shape, every value" unwind=70 sweep=1 absent=osc_strfmt_* functions=osc_bundle_u_copy,osc_bundle_u_free
void copy_bundle_${T}(void)
{
	struct mbndl x; x.n = 1;
	mmsg_address(x.m, 3); x.m[0].argc = 1; marg_any(x.m[0].a, "${T}"[0], ${N});
	for(int k = 0; k < 4; k++) bundle_copy(&x, k & 1, k >> 1);
	VC_REACHED();
}
//@ endfor
