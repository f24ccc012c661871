/* Contracts for the serialization of bundles (C07): osc_bundle_u_nserialize, osc_bundle_s_deserialize,
 * and that what the library writes passes its own sanity check. */
#include "model.h"
//@ sources osc_bundle_u osc_bundle_s osc_message_u osc_message_s osc_bundle_iterator_u osc_bundle_iterator_s

//@ proof bndl_ser_sweep prop=C07 cbmc=0 kind=bounded bound="run-time contract on sampled bundles of up to 6 messages, nested up to 2 deep" sweep=10 functions=osc_bundle_u_nserialize,osc_bundle_u_serialize,osc_bundle_s_deserialize,osc_error_bundleSanityCheck,osc_bundle_s_getMsgCount
void bndl_ser_sweep(void)
{
	static struct mbndl x; mbndl_any(&x, 2);
	int z = mbndl_size(&x);
	char *want = vc_malloc(z);
	mbndl_bytes(&x, want);
	t_osc_bndl_u *u = mbndl_u(&x);
	if(vc_range(0, 3) == 0) {
		int cap = (int)vc_range(0, z - 1);
		char *b = vc_malloc(cap);
		ENSURE("no_success", osc_bundle_u_nserialize(b, cap, u) < (size_t)z);
	} else {
		ENSURE("query", osc_bundle_u_nserialize(NULL, 0, u) == (size_t)z && osc_bundle_u_getSerializedSize(u) == z);
		char *b = vc_malloc(z);
		ENSURE("written", osc_bundle_u_nserialize(b, z, u) == (size_t)z);
		ENSURE("layout", memcmp(b, want, z) == 0);
		t_osc_bndl_s *s = osc_bundle_u_serialize(u);
		ENSURE("length", osc_bundle_s_getLen(s) == z);
		ENSURE("serialize_bytes", memcmp(osc_bundle_s_getPtr(s), want, z) == 0);
		ENSURE("sane", osc_error_bundleSanityCheck(z, osc_bundle_s_getPtr(s)) == OSC_ERR_NONE);
		int n = -1;
		ENSURE("count", osc_bundle_s_getMsgCount(z, b, &n) == OSC_ERR_NONE && n == x.n);
		t_osc_bndl_u *r = osc_bundle_s_deserialize(z, b);
		ENSURE("round_trip", mbndl_is(r, &x));
		osc_bundle_u_free(r);
		osc_bundle_s_deepFree(s);
	}
	ENSURE("unchanged", mbndl_is(u, &x));
	osc_bundle_u_free(u);
}
//@ for SHAPE,N,A0,T0,N0,A1,T1,N1 in none,0,2,'i',0,2,'i',0 | one,1,3,'d',0,2,'i',0 | si,2,2,'s',4,5,'i',0 | bT,2,4,'b',3,2,'T',0 | hs,2,3,'h',0,3,'s',1
//@ proof bndl_write_${SHAPE} prop=C07 kind=bounded bound="two messages of fixed shape, every value and buffer size" unwind=70 sweep=1 absent=osc_strfmt_* functions=osc_bundle_u_nserialize,osc_error_bundleSanityCheck
void bndl_write_${SHAPE}(void)
{
	struct mbndl x; x.n = ${N};
	if(${N} > 0) { mmsg_address(x.m, ${A0}); x.m[0].argc = 1; marg_any(x.m[0].a, ${T0}, ${N0}); }
	if(${N} > 1) { mmsg_address(x.m + 1, ${A1}); x.m[1].argc = 1; marg_any(x.m[1].a, ${T1}, ${N1}); }
	int z = mbndl_size(&x), cap = (int)vc_range(0, z);
	char want[80];
	mbndl_bytes(&x, want);
	t_osc_bndl_u *u = mbndl_u(&x);
	char *b = vc_malloc(z);
	for(int i = 0; i < z; i++) b[i] = '@';
	size_t r = osc_bundle_u_nserialize(b, cap, u);
	for(int i = 0; i < z; i++) ENSURE("no_overrun", i < cap || b[i] == '@');
	if(cap == z) {
		ENSURE("query", osc_bundle_u_nserialize(NULL, 0, u) == (size_t)z);
		ENSURE("written", r == (size_t)z);
		for(int i = 0; i < z; i++) ENSURE("layout", b[i] == want[i]);
	} else ENSURE("no_success", r < (size_t)z);
	osc_bundle_u_free(u);
	VC_REACHED();
}
//@ proof bndl_read_${SHAPE} prop=C07 kind=bounded bound="two messages of fixed shape, every value" unwind=70 sweep=1 absent=osc_strfmt_* functions=osc_bundle_s_deserialize,osc_error_bundleSanityCheck
void bndl_read_${SHAPE}(void)
{
	struct mbndl x; x.n = ${N};
	if(${N} > 0) { mmsg_address(x.m, ${A0}); x.m[0].argc = 1; marg_any(x.m[0].a, ${T0}, ${N0}); }
	if(${N} > 1) { mmsg_address(x.m + 1, ${A1}); x.m[1].argc = 1; marg_any(x.m[1].a, ${T1}, ${N1}); }
	int z = mbndl_size(&x);
	char *b = vc_malloc(z);
	mbndl_bytes(&x, b);
	ENSURE("sane", osc_error_bundleSanityCheck(z, b) == OSC_ERR_NONE);
	t_osc_bndl_u *r = osc_bundle_s_deserialize(z, b);
	ENSURE("read", mbndl_is(r, &x));
	osc_bundle_u_free(r);
	VC_REACHED();
}
//@ endfor
