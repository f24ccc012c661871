/* Contracts for the serialization of messages (C06): osc_message_u_nserialize, osc_message_s_deserialize. */
#include "model.h"
//@ sources osc_message_u osc_message_s osc_message_iterator_u osc_message_iterator_s

/* the serialized form and the round trip of the message x */
static void msg_roundtrip(struct mmsg *x)
{
	int z = mmsg_size(x) + 4;
	char *want = vc_malloc(z);
	mmsg_bytes(x, want);
	t_osc_msg_u *m = mmsg_u(x);
	ENSURE("query", osc_message_u_nserialize(NULL, 0, m) == (size_t)z && osc_message_u_getSerializedSize(m) == z);
	char *b = vc_malloc(z);
	ENSURE("written", osc_message_u_nserialize(b, z, m) == (size_t)z);
	for(int i = 0; i < z; i++) ENSURE("layout", b[i] == want[i]);
	t_osc_msg_s *s = osc_message_u_serialize(m);
	ENSURE("wrapped", osc_message_s_getSize(s) == z - 4 && osc_message_s_getArgCount(s) == x->argc);
	for(int i = 0; i < z; i++) ENSURE("serialize_bytes", osc_message_s_getPtr(s)[i] == want[i]);
	t_osc_msg_u *r = osc_message_s_deserialize(s);
	ENSURE("round_trip", mmsg_is(r, x));
	ENSURE("unchanged", mmsg_is(m, x));
	osc_message_s_deepFree(s);
	osc_message_u_free(m);
	osc_message_u_free(r);
}
/* a buffer of any size below the size needed: nothing is written behind it */
static void msg_short(struct mmsg *x, int cap)
{
	int z = mmsg_size(x) + 4;
	REQUIRE(cap < z);
	t_osc_msg_u *m = mmsg_u(x);
	char *b = vc_malloc(cap);
	size_t r = osc_message_u_nserialize(b, cap, m);
	ENSURE("no_success", r < (size_t)z);
	ENSURE("unchanged", mmsg_is(m, x));
	osc_message_u_free(m);
}
//@ proof msg_ser_sweep prop=C06 cbmc=0 kind=bounded bound="run-time contract on sampled messages of up to 12 arguments" sweep=8 functions=osc_message_u_nserialize,osc_message_u_serialize,osc_message_s_deserialize
void msg_ser_sweep(void)
{
	struct mmsg x; mmsg_any(&x);
	if(vc_bool()) msg_roundtrip(&x); else { msg_short(&x, (int)vc_range(0, mmsg_size(&x) + 3)); }
}
/* writing: the size query, and the bytes written for every buffer size */
static void msg_write(struct mmsg *x, int cap)
{
	int z = mmsg_size(x) + 4;
	char want[64];
	mmsg_bytes(x, want);
	t_osc_msg_u *m = mmsg_u(x);
	char *b = vc_malloc(z);
	for(int i = 0; i < z; i++) b[i] = '#';
	size_t r = osc_message_u_nserialize(b, cap, m);
	for(int i = 0; i < z; i++) ENSURE("no_overrun", i < cap || b[i] == '#');
	if(cap >= z) {
		ENSURE("query", osc_message_u_nserialize(NULL, 0, m) == (size_t)z);
		ENSURE("written", r == (size_t)z);
		for(int i = 0; i < z; i++) ENSURE("layout", b[i] == want[i]);
	} else ENSURE("no_success", r < (size_t)z);
}
/* reading: every well-formed serialized message */
static void msg_read(struct mmsg *x)
{
	int z = mmsg_size(x) + 4;
	char *b = vc_malloc(z);
	mmsg_bytes(x, b);
	t_osc_msg_s *s = osc_message_s_alloc();
	osc_message_s_wrap(s, b);
	t_osc_msg_u *r = osc_message_s_deserialize(s);
	ENSURE("read", mmsg_is(r, x));
}
//@ for SHAPE,T0,N0,T1,N1,C,A in empty,'i',0,'i',0,0,3 | c,'c',0,'i',0,1,2 | ud,'u',0,'d',0,2,4 | Tb,'T',0,'b',3,2,5 | sF,'s',4,'F',0,2,3 | bs,'b',0,'s',2,2,2 | hN,'h',0,'N',0,2,4 | tf,'t',0,'f',0,2,3 | sb,'s',3,'b',4,2,3
//@ proof msg_write_${SHAPE} prop=C06 kind=bounded bound="two arguments of fixed types, every value, content and buffer size" unwind=34 sweep=1 absent=osc_strfmt_*,osc_bundle_u_*,osc_bundle_s_deserialize functions=osc_message_u_nserialize
void msg_write_${SHAPE}(void)
{
	struct mmsg x; mmsg_address(&x, ${A}); x.argc = ${C};
	if(${C} > 0) marg_any(x.a, ${T0}, ${N0});
	if(${C} > 1) marg_any(x.a + 1, ${T1}, ${N1});
	int z = mmsg_size(&x) + 4, cap = (int)vc_range(0, z);
	msg_write(&x, cap);
	VC_REACHED();
}
//@ proof msg_read_${SHAPE} prop=C06 kind=bounded bound="two arguments of fixed types, every value and content" unwind=34 sweep=1 absent=osc_strfmt_*,osc_bundle_u_*,osc_bundle_s_deserialize functions=osc_message_s_deserialize,osc_message_s_wrap
void msg_read_${SHAPE}(void)
{
	struct mmsg x; mmsg_address(&x, ${A}); x.argc = ${C};
	if(${C} > 0) marg_any(x.a, ${T0}, ${N0});
	if(${C} > 1) marg_any(x.a + 1, ${T1}, ${N1});
	msg_read(&x);
	VC_REACHED();
}
//@ endfor
