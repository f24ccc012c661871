/* Abstract messages and bundles for the serialization contracts: what is in them, and (from the OSC
 * specification alone) the bytes of their serialized form. */
#ifndef MODEL_H
#define MODEL_H
#include <string.h>
#include "osc.h"
#include "osc_mem.h"
#include "osc_timetag.h"
#include "osc_atom_u.h"
#include "osc_atom_s.h"
#include "osc_message_u.h"
#include "osc_message_s.h"
#include "osc_bundle_u.h"
#include "osc_bundle_s.h"
#include "osc_message_iterator_u.h"
#include "osc_message_iterator_s.h"
#include "osc_bundle_iterator_u.h"
#include "osc_bundle_iterator_s.h"

#ifndef M_TXT
#define M_TXT VC_MAX_CONST(6, 20)     /* longest string or blob */
#endif
#ifdef VC_CBMC
#define VC_MAX_CONST(a, b) (a)
#else
#define VC_MAX_CONST(a, b) (b)
#endif
#ifndef M_ARGS
#define M_ARGS VC_MAX_CONST(3, 12)
#endif
#ifndef M_ADR
#define M_ADR VC_MAX_CONST(5, 14)
#endif
/* text: any characters in the sweep; fixed ones in the verifier, which then knows every offset */
#ifndef M_CHR
#if VC_IS_NATIVE
#define M_CHR(alphabet, i) vc_chr(alphabet)
#else
#define M_CHR(alphabet, i) ((char)('a' + (i)))
#endif
#endif
struct mbndl;
struct marg { char t; uint64_t v; int n; struct mbndl *b; char s[M_TXT + 1]; };
struct mmsg { int al; char adr[M_ADR + 1]; int argc; struct marg a[M_ARGS]; };
#define MTAGS "cCuUiIhHfdTFNtsb"
#define PAD4(n) (((n) + 3) / 4 * 4)
#define PADSTR(n) ((n) / 4 * 4 + 4)

#ifndef M_MSGS
#define M_MSGS VC_MAX_CONST(3, 6)
#endif
struct mbndl { int n; struct mmsg m[M_MSGS]; };
static inline int mbndl_size(const struct mbndl *b);
static inline int mbndl_bytes(const struct mbndl *b, char *p);
static inline t_osc_bndl_u *mbndl_u(const struct mbndl *b);
static inline int mbndl_is(t_osc_bndl_u *u, const struct mbndl *b);
static inline int marg_size(const struct marg *a)
{
	switch(a->t) {
	case 'c': case 'C': case 'u': case 'U': case 'i': case 'I': case 'f': return 4;
	case 'h': case 'H': case 'd': case 't': return 8;
	case 's': return PADSTR(a->n);
	case 'b': return 4 + PAD4(a->n);
	}
	if(VC_IS_NATIVE && a->t == OSC_BUNDLE_TYPETAG) return 4 + mbndl_size(a->b);
	return 0;
}
/* the number an integer argument puts on the wire: its value extended to 32 bits */
static inline uint32_t marg_word(const struct marg *a)
{
	switch(a->t) {
	case 'c': return (uint32_t)(int32_t)(int8_t)a->v;
	case 'C': return (uint8_t)a->v;
	case 'u': return (uint32_t)(int32_t)(int16_t)a->v;
	case 'U': return (uint16_t)a->v;
	}
	return (uint32_t)a->v;
}
static inline int marg_bytes(const struct marg *a, char *b)
{
	int z = marg_size(a);
	for(int i = 0; i < z; i++) b[i] = 0;
	if(a->t == 's') { for(int i = 0; i < a->n; i++) b[i] = a->s[i]; }
	else if(a->t == 'b') { put32(b, a->n); for(int i = 0; i < a->n; i++) b[4 + i] = a->s[i]; }
	else if(VC_IS_NATIVE && a->t == OSC_BUNDLE_TYPETAG) { put32(b, z - 4); mbndl_bytes(a->b, b + 4); }
	else if(z == 4) put32(b, marg_word(a));
	else if(z == 8) put64(b, a->v);
	return z;
}
static inline int mmsg_size(const struct mmsg *m)      /* without the size field */
{
	int z = PADSTR(m->al) + PADSTR(1 + m->argc);
	for(int i = 0; i < m->argc; i++) z += marg_size(m->a + i);
	return z;
}
/* the serialized message, with its size field; returns the number of bytes */
static inline int mmsg_bytes(const struct mmsg *m, char *b)
{
	int z = mmsg_size(m), at = 4 + PADSTR(m->al) + PADSTR(1 + m->argc);
	put32(b, z);
	for(int i = 4; i < at; i++) b[i] = 0;
	for(int i = 0; i < m->al; i++) b[4 + i] = m->adr[i];
	b[4 + PADSTR(m->al)] = ',';
	for(int i = 0; i < m->argc; i++) { b[4 + PADSTR(m->al) + 1 + i] = m->a[i].t; at += marg_bytes(m->a + i, b + at); }
	return at;
}
static inline void marg_any(struct marg *a, char t, int n)
{
	a->t = t; a->n = 0; a->v = 0; a->b = NULL;
	switch(t) {
	case 'c': case 'C': a->v = vc_u8(); break;
	case 'u': case 'U': a->v = vc_u16(); break;
	case 'i': case 'I': case 'f': a->v = vc_u32(); break;
	case 'h': case 'H': case 'd': case 't': a->v = vc_u64(); break;
	case 's': a->n = n; for(int i = 0; i < n; i++) a->s[i] = M_CHR("ab ,/", i); break;
	case 'b': a->n = n; for(int i = 0; i < n; i++) a->s[i] = (char)vc_u8(); break;
	}
	if(t == 'f' || t == 'd') a->v = a->t == 'f' && bits32f((uint32_t)a->v) != bits32f((uint32_t)a->v) ? 0x7fc00000 : a->t == 'd' && bits64d(a->v) != bits64d(a->v) ? 0x7ff8000000000000 : a->v;
	a->s[a->n] = 0;
}
static inline void mmsg_address(struct mmsg *m, int al)
{
	m->al = al; m->adr[0] = '/';
	for(int i = 1; i < al; i++) m->adr[i] = M_CHR("abc/", i);
	m->adr[al] = 0;
}
/* native: any message */
static inline void mmsg_any(struct mmsg *m)
{
	int n = (int)vc_range(0, M_ARGS);
	if(VC_STEER && vc_range(0, 1)) n = (int)vc_range(0, 3);
	mmsg_address(m, (int)vc_range(2, M_ADR));
	m->argc = n;
	for(int i = 0; i < n; i++) { int l = (int)vc_range(0, M_TXT); marg_any(m->a + i, vc_pick(MTAGS, (int)sizeof(MTAGS) - 1), l); }
}
static inline t_osc_atom_u *marg_u(const struct marg *a)
{
	t_osc_atom_u *u = osc_atom_u_alloc();
	switch(a->t) {
	case 'c': osc_atom_u_setInt8(u, (int8_t)a->v); break;
	case 'C': osc_atom_u_setUInt8(u, (uint8_t)a->v); break;
	case 'u': osc_atom_u_setInt16(u, (int16_t)a->v); break;
	case 'U': osc_atom_u_setUInt16(u, (uint16_t)a->v); break;
	case 'i': osc_atom_u_setInt32(u, (int32_t)a->v); break;
	case 'I': osc_atom_u_setUInt32(u, (uint32_t)a->v); break;
	case 'h': osc_atom_u_setInt64(u, (int64_t)a->v); break;
	case 'H': osc_atom_u_setUInt64(u, a->v); break;
	case 'f': osc_atom_u_setFloat(u, bits32f((uint32_t)a->v)); break;
	case 'd': osc_atom_u_setDouble(u, bits64d(a->v)); break;
	case 'T': osc_atom_u_setTrue(u); break;
	case 'F': osc_atom_u_setFalse(u); break;
	case 'N': osc_atom_u_setNil(u); break;
	case 't': { t_osc_timetag t; t.sec = a->v >> 32; t.frac_sec = (uint32_t)a->v; osc_atom_u_setTimetag(u, t); break; }
	case 's': osc_atom_u_setString(u, a->s); break;
	case 'b': { char b[M_TXT + 4]; put32(b, a->n); for(int i = 0; i < a->n; i++) b[4 + i] = a->s[i]; osc_atom_u_setBlob(u, b); break; }
	}
	if(VC_IS_NATIVE && a->t == OSC_BUNDLE_TYPETAG) osc_atom_u_setBndl_u(u, mbndl_u(a->b));
	return u;
}
static inline t_osc_msg_u *mmsg_u(const struct mmsg *m)
{
	t_osc_msg_u *u = osc_message_u_alloc();
	osc_message_u_setAddress(u, m->adr);
	for(int i = 0; i < m->argc; i++) osc_message_u_appendAtom(u, marg_u(m->a + i));
	return u;
}
static inline int marg_is(t_osc_atom_u *u, const struct marg *a)
{
	if(!u || osc_atom_u_getTypetag(u) != a->t) return 0;
	switch(a->t) {
	case 'c': return osc_atom_u_getInt8(u) == (int8_t)a->v;
	case 'C': return osc_atom_u_getUInt8(u) == (uint8_t)a->v;
	case 'u': return osc_atom_u_getInt16(u) == (int16_t)a->v;
	case 'U': return osc_atom_u_getUInt16(u) == (uint16_t)a->v;
	case 'i': return osc_atom_u_getInt32(u) == (int32_t)a->v;
	case 'I': return osc_atom_u_getUInt32(u) == (uint32_t)a->v;
	case 'h': return osc_atom_u_getInt64(u) == (int64_t)a->v;
	case 'H': return osc_atom_u_getUInt64(u) == a->v;
	case 'f': return f32bits(osc_atom_u_getFloat(u)) == (uint32_t)a->v;
	case 'd': return f64bits(osc_atom_u_getDouble(u)) == a->v;
	case 't': { t_osc_timetag t = osc_atom_u_getTimetag(u); return t.sec == (uint32_t)(a->v >> 32) && t.frac_sec == (uint32_t)a->v; }
	case 's': { char *s = osc_atom_u_getStringPtr(u); if(!s) return 0; for(int i = 0; i <= a->n; i++) if(s[i] != a->s[i]) return 0; return 1; }
	case 'b': { char *s = osc_atom_u_getBlob(u); if(!s || be32(s) != (uint32_t)a->n) return 0; for(int i = 0; i < a->n; i++) if(s[4 + i] != a->s[i]) return 0; return 1; }
	}
	if(VC_IS_NATIVE && a->t == OSC_BUNDLE_TYPETAG) return mbndl_is(osc_atom_u_getBndl(u), a->b);
	return 1;
}
static inline int mmsg_is(t_osc_msg_u *u, const struct mmsg *m)
{
	char *adr = u ? osc_message_u_getAddress(u) : NULL;
	if(!adr || osc_message_u_getArgCount(u) != m->argc) return 0;
	for(int i = 0; i <= m->al; i++) if(adr[i] != m->adr[i]) return 0;
	for(int i = 0; i < m->argc; i++) if(!marg_is(osc_message_u_getArg(u, i), m->a + i)) return 0;
	return 1;
}
static inline int mbndl_size(const struct mbndl *b)
{
	int z = 16;
	for(int i = 0; i < b->n; i++) z += 4 + mmsg_size(b->m + i);
	return z;
}
static inline int mbndl_bytes(const struct mbndl *b, char *p)
{
	int at = 16;
	for(int i = 0; i < 16; i++) p[i] = i < 7 ? "#bundle"[i] : 0;
	for(int i = 0; i < b->n; i++) at += mmsg_bytes(b->m + i, p + at);
	return at;
}
static inline t_osc_bndl_u *mbndl_u(const struct mbndl *b)
{
	t_osc_bndl_u *u = osc_bundle_u_alloc();
	for(int i = 0; i < b->n; i++) osc_bundle_u_addMsg(u, mmsg_u(b->m + i));
	return u;
}
static inline int mbndl_is(t_osc_bndl_u *u, const struct mbndl *b)
{
	if(!u || osc_bundle_u_getMsgCount(u) != b->n) return 0;
	int i = 0;
	for(t_osc_msg_u *m = osc_bundle_u_getFirstMsg(u); m; m = osc_message_u_next(m)) { if(i >= b->n || !mmsg_is(m, b->m + i)) return 0; i++; }
	return i == b->n;
}
/* native: any bundle, nested up to the given depth */
static inline void mbndl_any(struct mbndl *b, int depth)
{
	b->n = (int)vc_range(0, M_MSGS);
	for(int i = 0; i < b->n; i++) {
		mmsg_any(b->m + i);
		if(depth > 0) for(int j = 0; j < b->m[i].argc; j++) if(vc_range(0, 7) == 0) {
			struct marg *a = b->m[i].a + j;
			a->t = OSC_BUNDLE_TYPETAG; a->v = 0; a->n = 0; a->s[0] = 0;
			a->b = (struct mbndl *)vc_malloc(sizeof(struct mbndl));
			mbndl_any(a->b, depth - 1);
		}
	}
}
#endif
