/* Contracts for osc_atom_s.c: reading and writing one serialized argument (C03). */
#include "osc.h"
#include "osc_timetag.h"
#include "osc_atom_s.h"
#include "osc_atom_s.r"
//@ sources osc_atom_s osc_timetag osc_mem osc_util

/* ---- specification: the OSC meaning of (typetag, big-endian bytes) ---- */
enum { K_NONE, K_S32, K_U32, K_S64, K_U64, K_F32, K_F64, K_TRUE };
static int kind(char tt)
{
	switch(tt) {
	case 'c': case 'u': case 'i': return K_S32;
	case 'C': case 'U': case 'I': return K_U32;
	case 'h': return K_S64;
	case 'H': return K_U64;
	case 'f': return K_F32;
	case 'd': return K_F64;
	case 'T': return K_TRUE;
	}
	return K_NONE;
}
static int wiresize(char tt)
{
	switch(kind(tt)) {
	case K_S32: case K_U32: case K_F32: return 4;
	case K_S64: case K_U64: case K_F64: return 8;
	}
	return tt == 't' ? 8 : 0;
}
//@ for N,T in Float,float | Double,double | Int8,int8_t | Int16,int16_t | Int32,int32_t | Int64,int64_t | UInt8,uint8_t | UInt16,uint16_t | UInt32,uint32_t | UInt64,uint64_t | Int,int
static ${T} spec_${N}(const t_osc_atom_s *a)
{
	if(!a) return 0;
	switch(kind(a->typetag)) {
	case K_S32: return (${T})(int32_t)be32(a->data);
	case K_U32: return (${T})be32(a->data);
	case K_S64: return (${T})(int64_t)be64(a->data);
	case K_U64: return (${T})be64(a->data);
	case K_F32: return (${T})bits32f(be32(a->data));
	case K_F64: return (${T})bits64d(be64(a->data));
	case K_TRUE: return 1;
	}
	return 0;
}
//@ endfor
/* a floating-point value outside the target's range has no C conversion: [lo, hi) */
static int inrange(const t_osc_atom_s *a, double lo, double hi)
{
	if(!a) return 1;
	if(a->typetag == 'f') { float f = bits32f(be32(a->data)); return f > lo && f < hi; }
	if(a->typetag == 'd') { double d = bits64d(be64(a->data)); return d > lo && d < hi; }
	return 1;
}
static int spec_Bool(const t_osc_atom_s *a)
{
	if(!a) return 0;
	switch(kind(a->typetag)) {
	case K_S32: case K_U32: return be32(a->data) != 0;
	case K_S64: case K_U64: return be64(a->data) != 0;
	case K_F32: return bits32f(be32(a->data)) != 0;
	case K_F64: return bits64d(be64(a->data)) != 0;
	case K_TRUE: return 1;
	}
	return 0;
}

//@ contract float osc_atom_s_getFloat(t_osc_atom_s *a)
//@ assigns
//@ ensures value: sameval(RET, spec_Float(a))

//@ contract double osc_atom_s_getDouble(t_osc_atom_s *a)
//@ assigns
//@ ensures value: sameval(RET, spec_Double(a))

//@ for N,T,LO,HI in Int8,int8_t,-129.,128. | Int16,int16_t,-32769.,32768. | Int32,int32_t,-2147483649.,2147483648. | Int64,int64_t,-9223372036854775808.,9223372036854775808. | UInt8,uint8_t,-1.,256. | UInt16,uint16_t,-1.,65536. | UInt32,uint32_t,-1.,4294967296. | UInt64,uint64_t,-1.,18446744073709551616. | Int,int,-2147483649.,2147483648.
//@ contract ${T} osc_atom_s_get${N}(t_osc_atom_s *a)
//@ requires inrange(a, ${LO}, ${HI})
//@ assigns
//@ ensures value: RET == spec_${N}(a)

//@ endfor
//@ contract int osc_atom_s_getBool(t_osc_atom_s *a)
//@ assigns
//@ ensures value: (RET != 0) == spec_Bool(a)

//@ contract t_osc_timetag osc_atom_s_getTimetag(t_osc_atom_s *a)
//@ requires a != NULL
//@ assigns
//@ ensures seconds: RET.sec == (a->typetag == 't' ? be32(a->data) : 0)
//@ ensures fraction: RET.frac_sec == (a->typetag == 't' ? be32(a->data + 4) : 0)

//@ for N,T,TT,W,BITS in Float,float,'f',4,f32bits(v) | Int8,int8_t,'c',4,(uint32_t)(int32_t)v | Int16,int16_t,'u',4,(uint32_t)(int32_t)v | Int32,int32_t,'i',4,(uint32_t)v | UInt8,uint8_t,'C',4,(uint32_t)v | UInt16,uint16_t,'U',4,(uint32_t)v | UInt32,uint32_t,'I',4,v | Double,double,'d',8,f64bits(v) | Int64,int64_t,'h',8,(uint64_t)v | UInt64,uint64_t,'H',8,v
//@ contract void osc_atom_s_set${N}(t_osc_atom_s *a, ${T} v)
//@ assigns a != NULL: a->typetag; a != NULL && a->data == NULL: a->data; a != NULL && a->data != NULL: __CPROVER_object_upto(a->data, ${W})
//@ ensures typetag: a == NULL || a->typetag == ${TT}
//@ ensures bytes: a == NULL || (${W} == 4 ? be32(a->data) == (${BITS}) : be64(a->data) == (${BITS}))

//@ endfor
//@ contract void osc_atom_s_setTimetag(t_osc_atom_s *a, t_osc_timetag t)
//@ assigns a != NULL: a->typetag; a != NULL && a->data == NULL: a->data; a != NULL && a->data != NULL: __CPROVER_object_upto(a->data, 8)
//@ ensures bytes: a == NULL || (a->typetag == 't' && be32(a->data) == t.sec && be32(a->data + 4) == t.frac_sec)

//@ for N,TT in True,'T' | False,'F' | Nil,'N'
//@ contract void osc_atom_s_set${N}(t_osc_atom_s *a)
//@ assigns a != NULL: a->typetag
//@ ensures typetag: a == NULL || a->typetag == ${TT}

//@ endfor
/* ---- harness: an arbitrary serialized atom whose data is exactly as long as its type says ---- */
static t_osc_atom_s the_atom;
static t_osc_atom_s *any_atom(void)
{
	int null = vc_bool();
	char tt = VC_STEER ? (vc_bool() ? vc_pick("cuiCUIhHfdTFNtb.x", 17) : vc_chr(0)) : (char)vc_u8();
	REQUIRE(tt != 's');        /* strings convert with strtod/strtol: not a numeric type */
	int n = wiresize(tt);
	char *d = vc_malloc(n);
	if(n) vc_bytes(d, 4);
	if(n == 8) vc_bytes(d + 4, 4);
	the_atom.typetag = tt;
	the_atom.data = d;
	return null ? NULL : &the_atom;
}
//@ for N in Float | Double | Int8 | Int16 | Int32 | Int64 | UInt8 | UInt16 | UInt32 | UInt64 | Int | Bool
//@ proof atom_s_get${N} prop=C03 enforce=osc_atom_s_get${N} unwind=9 sweep=3
void atom_s_get${N}(void)
{
	t_osc_atom_s *a = any_atom();
	osc_atom_s_get${N}(a);
	VC_COVER("double atom", a && a->typetag == 'd');
	VC_REACHED();
}
//@ endfor
//@ proof atom_s_getTimetag prop=C03 enforce=osc_atom_s_getTimetag unwind=9 sweep=2
void atom_s_getTimetag(void) { t_osc_atom_s *a = any_atom(); REQUIRE(a); osc_atom_s_getTimetag(a); VC_COVER("timetag", a->typetag == 't'); VC_REACHED(); }

/* setters: existing data of the right size, or none yet */
static t_osc_atom_s *any_dest(int n)
{
	int null = vc_bool(), nodata = vc_bool();
	the_atom.typetag = vc_chr("cuiCUIhHfdTFNtb");
	the_atom.data = nodata ? NULL : vc_malloc(n);
	return null ? NULL : &the_atom;
}
//@ for N,IN,W in Float,vc_f32(),4 | Int8,vc_i8(),4 | Int16,vc_i16(),4 | Int32,vc_i32(),4 | UInt8,vc_u8(),4 | UInt16,vc_u16(),4 | UInt32,vc_u32(),4 | Double,vc_f64(),8 | Int64,vc_i64(),8 | UInt64,vc_u64(),8
//@ proof atom_s_set${N} prop=C03 enforce=osc_atom_s_set${N} unwind=9 sweep=2
void atom_s_set${N}(void) { t_osc_atom_s *a = any_dest(${W}); osc_atom_s_set${N}(a, ${IN}); VC_REACHED(); }
//@ endfor
//@ proof atom_s_setTimetag prop=C03 enforce=osc_atom_s_setTimetag unwind=9 sweep=2
void atom_s_setTimetag(void) { t_osc_atom_s *a = any_dest(8); t_osc_timetag t; t.sec = vc_u32(); t.frac_sec = vc_u32(); osc_atom_s_setTimetag(a, t); VC_REACHED(); }
//@ for N in True | False | Nil
//@ proof atom_s_set${N} prop=C03 enforce=osc_atom_s_set${N} unwind=9 sweep=1
void atom_s_set${N}(void) { t_osc_atom_s *a = any_dest(4); osc_atom_s_set${N}(a); VC_REACHED(); }
//@ endfor
