/* Contracts for osc_mem.c, osc_util.c, osc_byteorder.h and the timetag wire codec (C01, C02). */
#include "osc.h"
#include "osc_byteorder.h"
#include "osc_mem.h"
#include "osc_util.h"
#include "osc_timetag.h"
//@ sources osc_mem osc_util osc_timetag

/* ---- specification ---- */
/* fixed wire size of a typetag; -1: not a fixed-size OSC type */
static int spec_size(unsigned char tt)
{
	switch(tt) {
	case 'c': case 'C': case 'u': case 'U': case 'i': case 'I': case 'f': case 'r': case 'm': return 4;
	case 'h': case 'H': case 'd': case 't': return 8;
	case 'j': case 'J': return 16;
	case 'T': case 'F': case 'N': return 0;
	}
	return -1;
}
static int spec_swapped(unsigned char tt)
{
	switch(tt) {
	case 'c': case 'C': case 'u': case 'U': case 'i': case 'I': case 'f': case 'h': case 'H': case 'd': case 'j': case 'J': return 1;
	}
	return 0;
}
/* i-th byte of the wire form of the n bytes at d, given as the host holds them (little-endian) */
static unsigned char spec_wire(unsigned char tt, const char *d, int n, int i)
{
	return (unsigned char)(spec_swapped(tt) ? d[n - 1 - i] : d[i]);
}
/* size of a string that occupies k bytes without its NUL: next multiple of 4 above k */
static size_t spec_pad(size_t k) { return (k / 4 + 1) * 4; }
static uint64_t spec_blob(uint64_t k) { return 4 + (k + 3) / 4 * 4; }

static const char *the_str;
static size_t the_strlen;

/* the C library's strlen, for a string whose first NUL is known */
#ifdef VC_CBMC
//@ contract size_t strlen(const char *s)
//@ requires s == the_str
//@ assigns
//@ ensures length: RET == the_strlen
#endif

//@ contract size_t osc_util_getPaddedStringLen(char *s)
//@ requires s == NULL || s == the_str
//@ assigns
//@ ensures null: s != NULL || RET == 0
//@ ensures padded: s == NULL || RET == spec_pad(the_strlen)

//@ contract size_t osc_util_getPaddingForNBytes(size_t n)
//@ requires n < 0xfffffff0u
//@ assigns
//@ ensures padded: RET == spec_pad(n)

//@ contract size_t osc_util_getBlobLength(size_t blob_data_size)
//@ requires blob_data_size <= 0xffffffffu
//@ assigns
//@ ensures padded: RET == spec_blob(blob_data_size)

//@ contract size_t osc_sizeof(unsigned char typetag, char *data)
//@ requires data == NULL || (typetag != 's' && typetag != 'S') || data == the_str
//@ assigns
//@ ensures unknown: (data != NULL && typetag < 128) || RET == (size_t)-1
//@ ensures fixed: data == NULL || spec_size(typetag) < 0 || RET == (size_t)spec_size(typetag)
//@ ensures string: data == NULL || (typetag != 's' && typetag != 'S') || RET == spec_pad(the_strlen)
//@ ensures blob: data == NULL || typetag != 'b' || RET == spec_blob(be32(data))
//@ ensures bundle: data == NULL || typetag != '.' || RET == (size_t)(uint32_t)(be32(data) + 4)

//@ contract int osc_mem_shouldByteswap(unsigned char typetag)
//@ assigns
//@ ensures swapped: spec_size(typetag) < 0 || (RET != 0) == spec_swapped(typetag)
//@ ensures opaque: (typetag != 's' && typetag != 'S' && typetag != 'b' && typetag != '.') || RET == 0

//@ for F in encode | decode
//@ contract t_osc_err osc_mem_${F}Byteorder(unsigned char typetag, char *data, char **out)
//@ requires data != NULL && out != NULL && *out != NULL && spec_size(typetag) >= 0
//@ assigns spec_size(typetag) == 4: __CPROVER_object_upto(*out, 4); spec_size(typetag) == 8: __CPROVER_object_upto(*out, 8); spec_size(typetag) == 16: __CPROVER_object_upto(*out, 16)
//@ ensures ok: RET == OSC_ERR_NONE
//@ ensures b0: spec_size(typetag) < 4 || ((unsigned char)(*out)[0] == spec_wire(typetag, data, spec_size(typetag), 0) && (unsigned char)(*out)[1] == spec_wire(typetag, data, spec_size(typetag), 1) && (unsigned char)(*out)[2] == spec_wire(typetag, data, spec_size(typetag), 2) && (unsigned char)(*out)[3] == spec_wire(typetag, data, spec_size(typetag), 3))
//@ ensures b4: spec_size(typetag) < 8 || ((unsigned char)(*out)[4] == spec_wire(typetag, data, spec_size(typetag), 4) && (unsigned char)(*out)[5] == spec_wire(typetag, data, spec_size(typetag), 5) && (unsigned char)(*out)[6] == spec_wire(typetag, data, spec_size(typetag), 6) && (unsigned char)(*out)[7] == spec_wire(typetag, data, spec_size(typetag), 7))
//@ ensures b8: spec_size(typetag) < 16 || ((unsigned char)(*out)[8] == spec_wire(typetag, data, 16, 8) && (unsigned char)(*out)[9] == spec_wire(typetag, data, 16, 9) && (unsigned char)(*out)[10] == spec_wire(typetag, data, 16, 10) && (unsigned char)(*out)[11] == spec_wire(typetag, data, 16, 11) && (unsigned char)(*out)[12] == spec_wire(typetag, data, 16, 12) && (unsigned char)(*out)[13] == spec_wire(typetag, data, 16, 13) && (unsigned char)(*out)[14] == spec_wire(typetag, data, 16, 14) && (unsigned char)(*out)[15] == spec_wire(typetag, data, 16, 15))

//@ endfor
//@ contract void osc_timetag_encodeForHeader(t_osc_timetag t, char *buf)
//@ requires buf != NULL
//@ assigns __CPROVER_object_upto(buf, 8)
//@ ensures seconds: be32(buf) == t.sec
//@ ensures fraction: be32(buf + 4) == t.frac_sec

//@ contract t_osc_timetag osc_timetag_decodeFromHeader(char *buf)
//@ requires buf != NULL
//@ assigns
//@ ensures seconds: RET.sec == be32(buf)
//@ ensures fraction: RET.frac_sec == be32(buf + 4)

/* ---- C01 ---- */
//@ for F in encode | decode
//@ proof mem_${F} prop=C01 enforce=osc_mem_${F}Byteorder unwind=17 keepstatic=osc_data_lengths sweep=4
void mem_${F}(void)
{
	unsigned char tt = VC_STEER ? (unsigned char)vc_pick("cCuUiIfrmhHdtjJTFN", 18) : vc_u8();
	int n = spec_size(tt);
	REQUIRE(n >= 0);
	char *d = vc_malloc(n), *o = vc_malloc(n);
	vc_bytes(d, n);
	osc_mem_${F}Byteorder(tt, d, &o);
	VC_COVER("swap8", n == 8 && spec_swapped(tt));
	VC_COVER("plain8", n == 8 && !spec_swapped(tt));
	VC_REACHED();
}
//@ endfor
/* round trip as a lemma over the two contracts: out is determined byte by byte, twice reversed */
//@ proof mem_roundtrip prop=C01 unwind=17 sweep=4 functions=osc_mem_encodeByteorder,osc_mem_decodeByteorder
void mem_roundtrip(void)
{
	unsigned char tt = VC_STEER ? (unsigned char)vc_pick("cCuUiIfrmhHdtjJTFN", 18) : vc_u8();
	int n = spec_size(tt);
	REQUIRE(n >= 0);
	char d[16], o[16], b[16]; char *po = o, *pb = b;
	vc_bytes(d, n);
	osc_mem_encodeByteorder(tt, d, &po);
	osc_mem_decodeByteorder(tt, o, &pb);
	int k = (int)vc_range(0, 15);
	ENSURE("roundtrip", k >= n || b[k] == d[k]);
	VC_REACHED();
}
//@ proof mem_shouldswap prop=C01 enforce=osc_mem_shouldByteswap sweep=1
void mem_shouldswap(void) { osc_mem_shouldByteswap(vc_u8()); VC_REACHED(); }

/* the byte-order macros, on every operand */
//@ proof mem_macros prop=C01 unwind=17 sweep=3 functions=hton16,hton32,hton64,hton128,ntoh16,ntoh32,ntoh64,ntoh128,htonf32,ntohf32,htonf64,ntohf64
void mem_macros(void)
{
	uint16_t a = vc_u16(); uint32_t b = vc_u32(); uint64_t c = vc_u64(), c2 = vc_u64();
	uint16_t na = hton16(a); uint32_t nb = hton32(b); uint64_t nc = hton64(c);
	unsigned char *p = (unsigned char *)&na;
	ENSURE("hton16", p[0] == a >> 8 && p[1] == (a & 0xff));
	ENSURE("hton32", be32(&nb) == b);
	ENSURE("hton64", be64(&nc) == c);
	ENSURE("ntoh16", (uint16_t)ntoh16(na) == a);
	ENSURE("ntoh32", (uint32_t)ntoh32(nb) == b);
	ENSURE("ntoh64", (uint64_t)ntoh64(nc) == c);
	uint128_t q = {c, c2}, w = hton128(q), x = ntoh128(w);
	for(int i = 0; i < 16; i++) ENSURE("hton128", ((unsigned char *)&w)[i] == ((unsigned char *)&q)[15 - i]);
	ENSURE("ntoh128", x.l1 == c && x.l2 == c2);
	int32_t sb = (int32_t)b; int64_t sc = (int64_t)c;
	uint32_t nsb = hton32(sb); uint64_t nsc = hton64(sc);
	ENSURE("hton_signed", be32(&nsb) == b && be64(&nsc) == c);
	float f = bits32f(b); double g = bits64d(c);
	uint32_t nf = htonf32(f); uint64_t ng = htonf64(g);
	ENSURE("htonf32", be32(&nf) == b);
	ENSURE("htonf64", be64(&ng) == c);
	VC_REACHED();
}
//@ proof mem_tt_encode prop=C01 enforce=osc_timetag_encodeForHeader sweep=2
void mem_tt_encode(void) { char *b = vc_malloc(8); t_osc_timetag t; t.sec = vc_u32(); t.frac_sec = vc_u32(); osc_timetag_encodeForHeader(t, b); VC_REACHED(); }
//@ proof mem_tt_decode prop=C01 enforce=osc_timetag_decodeFromHeader unwind=9 sweep=2
void mem_tt_decode(void) { char *b = vc_malloc(8); vc_bytes(b, 8); osc_timetag_decodeFromHeader(b); VC_REACHED(); }

/* ---- C02 ---- */
//@ proof pad_n prop=C02 enforce=osc_util_getPaddingForNBytes sweep=2
void pad_n(void) { size_t n = vc_u64(); REQUIRE(n < 0xfffffff0u); osc_util_getPaddingForNBytes(n); VC_REACHED(); }
//@ proof pad_blob prop=C02 enforce=osc_util_getBlobLength sweep=2
void pad_blob(void) { size_t n = vc_u32(); osc_util_getBlobLength(n); VC_REACHED(); }

/* a string of any length: its bytes are irrelevant beyond where its first NUL is */
static char *any_string(void)
{
	if(!VC_IS_NATIVE) {
		size_t n = vc_u64();
		REQUIRE(n < 0xfffffff0u);
		the_strlen = n;
		char *s = vc_malloc(n + 1);
		s[n] = 0;
		the_str = s;
		return s;
	}
	int n = (int)vc_range(0, 300);
	char *s = vc_malloc(n + 1);
	for(int i = 0; i < n; i++) s[i] = 'a' + i % 26;
	s[n] = 0;
	the_strlen = n; the_str = s;
	return s;
}
//@ proof pad_string prop=C02 enforce=osc_util_getPaddedStringLen replace=strlen sweep=3 assume="strlen returns the index of the first NUL"
void pad_string(void)
{
	int null = vc_bool();
	char *s = any_string();
	osc_util_getPaddedStringLen(null ? NULL : s);
	VC_COVER("long", the_strlen > 1000000);
	VC_REACHED();
}
//@ proof sizeof_string prop=C02 enforce=osc_sizeof replace=osc_util_getPaddedStringLen,osc_util_getBlobLength keepstatic=osc_data_lengths sweep=2
void sizeof_string(void)
{
	char *s = any_string();
	osc_sizeof(vc_bool() ? 's' : 'S', s);
	VC_REACHED();
}
//@ proof sizeof_other prop=C02 enforce=osc_sizeof replace=osc_util_getPaddedStringLen,osc_util_getBlobLength keepstatic=osc_data_lengths unwind=9 sweep=3
void sizeof_other(void)
{
	unsigned char tt = vc_u8();
	REQUIRE(tt != 's' && tt != 'S');
	/* only the 4 bytes of the size field may be read */
	char *d = vc_malloc(4);
	vc_bytes(d, 4);
	osc_sizeof(tt, vc_bool() ? NULL : d);
	VC_COVER("blob", tt == 'b');
	VC_COVER("bundle", tt == '.');
	VC_REACHED();
}
