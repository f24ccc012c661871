/* Contracts for osc_error.c: bundle sanity check (C08) and address validation (C23). */
#include "osc.h"
#include "osc_error.h"
//@ sources osc_error osc_bundle_s osc_mem

/* ---- specification: messages of at least 4 bytes that begin with '/' tile the block behind the header ---- */
static int spec_header(const char *b, long len)
{
	return len >= 16 && b[0] == '#' && b[1] == 'b' && b[2] == 'u' && b[3] == 'n' && b[4] == 'd' && b[5] == 'l' && b[6] == 'e' && b[7] == 0;
}
static int spec_tiles(const char *b, long len)
{
	long at = 16;
	while(at < len) {
		if(len - at < 4) return 0;
		int32_t size = (int32_t)be32(b + at);
		if(size < 4 || size > len - at - 4) return 0;
		if(b[at + 4] != '/') return 0;
		at += 4 + size;
	}
	return 1;
}
//@ proof sanity_block prop=C08 kind=bounded bound="run-time contract on sampled blocks of at most 90 bytes" cbmc=0 sweep=8 functions=osc_error_bundleSanityCheck,osc_error_msgSanityCheck,osc_bundle_s_strcmpID cost=4
void sanity_block(void)
{
	int n = (int)vc_range(0, VC_MAX(30, 90));
	char *b = vc_malloc(n);
	vc_bytes(b, n);
	if(VC_STEER && n >= 16 && vc_range(0, 9)) {
		/* steer the random sweep: a header and plausible messages, then a few hostile changes */
		memcpy(b, "#bundle", 8);
		long at = 16;
		while(at + 8 <= n) {
			int size = (int)vc_range(1, 6) * 4;
			if(size > n - at - 4 || vc_range(0, 3) == 0) size = (int)(n - at - 4);
			put32(b + at, size); b[at + 4] = '/'; at += 4 + size;
		}
		switch(vc_range(0, 4)) {
		case 0: b[vc_range(0, n - 1)] = (char)vc_u8(); break;
		case 1: if(n >= 24) put32(b + 16, vc_u32()); break;
		case 2: if(n >= 24) put32(b + 16, (uint32_t)vc_range(-5, 100)); break;
		}
	}
	int ok = spec_header(b, n) && spec_tiles(b, n);
	t_osc_err e = osc_error_bundleSanityCheck(n, b);
	ENSURE("accepts_exactly_wellformed", (e == OSC_ERR_NONE) == ok);
	if(n < 16) ENSURE("too_small", e == OSC_ERR_BUNDLETOOSMALL);
	else if(!spec_header(b, n)) ENSURE("no_id", e == OSC_ERR_NOBUNDLEID);
	VC_COVER("two_messages", ok && n > 26 && be32(b + 16) < 12);
	VC_COVER("reject_late", !ok && spec_header(b, n) && n > 28 && be32(b + 16) == 5 && b[20] == '/');
	VC_REACHED();
}
#ifdef VC_CBMC
/* tiles[k]: messages tile the block from offset k on. Defined by its unfolding, which is assumed at
 * the offsets the loop visits (each unfolding refers to a later offset only). */
unsigned char *osc_ghost_tiles;
void osc_ghost_tiles_unfold(int len, char *bundle, char *ptr)
{
	long k = ptr - bundle;
	if(k >= len) { __CPROVER_assume(osc_ghost_tiles[k] == 1); return; }
	int ok = 0;
	if(len - k >= 4) {
		int32_t size = (int32_t)be32(ptr);
		if(size >= 4 && size <= len - k - 4 && ptr[4] == '/') ok = osc_ghost_tiles[k + 4 + size] != 0;
	}
	__CPROVER_assume((osc_ghost_tiles[k] != 0) == ok);
}
#endif
//@ proof sanity_any prop=C08 loops=1 unwind=9 sweep=0 functions=osc_error_bundleSanityCheck,osc_error_msgSanityCheck,osc_bundle_s_strcmpID cost=3
void sanity_any(void)
{
#ifdef VC_CBMC
	int32_t len = (int32_t)vc_range(0, 0x7fffffff);
	char *b = malloc(len);
	unsigned char *g = malloc((size_t)len + 1);
	g[len] = 1;
	osc_ghost_tiles = g;
	t_osc_err e = osc_error_bundleSanityCheck(len, b);
	ENSURE("accepts_exactly_wellformed", (e == OSC_ERR_NONE) == (spec_header(b, len) && g[16] != 0));
	VC_COVER("accepted", e == OSC_ERR_NONE && len > 100);
	VC_COVER("rejected", e == OSC_ERR_MSGTOOLARGE && len > 100);
	VC_REACHED();
#endif
}
//@ proof sanity_args prop=C08 unwind=9 sweep=1 functions=osc_error_bundleSanityCheck
void sanity_args(void)
{
	char *b = vc_malloc(16); vc_bytes(b, 16);
	int32_t len = vc_i32();
	ENSURE("null", osc_error_bundleSanityCheck(len, NULL) == OSC_ERR_NOBUNDLE);
	if(len < 16) ENSURE("short", osc_error_bundleSanityCheck(len, b) == OSC_ERR_BUNDLETOOSMALL);
	ENSURE("empty_bundle", (osc_error_bundleSanityCheck(16, b) == OSC_ERR_NONE) == spec_header(b, 16));
	VC_REACHED();
}
//@ proof sanity_msg prop=C08 sweep=1 functions=osc_error_msgSanityCheck
void sanity_msg(void)
{
	/* only the first five bytes may be read of a message that claims at least four */
	int claimed = vc_bool();
	char *m = vc_malloc(claimed ? 5 : 4);
	put32(m, vc_u32());
	if(claimed) m[4] = (char)vc_u8(); else REQUIRE((int32_t)be32(m) < 4);
	t_osc_err e = osc_error_msgSanityCheck(m);
	if((int32_t)be32(m) < 4) ENSURE("too_small", e == OSC_ERR_MSGTOOSMALL);
	else ENSURE("address", e == (m[4] == '/' ? OSC_ERR_NONE : OSC_ERR_MALFORMEDADDRESS));
	VC_REACHED();
}

#ifdef VC_CBMC
/* illegal[k]: a forbidden character at or behind position k. Defined by its unfolding at the visited positions. */
unsigned char *osc_ghost_illegal;
static char *the_str; static size_t the_strlen;
void osc_ghost_illegal_unfold(char *address, int i, int len)
{
	if(i < len) {
		__CPROVER_assume(address[i] != 0);       /* instance of strlen's definition */
		__CPROVER_assume((osc_ghost_illegal[i] != 0) == (address[i] == '#' || address[i] == ' ' || osc_ghost_illegal[i + 1]));
	}
}
//@ contract size_t strlen(const char *s)
//@ requires s == the_str
//@ assigns
//@ ensures length: RET == the_strlen
#endif
//@ proof validate_any prop=C23 loops=1 sweep=0 replace=strlen functions=osc_error_validateAddress assume="strings shorter than 2^31"
void validate_any(void)
{
#ifdef VC_CBMC
	the_strlen = (size_t)vc_range(0, 0x7ffffffe);
	char *s = the_str = malloc(the_strlen + 1);
	unsigned char *g = malloc(the_strlen + 1);
	s[the_strlen] = 0;
	g[the_strlen] = 0;
	if(the_strlen > 0) __CPROVER_assume(s[0] != 0);
	osc_ghost_illegal = g;
	t_osc_err e = osc_error_validateAddress(s);
	int shape = the_strlen >= 2 && s[0] == '/';
	ENSURE("reason", e == (!shape ? OSC_ERR_MALFORMEDADDRESS : g[0] ? OSC_ERR_INVALIDCHARINADDRESS : OSC_ERR_NONE));
	VC_COVER("accepted", e == OSC_ERR_NONE && the_strlen > 50);
	VC_COVER("illegal", e == OSC_ERR_INVALIDCHARINADDRESS && the_strlen > 50);
	VC_REACHED();
#endif
}
//@ proof validateAddress prop=C23 kind=bounded bound="strings of at most 6 characters, every content" unwind=9 sweep=4 functions=osc_error_validateAddress
void validateAddress(void)
{
	int n = (int)vc_range(0, VC_MAX(6, 40)), bad = 0;
	char *s = vc_malloc(n + 1);
	for(int i = 0; i < n; i++) { s[i] = vc_chr("/ab*?[]{}# ,\x7f\x80"); bad |= s[i] == '#' || s[i] == ' '; }
	if(VC_STEER && n) { if(vc_range(0, 7)) s[0] = '/'; if(vc_bool()) { bad = 0; for(int i = 0; i < n; i++) if(s[i] == '#' || s[i] == ' ') s[i] = '_'; } else bad = 0; }
	s[n] = 0;
	if(VC_STEER) for(int i = 0; i < n; i++) bad |= s[i] == '#' || s[i] == ' ';
	t_osc_err e = osc_error_validateAddress(s);
	ENSURE("accept", (e == OSC_ERR_NONE) == (n >= 2 && s[0] == '/' && !bad));
	ENSURE("reason", e == (n < 2 || s[0] != '/' ? OSC_ERR_MALFORMEDADDRESS : bad ? OSC_ERR_INVALIDCHARINADDRESS : OSC_ERR_NONE));
	ENSURE("null", osc_error_validateAddress(NULL) == OSC_ERR_NULLPTR);
	VC_COVER("accepted", e == OSC_ERR_NONE && n > 3);
	VC_REACHED();
}
