/* Contracts for the byte-stream parser osc_serial.c (C19). */
#include "osc.h"
#include "osc_serial.h"
#include "model.h"
//@ sources osc_serial

/* The parser's state as one record: where in the stream it is, and how many bytes of that part are
 * left (in a bundle) or done (outside).  pack() is the documented encoding of osc_serial.h. */
enum { START, ID, TIMETAG, SIZE, SIZED, ADR, CURLY, COMMA, SQUARE, DASH, ADRPAD, TAGS, TAGPAD, DATA, WHERE };
struct st { int w, inb; uint32_t n; int ok; };
static uint64_t pack(struct st x)
{
	uint64_t macro = x.inb ? OSC_SERIAL_BUNDLE_MESSAGE : OSC_SERIAL_MESSAGE, adr = macro | OSC_SERIAL_MESSAGE_ADDRESS, tt = macro | OSC_SERIAL_MESSAGE_TYPETAGS;
	switch(x.w) {
	case START: return OSC_SERIAL_INIT;
	case ID: return OSC_SERIAL_BUNDLE_HEADER | OSC_SERIAL_BUNDLE_HEADER_ID | x.n;
	case TIMETAG: return OSC_SERIAL_BUNDLE_HEADER | OSC_SERIAL_BUNDLE_HEADER_TIMETAG | x.n;
	case SIZE: return macro | OSC_SERIAL_MESSAGE_SIZE | x.n;
	case SIZED: return macro | OSC_SERIAL_MESSAGE_SIZE | OSC_SERIAL_MESSAGE_SIZE_COMPLETE | x.n;
	case ADR: return adr | x.n;
	case CURLY: return adr | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS | x.n;
	case COMMA: return adr | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS_COMMA | x.n;
	case SQUARE: return adr | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS | x.n;
	case DASH: return adr | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS_DASH | x.n;
	case ADRPAD: return adr | OSC_SERIAL_MESSAGE_ADDRESS_NULLPADDING | x.n;
	case TAGS: return tt | x.n;
	case TAGPAD: return tt | OSC_SERIAL_MESSAGE_TYPETAGS_NULLPADDING | x.n;
	default: return macro | OSC_SERIAL_MESSAGE_DATA | x.n;
	}
}
/* the states that a stream can be in */
static int state(struct st x)
{
	if(x.w < 0 || x.w >= WHERE || (x.inb != 0 && x.inb != 1)) return 0;
	switch(x.w) {
	case START: return x.n == 0;
	case ID: case TIMETAG: return x.n < 8;
	case SIZE: return x.inb && ((x.n & 0xff) == 0 || (x.n & 0xff) == 1 || (x.n & 0xff) == 2) && ((x.n & 0xff) != 0 || (x.n & 0xffff00) == 0) && ((x.n & 0xff) != 1 || (x.n & 0xff00) == 0);
	case SIZED: return x.inb && x.n % 4 == 0 && x.n < 0x80000000;
	default: return x.inb ? x.n < 0x80000000 : x.n < 0xffffffff;
	}
}
static int tag(char b)
{
	const char *k = "cCuUiIhHfdsbTFNt."; 
	for(int i = 0; i < 17; i++) if(k[i] == b) return 1;
	return 0;
}
static struct st at(int w, int inb, uint32_t n) { struct st x; x.w = w; x.inb = inb; x.n = n; return x; }
/* may byte b come next, and where does that lead? */
static struct st step(struct st x, char c)
{
	uint8_t b = (uint8_t)c; uint32_t top = (uint32_t)b << 24, next = x.inb ? x.n - 1 : x.n + 1;
	int aligned = x.inb ? x.n % 4 == 0 : x.n % 4 == 3, w = x.w;
	struct st y = x;
	switch(x.w) {
	case START: y = at(c == '#' ? ID : ADR, 0, 0); { y.ok = c == '#' || c == '/'; return y; }
	case ID:
		if(x.n == 7) { y = at(TIMETAG, 0, 0); { y.ok = 1; return y; } }
		y = at(ID, 0, x.n + 1); { y.ok = c == "bundle"[x.n]; return y; }
	case TIMETAG: y = x.n == 7 ? at(SIZE, 1, top) : at(TIMETAG, 0, x.n + 1); { y.ok = 1; return y; }
	case SIZE:
		if((x.n & 0xff) == 0) { y = at(SIZE, 1, x.n + ((uint32_t)b << 16) + 1); { y.ok = 1; return y; } }
		if((x.n & 0xff) == 1) { y = at(SIZE, 1, x.n + ((uint32_t)b << 8) + 1); { y.ok = 1; return y; } }
		y = at(SIZED, 1, (x.n & 0xffffff00) + b); { y.ok = y.n % 4 == 0 && y.n < 0x80000000; return y; }
	case SIZED: y = at(ADR, 1, x.n - 1); { y.ok = c == '/' && x.n > 0; return y; }
	case DATA: y = x.inb && x.n == 0 ? at(SIZE, 1, top) : at(DATA, x.inb, next); { y.ok = 1; return y; }
	case TAGPAD:
		if(x.inb && x.n == 0) { y = at(SIZE, 1, top); { y.ok = 1; return y; } }
		y = at(aligned ? DATA : TAGPAD, x.inb, next); { y.ok = aligned || c == 0; return y; }
	}
	if(x.inb && x.n == 0) { y.ok = 0; return y; } /* the message ends before its typetags do */
	switch(x.w) {
	case ADR: if(c == ']' || c == '}') { y.ok = 0; return y; } w = c == '[' ? SQUARE : c == '{' ? CURLY : c == 0 ? ADRPAD : ADR; break;
	case COMMA: if(c == ',') { y.ok = 0; return y; } /* fall through */
	case CURLY: if(c == '[' || c == ']' || c == '{' || c == '*' || c == '?' || c == 0) { y.ok = 0; return y; } w = c == '}' ? ADR : c == ',' ? COMMA : CURLY; break;
	case DASH: if(c == '-') { y.ok = 0; return y; } /* fall through */
	case SQUARE: if(c == '{' || c == '}' || c == '[' || c == '*' || c == '?' || c == 0) { y.ok = 0; return y; } w = c == ']' ? ADR : c == '-' ? DASH : SQUARE; break;
	case ADRPAD: if(c != (aligned ? ',' : 0)) { y.ok = 0; return y; } w = aligned ? TAGS : ADRPAD; break;
	case TAGS: if(c != 0 && !tag(c)) { y.ok = 0; return y; } w = c == 0 ? TAGPAD : TAGS; break;
	}
	y = at(w, x.inb, next);
	{ y.ok = 1; return y; }
}
static struct st g_x, g_y;
static int g_any;

//@ contract uint64_t osc_serial_processByte(char b, uint64_t s)
//@ requires g_any || (state(g_x) && s == pack(g_x))
//@ assigns
//@ ensures accepted: g_any || !step(g_x, b).ok || RET == pack(step(g_x, b))
//@ ensures rejected: g_any || step(g_x, b).ok || (RET & OSC_SERIAL_ERROR_MASK) != 0

static const char BYTES[] = "#bundle\0/[]{}-*?,ab" "cCuUiIhHfdsbTFNt.";
static char byte_in(void) { return VC_STEER && vc_range(0, 3) ? vc_pick(BYTES, sizeof(BYTES)) : (char)vc_u8(); }
static void state_in(void)
{
	g_any = 0; g_x.w = (int)vc_range(0, WHERE - 1); g_x.inb = vc_bool(); g_x.n = vc_u32();
	if(VC_STEER) { if(vc_bool() || g_x.w <= TIMETAG) g_x.n &= g_x.w == START ? 0 : 7; if(g_x.w == SIZED) g_x.n &= ~3u; if(g_x.w == SIZE) g_x.n = (g_x.n & 0xff000000) | 0; }
	REQUIRE(state(g_x));
}
//@ proof serial_step prop=C19 enforce=osc_serial_processByte unwind=20 sweep=3
void serial_step(void)
{
	state_in(); char b = byte_in(); g_y = step(g_x, b);
	osc_serial_processByte(b, pack(g_x)); VC_REACHED();
}
//@ proof serial_lemma prop=C19 replace=osc_serial_processByte unwind=20 sweep=2
/* lemma: an accepted byte leads to a state again, so by induction the contract holds after every history */
void serial_lemma(void)
{
	state_in(); char b = byte_in(); g_y = step(g_x, b);
	uint64_t r = osc_serial_processByte(b, pack(g_x));
	ENSURE("stays_in_the_states", !g_y.ok || g_y.n == 0xffffffff || state(g_y));
	ENSURE("no_error", !g_y.ok || g_y.n == 0xffffffff || (r & OSC_SERIAL_ERROR_MASK) == 0);
	VC_REACHED();
}
//@ proof serial_init prop=C19 functions=osc_serial_errorp
void serial_init(void) { ENSURE("initial_state", pack(at(START, 0, 0)) == OSC_SERIAL_INIT && OSC_SERIAL_INIT == 0); VC_REACHED(); }
//@ contract int osc_serial_errorp(uint64_t state)
//@ assigns
//@ ensures errorp: (RET != 0) == ((state >> 32 & 0xff) != 0)
//@ proof serial_errorp prop=C19 enforce=osc_serial_errorp
void serial_errorp(void) { osc_serial_errorp(vc_u64()); VC_REACHED(); }

char *osc_serial_macroStr(uint64_t s);
char *osc_serial_stateStr(uint64_t s);
char *osc_serial_microStr(uint64_t s);
uint32_t osc_serial_counter(uint64_t s);
//@ proof serial_text prop=C19 unwind=12 sweep=1 functions=osc_serial_errstr,osc_serial_macroStr,osc_serial_stateStr,osc_serial_microStr,osc_serial_counter
/* any 64-bit word at all: no read outside the tables, a readable text or (unknown error) NULL */
void serial_text(void)
{
	uint64_t s = vc_u64(); char *e = osc_serial_errstr(s);
	int err = (int)(s >> 32 & 0xff);
	ENSURE("errstr", (e != NULL) == (err < 16));
	if(e) ENSURE("errstr_readable", (e[0] == 0) == (err == 0));
	char *a = osc_serial_macroStr(s), *b = osc_serial_stateStr(s), *c = osc_serial_microStr(s);
	ENSURE("texts", a && b && c && (a[0] == 0 || a[0] != 0) && (b[0] == 0 || b[0] != 0) && (c[0] == 0 || c[0] != 0));
	ENSURE("macro", !(s >> 56 == 1) || a[0] == 'b'); 
	ENSURE("counter", osc_serial_counter(s) == (uint32_t)s);
	VC_REACHED();
}
//@ proof serial_anything prop=C19 sweep=1 functions=osc_serial_processByte
/* any byte in any 64-bit word: no undefined behaviour */
void serial_anything(void) { g_any = 1; osc_serial_processByte((char)vc_u8(), vc_u64()); VC_REACHED(); }
//@ proof serial_streams prop=C19 cbmc=0 kind=bounded bound="run-time contract on sampled bundles, with and without one changed byte" sweep=6 functions=osc_serial_processByte
void serial_streams(void)
{
	g_any = 0;
	static struct mbndl b; struct mbndl *x = &b; mbndl_any(x, 1);
	int len = mbndl_size(x), naked = x->n > 0 && vc_bool(), from = 0;
	char *p = vc_malloc(len + 1); mbndl_bytes(x, p);
	if(naked) { from = 20; len = 20 + mmsg_size(x->m); }
	int hit = vc_bool() ? (int)vc_range(from, len - 1) : -1, legal = 1;
	if(hit >= 0) p[hit] = byte_in();
	uint64_t s = OSC_SERIAL_INIT; struct st w = at(START, 0, 0), y;
	for(int i = from; i < len; i++) {
		g_x = w; y = step(w, p[i]);
		s = osc_serial_processByte(p[i], s);
		ENSURE("error_iff_illegal", (osc_serial_errorp(s) != 0) == !y.ok);
		if(!y.ok) { legal = 0; break; }
		w = y;
		ENSURE("successor", s == pack(w));
	}
	int plain = 1;
	for(int i = 0; i < (naked ? 1 : x->n); i++) for(int k = 0; k < x->m[i].al; k++) if(strchr("[]{}", x->m[i].adr[k])) plain = 0;
	if(hit < 0 && plain) ENSURE("wellformed_is_accepted", legal);
}
