/* Contracts for osc_match.c (C11). The oracle is not a backtracking matcher: it keeps the set of
 * address positions that the pattern read so far can produce (one bit each). */
#include <string.h>
#include "osc_match.h"
//@ sources osc_match

/* characters a legal address cannot have (osc_error_validateAddress): they are the pattern characters */
static int special(char c) { return c == ' ' || c == '#' || c == '*' || c == ',' || c == '?' || c == '[' || c == ']' || c == '{' || c == '}'; }

#define WORD uint32_t
#define MAXA 24
/* in the class c of the bracket text b[0..n) (after any '!')? */
static int in_class(const char *b, int n, char c)
{
	int r = 0;
	for(int i = 0; i < n; ) {
		if(i + 2 < n && b[i + 1] == '-') {
			if((b[i] <= c && c <= b[i + 2]) || (b[i + 2] <= c && c <= b[i])) r = 1;
			i += 3;
		} else { if(b[i] == c) r = 1; i++; }
	}
	return r;
}
/* the positions k such that p[0..pn) can produce a[0..k), one '/'-delimited part after another;
 * bit MAXA+1 set: p is not a well-formed pattern */
#define BAD ((WORD)1 << 31)
static WORD reach(const char *p, int pn, const char *a, int an)
{
	WORD s = 1;
	for(int i = 0; i < pn; ) {
		WORD t = 0; char c = p[i];
		if(c == '?') { for(int k = 0; k < an; k++) if((s >> k & 1) && a[k] != '/') t |= (WORD)2 << k; i++; }
		else if(c == '*') { int on = 0; for(int k = 0; k <= an; k++) { if(s >> k & 1) on = 1; if(on) t |= (WORD)1 << k; if(k < an && a[k] == '/') on = 0; } i++; }
		else if(c == '[') {
			int e = i + 1;
			while(e < pn && p[e] != ']' && p[e] != '/' && p[e] != '[') e++;
			if(e >= pn || p[e] != ']') return BAD;
			int neg = p[i + 1] == '!', b = i + 1 + neg;
			if(e == b) return BAD;
			for(int k = 0; k < an; k++) if((s >> k & 1) && a[k] != '/' && in_class(p + b, e - b, a[k]) != neg) t |= (WORD)2 << k;
			i = e + 1;
		}
		else if(c == '{') {
			int e = i + 1;
			while(1) {
				int b = e;
				while(e < pn && p[e] != ',' && !special(p[e]) && p[e] != '/') e++;
				if(e >= pn || (p[e] != ',' && p[e] != '}') || e == b) return BAD;
				int l = e - b;
				for(int k = 0; k + l <= an; k++) if(s >> k & 1) {
					int eq = 1;
					for(int j = 0; j < l; j++) if(a[k + j] != p[b + j]) eq = 0;
					if(eq) t |= (WORD)1 << (k + l);
				}
				e++;
				if(p[e - 1] == '}') break;
			}
			i = e;
		}
		else if(special(c)) return BAD;
		else { for(int k = 0; k < an; k++) if((s >> k & 1) && a[k] == c) t |= (WORD)2 << k; i++; }
		s = t;
	}
	return s;
}
static int bits(WORD w, int k) { return w >> k & 1; }

#define PALPHA "ab-/*?[]{},!/ab"
#define AALPHA "ab-/ab"
/* lengths of the pattern and of the address after the leading '/' */
#define RUN(PMAX, AMAX) \
	char p[PMAX + 3], a[AMAX + 3]; p[0] = a[0] = '/'; \
	int pn = 1 + vc_string(p + 1, PMAX, PALPHA), an = 1 + vc_string(a + 1, AMAX, AALPHA); \
	int po = -1, ao = -1, r = osc_match(p, a, &po, &ao);
#define SAFE() do { ENSURE("offsets", po >= 0 && po <= pn && ao >= 0 && ao <= an); \
	ENSURE("result", r == 0 || r == 1 || r == 2 || r == 3 || (r >= 0x100 && r <= 0x800 && (r & 0xff) == 0)); } while(0)
#define EXACT() do { \
	int legal = 1, stars = 0, one = 1; \
	for(int i_ = 1; i_ < an; i_++) if(special(a[i_])) legal = 0; \
	for(int i_ = 1; i_ < pn; i_++) { if(p[i_] == '/') stars = 0; if(p[i_] == '*' && p[i_ - 1] != '*' && stars++) one = 0; } \
	WORD w = reach(p, pn, a, an); \
	if(legal && one && !(w & BAD)) { \
		ENSURE("complete", (r == 3) == bits(w, an)); \
		ENSURE("complete_offsets", r != 3 || (po == pn && ao == an)); \
		ENSURE("pattern_complete", r != 2 || (po == pn && a[ao] == '/' && bits(w, ao))); \
		ENSURE("address_complete", r != 1 || (ao == an && p[po] == '/' && bits(reach(p, po, a, an), an))); \
		ENSURE("none", r < 0x100 && (r != 0 || (po == 0 && ao == 0))); \
		int pre = 0; for(int k_ = 1; k_ < an; k_++) if(a[k_] == '/' && bits(w, k_)) pre = 1; \
		ENSURE("prefix_found", !pre || bits(w, an) || r == 2); \
	} \
	VC_COVER("star", r == 3 && p[1] == '*' && p[2] == 'b' && legal); \
	VC_COVER("class", r == 3 && p[1] == '[' && p[2] == '!' && legal); } while(0)

//@ proof match_exact prop=C11 cbmc=0 kind=bounded bound="run-time contract on sampled patterns of up to 14 characters and addresses of up to 10" sweep=25 functions=osc_match,osc_match_range cost=4
void match_exact(void)
{
	RUN(14, 10)
	SAFE();
	EXACT();
	VC_REACHED();
}
