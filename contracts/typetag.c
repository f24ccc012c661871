/* Contracts for osc_typetag.c / osc_typetag.h (C22). */
#include "osc_typetag.h"
#include "osc_atom_u.h"
#include "osc_atom_u.r"
#include "osc_atom_array_u.h"
//@ sources osc_typetag

/* promotion rank; 0: unknown to the order (null shares the lowest rank) */
static int rank(char t)
{
	switch(t) {
	case 'T': return 1; case 'F': return 2; case 'c': return 3; case 'C': return 4; case 'u': return 5; case 'U': return 6;
	case 'i': return 7; case 'I': return 8; case 'h': return 9; case 'H': return 10; case 'f': return 11; case 'd': return 12;
	case 's': return 13; default: return 0;
	}
}
static int known(char t) { return rank(t) > 0 || t == 'N'; }
static int spec_width(char t)
{
	switch(t) { case 'c': case 'C': return 1; case 'u': case 'U': return 2; case 'i': case 'I': case 'f': return 4;
	case 'h': case 'H': case 'd': return 8; default: return 0; }
}
static const char KNOWN[] = "NTFcCuUiIhHfds";
static char tag_in(void) { return VC_STEER && vc_bool() ? vc_pick(KNOWN, 14) : (char)vc_u8(); }

//@ contract int osc_typetag_compare(char tt1, char tt2)
//@ assigns
//@ ensures range: RET == 0 || RET == 1 || RET == -1
//@ ensures same: (RET == 0) == (tt1 == tt2)
//@ ensures order: !(known(tt1) && known(tt2) && tt1 != tt2) || RET == (rank(tt1) < rank(tt2) ? -1 : 1)
//@ ensures unknown_low: !(!known(tt1) && rank(tt2) > 0) || RET == -1
//@ ensures unknown_low2: !(!known(tt2) && rank(tt1) > 0) || RET == 1

//@ proof typetag_compare prop=C22 enforce=osc_typetag_compare keepstatic=osc_typetag_indexes sweep=2
void typetag_compare(void) { char a = tag_in(), b = tag_in(); osc_typetag_compare(a, b); VC_REACHED(); }

//@ proof typetag_order prop=C22 replace=osc_typetag_compare sweep=1
/* lemma: a strict total order of the known typetags in which wider follows narrower and floats follow integers */
void typetag_order(void)
{
	char a = vc_pick(KNOWN, 14), b = vc_pick(KNOWN, 14), c = vc_pick(KNOWN, 14);
	int ab = osc_typetag_compare(a, b), ba = osc_typetag_compare(b, a), bc = osc_typetag_compare(b, c), ac = osc_typetag_compare(a, c);
	ENSURE("antisymmetric", ab == -ba);
	ENSURE("transitive", !(ab < 0 && bc < 0) || ac < 0);
	ENSURE("float_after_int", !(OSC_TYPETAG_ISINT(a) && OSC_TYPETAG_ISFLOAT(b)) || ab < 0);
	ENSURE("wider_after_narrower", !(OSC_TYPETAG_ISINT(a) && OSC_TYPETAG_ISINT(b) && spec_width(a) < spec_width(b)) || ab < 0);
	ENSURE("wider_float", !(OSC_TYPETAG_ISFLOAT(a) && OSC_TYPETAG_ISFLOAT(b) && spec_width(a) < spec_width(b)) || ab < 0);
	ENSURE("bool_before_int", !(OSC_TYPETAG_ISBOOL(a) && OSC_TYPETAG_ISINT(b)) || ab < 0);
	ENSURE("string_last", !(OSC_TYPETAG_ISNUMERIC(a) && OSC_TYPETAG_ISSTRING(b)) || ab < 0);
	VC_REACHED();
}
//@ proof typetag_classes prop=C22 sweep=1 functions=OSC_TYPETAG_ISFLOAT,OSC_TYPETAG_ISINT,OSC_TYPETAG_ISBOOL,OSC_TYPETAG_ISSTRING,OSC_TYPETAG_ISNUMERIC,OSC_TYPETAG_ISUNSIGNEDINT
void typetag_classes(void)
{
	char t = tag_in();
	int f = t == 'f' || t == 'd', i = t == 'c' || t == 'C' || t == 'u' || t == 'U' || t == 'i' || t == 'I' || t == 'h' || t == 'H';
	ENSURE("float", (OSC_TYPETAG_ISFLOAT(t) != 0) == f);
	ENSURE("int", (OSC_TYPETAG_ISINT(t) != 0) == i);
	ENSURE("bool", (OSC_TYPETAG_ISBOOL(t) != 0) == (t == 'T' || t == 'F'));
	ENSURE("string", (OSC_TYPETAG_ISSTRING(t) != 0) == (t == 's'));
	ENSURE("numeric", (OSC_TYPETAG_ISNUMERIC(t) != 0) == (f || i || t == 'T' || t == 'F'));
	VC_REACHED();
}
//@ proof typetag_name prop=C22 unwind=32 sweep=1 functions=osc_typetag_str
void typetag_name(void)
{
	char t = tag_in();
	const char *s = osc_typetag_str((int8_t)t), *want = NULL;
	switch(t) {
	case 'N': want = "null"; break; case 'T': want = "true"; break; case 'F': want = "false"; break;
	case 'c': want = "int8"; break; case 'C': want = "unsigned int8"; break; case 'u': want = "int16"; break;
	case 'U': want = "unsigned int16"; break; case 'i': want = "int32"; break; case 'I': want = "unsigned int32"; break;
	case 'h': want = "int64"; break; case 'H': want = "unsigned int64"; break; case 'f': want = "float32"; break;
	case 'd': want = "float64"; break; case 's': want = "string"; break; case '.': want = "bundle"; break;
	}
	ENSURE("named", s != NULL);
	if(want) for(int i = 0; i < 15; i++) { ENSURE("name", s[i] == want[i]); if(!want[i]) break; }
	else { const char *u = "unknown type:"; for(int i = 0; i < 13; i++) ENSURE("unknown", s[i] == u[i]); }
	VC_REACHED();
}
//@ proof typetag_largest prop=C22 kind=bounded bound="at most 2 arrays of 1 or 2 atoms each, every typetag" unwind=5 sweep=3 functions=osc_typetag_getLargestType cost=3
void typetag_largest(void)
{
	t_osc_atom_array_u *ar[2]; int best = -1; char want = 'N';
	int m = (int)vc_range(0, 2);
	for(int k = 0; k < m; k++) {
		int n = (int)vc_range(1, 2);
		ar[k] = osc_atom_array_u_alloc(n);
		for(int i = 0; i < n; i++) {
			char t = vc_pick(KNOWN, 14);
			t_osc_atom_u *a = osc_atom_array_u_get(ar[k], i);
			REQUIRE(a != NULL);
			a->typetag = t;
			/* true and false are the same type as far as promotion goes */
			int r = rank(t == 'F' ? 'T' : t);
			if(r > best) { best = r; want = t == 'F' ? 'T' : t; }
		}
	}
	ENSURE("largest", osc_typetag_getLargestType(m, ar) == want);
	VC_REACHED();
}
