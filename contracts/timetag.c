/* Contracts for osc_timetag.c */
#include "osc_timetag.h"
//@ sources osc_timetag osc_mem osc_util

static uint64_t tt64(t_osc_timetag t) { return ((uint64_t)t.sec << 32) | t.frac_sec; }
static t_osc_timetag tt_in(void) { t_osc_timetag t; t.sec = vc_u32(); t.frac_sec = vc_u32(); return t; }

//@ contract int osc_timetag_compare(t_osc_timetag t1, t_osc_timetag t2)
//@ assigns
//@ ensures order: RET == (tt64(t1) < tt64(t2) ? -1 : tt64(t1) > tt64(t2) ? 1 : 0)

//@ contract t_osc_timetag osc_timetag_add(t_osc_timetag t1, t_osc_timetag t2)
//@ assigns
//@ ensures sum: tt64(RET) == tt64(t1) + tt64(t2)

//@ contract t_osc_timetag osc_timetag_subtract(t_osc_timetag t1, t_osc_timetag t2)
//@ assigns
//@ ensures absdiff: tt64(RET) == (tt64(t1) >= tt64(t2) ? tt64(t1) - tt64(t2) : tt64(t2) - tt64(t1))

//@ contract int osc_timetag_isImmediate(t_osc_timetag timetag)
//@ assigns
//@ ensures immediate: (RET != 0) == (tt64(timetag) == 1)

//@ proof timetag_compare prop=C16 enforce=osc_timetag_compare
void timetag_compare(void) { t_osc_timetag a = tt_in(), b = tt_in(); osc_timetag_compare(a, b); VC_REACHED(); }
//@ proof timetag_add prop=C16 enforce=osc_timetag_add
void timetag_add(void) { t_osc_timetag a = tt_in(), b = tt_in(); osc_timetag_add(a, b); VC_REACHED(); }
//@ proof timetag_subtract prop=C16 enforce=osc_timetag_subtract
void timetag_subtract(void) { t_osc_timetag a = tt_in(), b = tt_in(); osc_timetag_subtract(a, b); VC_REACHED(); }
//@ proof timetag_immediate prop=C16 enforce=osc_timetag_isImmediate
void timetag_immediate(void) { osc_timetag_isImmediate(tt_in()); VC_REACHED(); }
//@ proof timetag_lemma prop=C16 replace=osc_timetag_compare,osc_timetag_subtract,osc_timetag_add
void timetag_lemma(void)
{
	t_osc_timetag a = tt_in(), b = tt_in();
	ENSURE("antisymmetric", osc_timetag_compare(a, b) == -osc_timetag_compare(b, a));
	t_osc_timetag s = osc_timetag_subtract(osc_timetag_add(a, b), b);
	if(tt64(a) + tt64(b) >= tt64(a)) ENSURE("add_then_subtract", tt64(s) == tt64(a));
	VC_REACHED();
}

/* ---- seconds as floating point ---- */
#include <math.h>
#ifdef VC_CBMC
/* exact for 0 <= x < 2^53 and y == 1: the only use */
double fmod(double x, double y)
{
	ENSURE("fmod_use", y == 1.0 && x >= 0 && x < 9007199254740992.0);
	return x - (double)(int64_t)x;
}
#endif
static double any_seconds(void)
{
	double d = VC_STEER ? (vc_bool() ? (double)vc_u32() + (double)vc_u32() / 4294967296.0 : vc_bool() ? (double)vc_range(0, 1000) + (double)vc_u32() / 4294967296.0 : (double)vc_u32()) : vc_f64();
	REQUIRE(d >= 0 && d < 4294967296.0);
	return d;
}
//@ proof timetag_float_seconds prop=C16 sweep=2 stub=fmod functions=osc_timetag_floatToTimetag,osc_timetag_float_to_ntp,osc_timetag_ntp_getSeconds solver=cadical assume="fmod(x, 1.0) is x minus its integer part"
void timetag_float_seconds(void)
{
	double d = any_seconds();
	t_osc_timetag t = osc_timetag_floatToTimetag(d);
	ENSURE("seconds", t.sec == (uint32_t)d && osc_timetag_ntp_getSeconds(t) == (uint32_t)d);
	VC_REACHED();
}
//@ proof timetag_float_fraction prop=C16 cbmc=0 kind=bounded bound="run-time contract on sampled numbers of seconds" sweep=2 functions=osc_timetag_floatToTimetag,osc_timetag_float_to_ntp,osc_timetag_ntp_getFraction
void timetag_float_fraction(void)
{
	double d = any_seconds(), f = d - (double)(uint32_t)d;
	t_osc_timetag t = osc_timetag_floatToTimetag(d);
	double g = f * 4294967296.0;
	/* within two units of the last place of the fraction */
	ENSURE("fraction", osc_timetag_ntp_getFraction(t) == t.frac_sec && (double)t.frac_sec <= g && g - (double)t.frac_sec <= 2.0);
	VC_REACHED();
}
//@ proof timetag_toFloat prop=C16 sweep=3 functions=osc_timetag_timetagToFloat,osc_timetag_ntp_to_float solver=cadical
void timetag_toFloat(void)
{
	t_osc_timetag t = tt_in();
	double d = osc_timetag_timetagToFloat(t), e = (double)t.sec + (double)t.frac_sec / 4294967296.0;
	if(t.frac_sec == 0) ENSURE("whole", d == (double)t.sec);
	ENSURE("seconds", d >= (double)t.sec && d <= (double)t.sec + 1.0);
	ENSURE("fraction", d - e <= 0.0000005 && e - d <= 0.0000005 && (t.sec > 1000 || (d - e <= 0.0000000003 && e - d <= 0.0000000003)));
	VC_REACHED();
}
//@ proof timetag_float_roundtrip prop=C16 cbmc=0 kind=bounded bound="run-time contract on sampled numbers of seconds" sweep=3 functions=osc_timetag_floatToTimetag,osc_timetag_timetagToFloat
void timetag_float_roundtrip(void)
{
	double d = any_seconds(), r = osc_timetag_timetagToFloat(osc_timetag_floatToTimetag(d));
	ENSURE("back", d - r <= 2.4e-10 + d * 2.3e-16 && r - d <= 2.4e-10 + d * 2.3e-16);
	if(d == (double)(uint32_t)d) ENSURE("whole", r == d);
}
