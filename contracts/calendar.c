/* Contracts for the calendar text of a timetag, osc_timetag.c (C17). */
#include "osc_timetag.h"
#include "osc_mem.h"
#include <time.h>
//@ sources osc_timetag osc_mem osc_util

unsigned short int osc_timetag_isleap(unsigned short int year);
unsigned short int osc_timetag_getmonth(unsigned short int *day, unsigned short int leap);
static int leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
/* days of the year before month m (1..13) */
static int before(int m, int lp)
{
	return (m > 2 ? lp : 0) + (m <= 1 ? 0 : m == 2 ? 31 : m == 3 ? 59 : m == 4 ? 90 : m == 5 ? 120 : m == 6 ? 151 : m == 7 ? 181 : m == 8 ? 212 : m == 9 ? 243 : m == 10 ? 273 : m == 11 ? 304 : m == 12 ? 334 : 365);
}
/* days from 1900-01-01 to the first day of year y >= 1900 */
#define year_start(y) (365 * ((y) - 1900) + ((y) - 1) / 4 - ((y) - 1) / 100 + ((y) - 1) / 400 - 460)
static uint64_t seconds(int y, int mo, int d, int h, int mi, int s)
{
	return s + (uint64_t)mi * 60 + (uint64_t)h * 3600 + (uint64_t)(before(mo, leap(y)) + d - 1) * 86400 + (uint64_t)year_start(y) * 86400;
}
static int date(int y, int mo, int d, int h, int mi, int s)
{
	return y >= 1900 && mo >= 1 && mo <= 12 && d >= 1 && d <= before(mo + 1, leap(y)) - before(mo, leap(y)) && h >= 0 && h < 24 && mi >= 0 && mi < 60 && s >= 0 && s < 60;
}
static int digits(const char *p, int n)
{
	int v = 0;
	for(int i = 0; i < n; i++) { if(p[i] < '0' || p[i] > '9') return -1; v = v * 10 + (p[i] - '0'); }
	return v;
}
static int is_text(const char *p, uint32_t sec)
{
	if(p[4] != '-' || p[7] != '-' || p[10] != 'T' || p[13] != ':' || p[16] != ':' || p[19] != '.' || p[26] != 'Z' || p[27] != 0) return 0;
	if(digits(p + 20, 6) < 0) return 0;
	int y = digits(p, 4), mo = digits(p + 5, 2), d = digits(p + 8, 2), h = digits(p + 11, 2), mi = digits(p + 14, 2), s = digits(p + 17, 2);
	return date(y, mo, d, h, mi, s) && seconds(y, mo, d, h, mi, s) == sec;
}
/* native: seconds near the turn of days, months, years and leap days */
static uint32_t sec_in(void)
{
	if(!VC_STEER || vc_range(0, 3) == 0) return vc_u32();
	int y = (int)vc_range(1900, 2036), m = (int)vc_range(1, 12);
	if(vc_bool()) m = vc_bool() ? 1 : 3;
	if(vc_range(0, 3) == 0) y = vc_bool() ? 1900 : 2000;
	return (uint32_t)(seconds(y, m, 1, 0, 0, 0) + vc_range(-90000, 90000));
}
/* ---- the verifier: the numbers that are formatted are recorded, and the result must hold their digits in place */
#ifdef VC_CBMC
double fmod(double x, double y) { double r; return r; }
static int g_y, g_mo, g_d, g_h, g_mi, g_s;
char *strptime(const char *s, const char *fmt, struct tm *t)
{
	t->tm_year = g_y - 1900; t->tm_mon = g_mo - 1; t->tm_mday = g_d; t->tm_hour = g_h; t->tm_min = g_mi; t->tm_sec = g_s;
	return (char *)s;
}
int __isoc99_sscanf(const char *s, const char *fmt, ...) { return 1; }
static unsigned f_val[6]; static int f_n;
/* stands for digit k of field f: all different, so that their places in the result tell them apart */
static char digit(int f, int k) { return (char)('A' + f * 4 + k); }
static void emit(char *buf, size_t n, size_t *c, char ch) { if(*c + 1 < n) buf[*c] = ch; (*c)++; }
static int done(char *buf, size_t n, size_t c) { if(n > 0) buf[c < n ? c : n - 1] = 0; return (int)c; }
int vc_sn_u(char *buf, size_t n, const char *f, unsigned v)
{
	int w = f[2] - '0'; size_t c = 0;
	__CPROVER_assume(f[0] == '%' && f[1] == '0' && (f[2] == '2' || f[2] == '4') && f[3] == 'u' && f[4] == 0); /* nothing else is modelled */
	__CPROVER_assert(f_n < 6 && w == (f_n == 0 ? 4 : 2), "year, month, day, hour, minute, second in turn");
	__CPROVER_assert(v < (w == 4 ? 10000 : 100), "the number has no more digits than its field");
	f_val[f_n] = v;
	for(int k = 0; k < w; k++) emit(buf, n, &c, digit(f_n, k));
	f_n++;
	return done(buf, n, c);
}
int vc_sn_f(char *buf, size_t n, const char *f, double v)
{
	size_t c = 0; const char *want = "%05fZ";
	for(int i = 0; i < 6; i++) __CPROVER_assume(f[i] == want[i]);
	emit(buf, n, &c, '0'); emit(buf, n, &c, '.');
	for(int k = 0; k < 6; k++) emit(buf, n, &c, (char)('0' + k));
	emit(buf, n, &c, 'Z');
	return done(buf, n, c);
}
int vc_sn_ss(char *buf, size_t n, const char *f, const char *x, const char *y)
{
	size_t c = 0; int k = 0;
	for(size_t i = 0; f[i]; i++) {
		if(f[i] != '%') { emit(buf, n, &c, f[i]); continue; }
		i++;
		__CPROVER_assume(f[i] == 's');
		const char *s = k++ ? y : x;
		for(size_t m = 0; s[m]; m++) emit(buf, n, &c, s[m]);
	}
	return done(buf, n, c);
}
int vc_sn_s(char *buf, size_t n, const char *f, const char *x) { __CPROVER_assume(0); return 0; }
int vc_sn_other(char *buf, size_t n, const char *f, ...) { __CPROVER_assume(0); return 0; }
#endif
//@ contract unsigned short int osc_timetag_isleap(unsigned short int year)
//@ requires year >= 1900 && year <= 2100
//@ assigns
//@ ensures leap_year: RET == leap(year)

//@ contract unsigned short int osc_timetag_getmonth(unsigned short int *day, unsigned short int leap)
//@ requires leap <= 1 && *day >= 1 && *day <= 365 + leap
//@ assigns *day
//@ ensures month: RET >= 1 && RET <= 12 && before(RET, leap) < OLD(*day) && OLD(*day) <= before(RET + 1, leap)
//@ ensures day_of_month: *day == OLD(*day) - before(RET, leap)

//@ proof cal_isleap prop=C17 enforce=osc_timetag_isleap unwind=560 sweep=1
void cal_isleap(void) { osc_timetag_isleap((unsigned short)vc_range(1900, 2100)); VC_REACHED(); }
//@ proof cal_getmonth prop=C17 enforce=osc_timetag_getmonth unwind=15 sweep=1
void cal_getmonth(void) { unsigned short lp = (unsigned short)vc_range(0, 1), d = (unsigned short)vc_range(1, 366); REQUIRE(d <= 365 + lp); osc_timetag_getmonth(&d, lp); VC_REACHED(); }

//@ proof cal_date prop=C17 loops=1 promote=1 replace=osc_timetag_isleap,osc_timetag_getmonth stub=fmod,snprintf unwind=30 sweep=0 functions=osc_timetag_nformat,osc_timetag_toISO8601 assume="snprintf prints the digits of its argument; the fraction's digits are unspecified" solver=cadical timeout=600
void cal_date(void)
{
#ifdef VC_CBMC
	t_osc_timetag t; t.sec = vc_u32(); t.frac_sec = vc_u32();
	char b[28]; f_n = 0;
	ENSURE("length", osc_timetag_nformat(b, 28, t) == 27);
	ENSURE("all_fields", f_n == 6);
	ENSURE("a_date", date(f_val[0], f_val[1], f_val[2], f_val[3], f_val[4], f_val[5]));
	ENSURE("of_these_seconds", seconds(f_val[0], f_val[1], f_val[2], f_val[3], f_val[4], f_val[5]) == t.sec);
	const char *shape = "0000-11-22T33:44:55.ffffffZ"; int k[6] = {0};
	for(int i = 0; i < 27; i++) {
		if(shape[i] >= '0' && shape[i] <= '5') { int f = shape[i] - '0'; ENSURE("digits_in_place", b[i] == digit(f, k[f])); k[f]++; }
		else if(shape[i] == 'f') ENSURE("fraction", b[i] == '0' + i - 20);
		else ENSURE("punctuation", b[i] == shape[i]);
	}
	ENSURE("terminated", b[27] == 0);
	VC_REACHED();
#endif
}
//@ proof cal_length prop=C17 promote=1 stub=fmod,snprintf unwind=40 sweep=1 functions=osc_timetag_nformat
void cal_length(void)
{
	t_osc_timetag t; t.sec = vc_u32(); t.frac_sec = vc_u32();
	ENSURE("length_query", osc_timetag_nformat(NULL, 0, t) == 27);
	VC_REACHED();
}
//@ proof cal_parse prop=C17 loops=1 replace=osc_timetag_isleap stub=fmod,strptime,__isoc99_sscanf unwind=15 sweep=2 functions=osc_timetag_fromISO8601 assume="strptime and sscanf deliver the fields of the text" solver=cadical
void cal_parse(void)
{
	int y = (int)vc_range(1900, 2036), mo = (int)vc_range(1, 12), d = (int)vc_range(1, 31), h = (int)vc_range(0, 23), mi = (int)vc_range(0, 59), s = (int)vc_range(0, 59);
	REQUIRE(date(y, mo, d, h, mi, s) && seconds(y, mo, d, h, mi, s) <= 0xffffffffu);
	char b[32] = "";
#ifdef VC_CBMC
	g_y = y; g_mo = mo; g_d = d; g_h = h; g_mi = mi; g_s = s;
#else
	snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d.%dZ", y, mo, d, h, mi, s, (int)vc_range(0, 999999));
#endif
	t_osc_timetag t;
	osc_timetag_fromISO8601(b, &t);
	ENSURE("seconds_since_1900", t.sec == seconds(y, mo, d, h, mi, s));
	VC_REACHED();
}
//@ proof cal_roundtrip prop=C17 cbmc=0 kind=bounded bound="run-time contract on sampled timetags" sweep=8 functions=osc_timetag_format,osc_timetag_nformat,osc_timetag_fromISO8601
void cal_roundtrip(void)
{
	t_osc_timetag t, u; t.sec = sec_in(); t.frac_sec = vc_u32();
	char *p = osc_timetag_format(t); long n = osc_timetag_nformat(NULL, 0, t);
	ENSURE("fits", (long)strlen(p) == n);
	ENSURE("utc_date", is_text(p, t.sec));
	osc_timetag_fromISO8601(p, &u);
	ENSURE("same_seconds", u.sec == t.sec);
	double d = (double)u.frac_sec / 4294967295.0 - (double)t.frac_sec / 4294967295.0;
	ENSURE("same_fraction", (d < 3e-6 && d > -3e-6) || d > 1 - 3e-6 || d < -1 + 3e-6);
	char q[40]; memset(q, 'x', sizeof q);
	int room = (int)vc_range(0, 32);
	ENSURE("short_buffer_length", osc_timetag_nformat(q, room, t) == n);
	ENSURE("short_buffer", q[room] == 'x' && (room == 0 || memcmp(q, p, room - 1 < n ? room - 1 : n) == 0) && (room == 0 || q[room - 1 < n ? room - 1 : n] == 0));
	osc_mem_free(p);
}
