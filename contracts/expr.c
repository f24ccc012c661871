/* Contracts for the arithmetic and relational operators of osc_expr.c on numbers (C24). */
#include "osc.h"
#include "osc_mem.h"
#include "osc_atom_u.h"
#include "osc_atom_u.r"
#include "osc_typetag.h"
#include "osc_expr.h"
//@ sources osc_expr osc_atom_u osc_typetag
int osc_expr_add(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void *context);
int osc_expr_subtract(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void *context);
int osc_expr_multiply(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void *context);
int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void *context);
int osc_expr_lt(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void *context);
int osc_expr_le(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void *context);
int osc_expr_gt(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void *context);
int osc_expr_gte(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void *context);
int osc_expr_eq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void *context);
int osc_expr_neq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void *context);

/* the types in promotion order; the value of an operand is v cut down to its type */
static const char types[] = "cCuUiIhHfd";
#define NINT 8
static void put(t_osc_atom_u *a, char t, uint64_t v)
{
	switch(t) {
	case 'c': osc_atom_u_setInt8(a, (int8_t)v); break;
	case 'C': osc_atom_u_setUInt8(a, (uint8_t)v); break;
	case 'u': osc_atom_u_setInt16(a, (int16_t)v); break;
	case 'U': osc_atom_u_setUInt16(a, (uint16_t)v); break;
	case 'i': osc_atom_u_setInt32(a, (int32_t)v); break;
	case 'I': osc_atom_u_setUInt32(a, (uint32_t)v); break;
	case 'h': osc_atom_u_setInt64(a, (int64_t)v); break;
	case 'H': osc_atom_u_setUInt64(a, v); break;
	case 'f': osc_atom_u_setFloat(a, bits32f((uint32_t)v)); break;
	case 'd': osc_atom_u_setDouble(a, bits64d(v)); break;
	}
}
/* still what put() put there */
static int kept(t_osc_atom_u *a, char t, uint64_t v)
{
	if(osc_atom_u_getTypetag(a) != t) return 0;
	switch(t) {
	case 'c': return a->w.c == (int8_t)v;
	case 'C': return a->w.C == (uint8_t)v;
	case 'u': return a->w.u == (int16_t)v;
	case 'U': return a->w.U == (uint16_t)v;
	case 'i': return a->w.i == (int32_t)v;
	case 'I': return a->w.I == (uint32_t)v;
	case 'h': return a->w.h == (int64_t)v;
	case 'H': return a->w.H == v;
	case 'f': return sameval(a->w.f, bits32f((uint32_t)v));
	case 'd': return sameval(a->w.d, bits64d(v));
	}
	return 0;
}
static double dbl(char t, uint64_t v)
{
	switch(t) {
	case 'c': return (int8_t)v;
	case 'C': return (uint8_t)v;
	case 'u': return (int16_t)v;
	case 'U': return (uint16_t)v;
	case 'i': return (int32_t)v;
	case 'I': return (uint32_t)v;
	case 'h': return (double)(int64_t)v;
	case 'H': return (double)v;
	case 'f': return bits32f((uint32_t)v);
	case 'd': return bits64d(v);
	}
	return 0;
}
/* an integer operand as a two's complement number of 64 bits */
static uint64_t wide(char t, uint64_t v)
{
	switch(t) {
	case 'c': return (uint64_t)(int64_t)(int8_t)v;
	case 'C': return (uint8_t)v;
	case 'u': return (uint64_t)(int64_t)(int16_t)v;
	case 'U': return (uint16_t)v;
	case 'i': return (uint64_t)(int64_t)(int32_t)v;
	case 'I': return (uint32_t)v;
	}
	return v;
}
static int neg(char t, uint64_t v) { return t != 'H' && (int64_t)wide(t, v) < 0; }
/* -1, 0, 1; 2 where there is no order */
static int order(char t1, uint64_t x, char t2, uint64_t y)
{
	if(t1 != 'f' && t1 != 'd' && t2 != 'f' && t2 != 'd') {
		uint64_t a = wide(t1, x), b = wide(t2, y); int m = neg(t1, x), n = neg(t2, y);
		if(m != n) return m ? -1 : 1;
		return a < b ? -1 : a > b;      /* also right for two negative numbers: two's complement */
	}
	double a = dbl(t1, x), b = dbl(t2, y);
	return a < b ? -1 : a == b ? 0 : a > b ? 1 : 2;
}
#define A_(T, U, op) ((uint64_t)(T)((T)(U)a op (T)(U)b))
#define INTOP(op) \
	switch(t) { \
	case 'c': return (uint64_t)(int8_t)((int8_t)a op (int8_t)b); \
	case 'C': return (uint64_t)(uint8_t)((uint8_t)a op (uint8_t)b); \
	case 'u': return (uint64_t)(int16_t)((int16_t)a op (int16_t)b); \
	case 'U': return (uint64_t)(uint16_t)((uint32_t)(uint16_t)a op (uint32_t)(uint16_t)b); \
	case 'i': return (uint64_t)(uint32_t)((uint32_t)a op (uint32_t)b); \
	case 'I': return (uint64_t)(uint32_t)((uint32_t)a op (uint32_t)b); \
	} \
	return a op b;
static uint64_t w_add(char t, uint64_t a, uint64_t b) { INTOP(+) }
static uint64_t w_subtract(char t, uint64_t a, uint64_t b) { INTOP(-) }
static uint64_t w_multiply(char t, uint64_t a, uint64_t b) { INTOP(*) }
static uint64_t w_divide(char t, uint64_t a, uint64_t b)
{
	switch(t) {
	case 'c': return (uint64_t)((int8_t)a / (int8_t)b);
	case 'C': return (uint64_t)((uint8_t)a / (uint8_t)b);
	case 'u': return (uint64_t)((int16_t)a / (int16_t)b);
	case 'U': return (uint64_t)((uint16_t)a / (uint16_t)b);
	case 'i': return (int32_t)b == -1 ? 0 - a : (uint64_t)(int64_t)((int32_t)a / (int32_t)b);
	case 'I': return (uint32_t)a / (uint32_t)b;
	case 'h': return (int64_t)b == -1 ? 0 - a : (uint64_t)((int64_t)a / (int64_t)b);
	}
	return a / b;
}
static double d_add(double a, double b) { return a + b; }
static double d_subtract(double a, double b) { return a - b; }
static double d_multiply(double a, double b) { return a * b; }
static double d_divide(double a, double b) { return a / b; }
static int zero(char t, uint64_t v) { switch(t) { case 'c': case 'C': return (uint8_t)v == 0; case 'u': case 'U': return (uint16_t)v == 0; case 'i': case 'I': return (uint32_t)v == 0; } return v == 0; }
static int is_inf(t_osc_atom_u *r) { return osc_atom_u_getTypetag(r) == 's' && r->w.s && r->w.s[0] == 'I' && r->w.s[1] == 'n' && r->w.s[2] == 'f' && !r->w.s[3]; }
/* values in the sweep: near the ends of the types */
static uint64_t val(void)
{
	uint64_t v = vc_u64();
	if(VC_STEER) { int k = (int)vc_range(0, 70); int64_t d = vc_range(-2, 2); if(k < 64) v = ((uint64_t)1 << k) + d; else if(k < 67) v = (uint64_t)d; else if(k == 68) v = f64bits((double)d); else if(k == 69) v = f32bits((float)d); }
	return v;
}
#define BEFORE(i, j) char t1 = types[i], t2 = types[j], t = types[(i) > (j) ? (i) : (j)]; \
	t_osc_atom_u *a = osc_atom_u_alloc(), *b = osc_atom_u_alloc(), *r = osc_atom_u_alloc(), *r0 = r; \
	put(a, t1, x); put(b, t2, y);
#define AFTER() ENSURE("operands_kept", kept(a, t1, x) && kept(b, t2, y) && r == r0); \
	if(VC_IS_NATIVE) { osc_atom_u_free(a); osc_atom_u_free(b); osc_atom_u_free(r); }


/* The verifier checks the operators against the contracts of the atom getters and setters (C04): getting an atom
 * converts its value, setting one records type and value. So the types and the values are all symbolic. */
#ifdef VC_CBMC
static t_osc_atom_u *P1, *P2, *R0; static char T1, T2; static uint64_t V1, V2, W1, W2; static double D1, D2;
static char rt; static uint64_t rv; static double rd; static int rinf, sets, wrong;
static uint64_t W(t_osc_atom_u *a) { if(a != P1 && a != P2) wrong++; return a == P1 ? W1 : W2; }
static void S(t_osc_atom_u *a, char t, uint64_t v) { if(a != R0) wrong++; rt = t; rv = v; sets++; rinf = 0; }
char osc_atom_u_getTypetag(t_osc_atom_u *a) { if(a != P1 && a != P2) wrong++; return a == P1 ? T1 : T2; }
int8_t osc_atom_u_getInt8(t_osc_atom_u *a) { return (int8_t)W(a); }
uint8_t osc_atom_u_getUInt8(t_osc_atom_u *a) { return (uint8_t)W(a); }
int16_t osc_atom_u_getInt16(t_osc_atom_u *a) { return (int16_t)W(a); }
uint16_t osc_atom_u_getUInt16(t_osc_atom_u *a) { return (uint16_t)W(a); }
int32_t osc_atom_u_getInt32(t_osc_atom_u *a) { return (int32_t)W(a); }
uint32_t osc_atom_u_getUInt32(t_osc_atom_u *a) { return (uint32_t)W(a); }
int64_t osc_atom_u_getInt64(t_osc_atom_u *a) { return (int64_t)W(a); }
uint64_t osc_atom_u_getUInt64(t_osc_atom_u *a) { return W(a); }
double osc_atom_u_getDouble(t_osc_atom_u *a) { if(a != P1 && a != P2) wrong++; return a == P1 ? D1 : D2; }
void osc_atom_u_setInt8(t_osc_atom_u *a, int8_t v) { S(a, 'c', (uint64_t)v); }
void osc_atom_u_setUInt8(t_osc_atom_u *a, uint8_t v) { S(a, 'C', v); }
void osc_atom_u_setInt16(t_osc_atom_u *a, int16_t v) { S(a, 'u', (uint64_t)v); }
void osc_atom_u_setUInt16(t_osc_atom_u *a, uint16_t v) { S(a, 'U', v); }
void osc_atom_u_setInt32(t_osc_atom_u *a, int32_t v) { S(a, 'i', (uint64_t)v); }
void osc_atom_u_setUInt32(t_osc_atom_u *a, uint32_t v) { S(a, 'I', v); }
void osc_atom_u_setInt64(t_osc_atom_u *a, int64_t v) { S(a, 'h', (uint64_t)v); }
void osc_atom_u_setUInt64(t_osc_atom_u *a, uint64_t v) { S(a, 'H', v); }
void osc_atom_u_setFloat(t_osc_atom_u *a, float v) { S(a, 'f', 0); rd = v; }
void osc_atom_u_setDouble(t_osc_atom_u *a, double v) { S(a, 'd', 0); rd = v; }
void osc_atom_u_setBool(t_osc_atom_u *a, int v) { S(a, v ? 'T' : 'F', 0); }
void osc_atom_u_setTrue(t_osc_atom_u *a) { S(a, 'T', 0); }
void osc_atom_u_setFalse(t_osc_atom_u *a) { S(a, 'F', 0); }
void osc_atom_u_setString(t_osc_atom_u *a, char *s) { S(a, 's', 0); rinf = s[0] == 'I' && s[1] == 'n' && s[2] == 'f' && s[3] == 0; }
#define GIVEN(n) \
	t_osc_atom_u a_, b_, r_, *r = &r_; P1 = &a_; P2 = &b_; R0 = &r_; \
	int n1_ = (int)vc_range(0, n - 1), n2_ = (int)vc_range(0, n - 1); V1 = vc_u64(); V2 = vc_u64(); \
	for(int i_ = 0; i_ < n; i_++) if(i_ == n1_) for(int j_ = 0; j_ < n; j_++) if(j_ == n2_) { \
	T1 = types[i_]; T2 = types[j_]; \
	char t = types[i_ > j_ ? i_ : j_]; sets = wrong = rinf = 0; rt = 0;
#define DONE() ENSURE("one_result", sets == 1 && wrong == 0 && r == R0); } VC_REACHED();
#else
#define GIVEN(n)
#define DONE()
#endif
//@ for OP,SV in add,cvc5 | subtract,cvc5 | multiply,cvc5 | divide,cvc5
//@ proof ${OP}_int prop=C24 stub=osc_expr_err_badInfixArg unwind=12 sweep=0 functions=osc_expr_${OP} solver=${SV} assume="getters convert and setters store as C04 proves"
void ${OP}_int(void)
{
#ifdef VC_CBMC
	GIVEN(NINT)
	W1 = wide(T1, V1); W2 = wide(T2, V2);
	ENSURE("ok", osc_expr_${OP}(P1, P2, &r, NULL) == 0);
	if("${OP}"[0] == 'd' && zero(t, W2)) ENSURE("division_by_zero_reported", rt == 's' && rinf);
	else ENSURE("value_in_promoted_type", rt == t && rv == wide(t, w_${OP}(t, W1, W2)));
	DONE()
#endif
}
//@ proof ${OP}_float prop=C24 stub=osc_expr_err_badInfixArg unwind=12 sweep=0 functions=osc_expr_${OP} solver=${SV} assume="getters convert and setters store as C04 proves"
void ${OP}_float(void)
{
#ifdef VC_CBMC
	GIVEN(NINT + 2)
	if(t == 'f' || t == 'd') {
	D1 = vc_f64(); D2 = vc_f64();
	ENSURE("ok", osc_expr_${OP}(P1, P2, &r, NULL) == 0);
	if("${OP}"[0] == 'd' && D2 == 0) ENSURE("division_by_zero_reported", rt == 's' && rinf);
	else ENSURE("double_value", rt == 'd' && sameval(rd, d_${OP}(D1, D2))); } else { sets = 1; }
	DONE()
#endif
}
//@ endfor
//@ for OP,C in lt,o == -1 | le,o < 1 | gt,o == 1 | gte,(o & ~1) == 0 | eq,o == 0 | neq,o != 0
//@ proof ${OP}_number prop=C24 stub=osc_expr_err_badInfixArg unwind=12 sweep=0 functions=osc_expr_${OP} solver=cadical assume="getters convert and setters store as C04 proves"
void ${OP}_number(void)
{
#ifdef VC_CBMC
	GIVEN(NINT + 2)
	W1 = wide(T1, V1); W2 = wide(T2, V2); D1 = vc_f64(); D2 = vc_f64();
	int o = t == 'f' || t == 'd' ? (D1 < D2 ? -1 : D1 == D2 ? 0 : D1 > D2 ? 1 : 2) : order(T1, V1, T2, V2);
	ENSURE("ok", osc_expr_${OP}(P1, P2, &r, NULL) == 0);
	ENSURE("agrees_with_order", rt == ((${C}) ? 'T' : 'F'));
	DONE()
#endif
}
//@ endfor
//@ for OP,SV in add,x | subtract,x | multiply,x | divide,x
//@ proof ${OP}_int_sweep prop=C24 cbmc=0 kind=bounded bound="run-time contract on sampled values" sweep=2 functions=osc_expr_${OP}
void ${OP}_int_sweep(void)
{
	uint64_t x = val(), y = val(); int m = (int)vc_range(0, NINT - 1), n = (int)vc_range(0, NINT - 1);
	VC_SPLIT(i, 0, NINT - 1, m, VC_SPLIT(j, 0, NINT - 1, n,
		BEFORE(i, j)
		ENSURE("ok", osc_expr_${OP}(a, b, &r, NULL) == 0);
		if("${OP}"[0] == 'd' && zero(t, wide(t2, y))) ENSURE("division_by_zero_reported", is_inf(r));
		else ENSURE("value_in_promoted_type", kept(r, t, w_${OP}(t, wide(t1, x), wide(t2, y))));
		AFTER()))
	}
//@ proof ${OP}_float_sweep prop=C24 cbmc=0 kind=bounded bound="run-time contract on sampled values" sweep=2 functions=osc_expr_${OP}
void ${OP}_float_sweep(void)
{
	uint64_t x = val(), y = val(); int m = (int)vc_range(0, NINT + 1), n = (int)vc_range(0, NINT + 1);
	REQUIRE(m >= NINT || n >= NINT);
	VC_SPLIT(i, 0, NINT + 1, m, VC_SPLIT(j, 0, NINT + 1, n, if(i >= NINT || j >= NINT) {
		BEFORE(i, j)
		ENSURE("ok", osc_expr_${OP}(a, b, &r, NULL) == 0);
		double p = dbl(t1, x), q = dbl(t2, y);
		if("${OP}"[0] == 'd' && q == 0) ENSURE("division_by_zero_reported", is_inf(r));
		else { ENSURE("double", osc_atom_u_getTypetag(r) == 'd'); ENSURE("value", sameval(r->w.d, d_${OP}(p, q))); }
		AFTER() }))
	}
//@ endfor
//@ for OP,C in lt,o == -1 | le,o < 1 | gt,o == 1 | gte,(o & ~1) == 0 | eq,o == 0 | neq,o != 0
//@ proof ${OP}_number_sweep prop=C24 cbmc=0 kind=bounded bound="run-time contract on sampled values" sweep=2 functions=osc_expr_${OP}
void ${OP}_number_sweep(void)
{
	uint64_t x = val(), y = vc_bool() ? x : val(); int m = (int)vc_range(0, NINT + 1), n = (int)vc_range(0, NINT + 1);
	VC_SPLIT(i, 0, NINT + 1, m, VC_SPLIT(j, 0, NINT + 1, n,
		BEFORE(i, j)
		int o = order(t1, x, t2, y);
		ENSURE("ok", osc_expr_${OP}(a, b, &r, NULL) == 0);
		ENSURE("agrees_with_order", osc_atom_u_getTypetag(r) == ((${C}) ? 'T' : 'F') && osc_atom_u_getBool(r) == (${C}));
		AFTER()))
	}
//@ endfor

/* ---- lists: element by element; a list of one element goes with every element of the other */
#include "osc_atom_array_u.h"
#include "osc_expr_rec.h"
#include "osc_expr_rec.r"
#include "osc_expr.r"
int osc_expr_2arg(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void *context);
int osc_expr_plus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void *context);
int osc_expr_minus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void *context);
#define LMAX 6
//@ proof lists_sweep prop=C24 cbmc=0 kind=bounded bound="run-time contract on sampled lists of up to 6 numbers" sweep=5 functions=osc_expr_2arg
static int same_atom(t_osc_atom_u *p, t_osc_atom_u *q)
{
	if(osc_atom_u_getTypetag(p) != osc_atom_u_getTypetag(q)) return 0;
	switch(osc_atom_u_getTypetag(p)) {
	case 's': return !strcmp(p->w.s, q->w.s);
	case 'd': return sameval(p->w.d, q->w.d);
	case 'T': case 'F': return 1;
	}
	return osc_atom_u_getUInt64(p) == osc_atom_u_getUInt64(q);
}
void lists_sweep(void)
{
	static int (*const fs[])(t_osc_atom_u *, t_osc_atom_u *, t_osc_atom_u **, void *) = { osc_expr_add, osc_expr_subtract, osc_expr_multiply, osc_expr_divide, osc_expr_lt, osc_expr_le, osc_expr_gt, osc_expr_gte, osc_expr_eq, osc_expr_neq };
	int op = (int)vc_range(0, 9), n1 = (int)vc_range(0, LMAX), n2 = (int)vc_range(0, LMAX); char t1[LMAX], t2[LMAX]; uint64_t x[LMAX], y[LMAX];
	if(vc_bool()) n1 = 1;
	REQUIRE(!(n1 == 1 && n2 == 0) && !(n2 == 1 && n1 == 0));      /* an empty list goes with no single number */
	struct _osc_expr_rec rec; memset(&rec, 0, sizeof rec); rec.extra = (void *)fs[op]; rec.name = "op";
	struct _osc_expr e; memset(&e, 0, sizeof e); e.rec = &rec;
	t_osc_atom_ar_u *argv[2] = { osc_atom_array_u_alloc(n1), osc_atom_array_u_alloc(n2) }, *out = NULL;
	for(int i = 0; i < n1; i++) { t1[i] = vc_pick(types, NINT + 2); x[i] = val(); put(osc_atom_array_u_get(argv[0], i), t1[i], x[i]); }
	for(int i = 0; i < n2; i++) { t2[i] = vc_pick(types, NINT + 2); y[i] = val(); put(osc_atom_array_u_get(argv[1], i), t2[i], y[i]); }
	int n = n1 == 1 ? n2 : n2 == 1 ? n1 : n1 < n2 ? n1 : n2;
	ENSURE("ok", osc_expr_2arg(&e, 2, argv, &out, NULL) == 0);
	ENSURE("length", out && (int)osc_atom_array_u_getLen(out) == n);
	for(int i = 0; i < n; i++) {
		t_osc_atom_u *r = osc_atom_u_alloc();
		fs[op](osc_atom_array_u_get(argv[0], n1 == 1 ? 0 : i), osc_atom_array_u_get(argv[1], n2 == 1 ? 0 : i), &r, NULL);
		ENSURE("each_element", same_atom(osc_atom_array_u_get(out, i), r));
		osc_atom_u_free(r);
	}
	for(int i = 0; i < n1; i++) ENSURE("operands_kept", kept(osc_atom_array_u_get(argv[0], i), t1[i], x[i]));
	for(int i = 0; i < n2; i++) ENSURE("operands_kept", kept(osc_atom_array_u_get(argv[1], i), t2[i], y[i]));
	osc_atom_array_u_free(argv[0]); osc_atom_array_u_free(argv[1]); osc_atom_array_u_free(out);
}
//@ proof plus1_sweep prop=C24 cbmc=0 kind=bounded bound="run-time contract on sampled lists of up to 6 numbers" sweep=2 functions=osc_expr_plus1,osc_expr_minus1
void plus1_sweep(void)
{
	int n = (int)vc_range(1, LMAX), down = vc_bool(); char t1[LMAX]; uint64_t x[LMAX];
	t_osc_atom_ar_u *ar = osc_atom_array_u_alloc(n), *out = NULL;
	for(int i = 0; i < n; i++) { t1[i] = vc_pick("iIhHfd", 6); x[i] = val(); put(osc_atom_array_u_get(ar, i), t1[i], x[i]); }
	ENSURE("ok", (down ? osc_expr_minus1 : osc_expr_plus1)(NULL, 1, &ar, &out, NULL) == 0);
	ENSURE("length", out && (int)osc_atom_array_u_getLen(out) == n);
	for(int i = 0; i < n; i++) {
		t_osc_atom_u *r = osc_atom_array_u_get(out, i);
		if(t1[i] == 'f') ENSURE("float", osc_atom_u_getTypetag(r) == 'f' && sameval(r->w.f, bits32f((uint32_t)x[i]) + (down ? -1.f : 1.f)));
		else if(t1[i] == 'd') ENSURE("double", osc_atom_u_getTypetag(r) == 'd' && sameval(r->w.d, bits64d(x[i]) + (down ? -1. : 1.)));
		else ENSURE("same_type", kept(r, t1[i], x[i] + (down ? -1 : 1)));
		ENSURE("operand_kept", kept(osc_atom_array_u_get(ar, i), t1[i], x[i]));
	}
	osc_atom_array_u_free(ar); osc_atom_array_u_free(out);
}
int osc_expr_and(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void *context);
int osc_expr_or(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void *context);
int osc_expr_mod(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void *context);
//@ proof logic_sweep prop=C24 cbmc=0 kind=bounded bound="run-time contract on sampled values" sweep=2 functions=osc_expr_and,osc_expr_or,osc_expr_mod
void logic_sweep(void)
{
	uint64_t x = vc_bool() ? 0 : val(), y = vc_bool() ? 0 : val(); int m = (int)vc_range(0, NINT - 1), n = (int)vc_range(0, NINT - 1), op = (int)vc_range(0, 2);
	BEFORE(m, n)
	int p = !zero(t1, x), q = !zero(t2, y);
	if(op == 2) { m = (int)vc_range(0, 4); n = (int)vc_range(0, 4); t1 = types[m]; t2 = types[n]; put(a, t1, x); put(b, t2, y); q = !zero(t2, y); }
	ENSURE("ok", (op == 0 ? osc_expr_and : op == 1 ? osc_expr_or : osc_expr_mod)(a, b, &r, NULL) == 0);
	if(op < 2) ENSURE("logic", osc_atom_u_getTypetag(r) == ((op == 0 ? p && q : p || q) ? 'T' : 'F'));
	else if(!q) ENSURE("modulo_zero", kept(r, t1, x));
	else {
		int64_t u = (int64_t)wide(t1, x), v = (int64_t)wide(t2, y), w = osc_atom_u_getInt64(r);
		if(v < 0) v = -v;
		ENSURE("modulo", osc_atom_u_getTypetag(r) == 'i' && w >= 0 && w < v && (u - w) % v == 0);
	}
	AFTER()
}
