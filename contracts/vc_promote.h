/* Included before a library module when only the verifier compiles it (promote=1): CBMC's contract
 * instrumentation does not follow variadic calls, so a call of snprintf becomes a call of a model function
 * of fixed arity, chosen by the number and type of the formatted arguments. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int vc_sn_u(char *b, size_t n, const char *f, unsigned x);
int vc_sn_f(char *b, size_t n, const char *f, double x);
int vc_sn_s(char *b, size_t n, const char *f, const char *x);
int vc_sn_ss(char *b, size_t n, const char *f, const char *x, const char *y);
int vc_sn_other(char *b, size_t n, const char *f, ...);
#define VC_SN1(b, n, f, x) _Generic((x) + 0, double: vc_sn_f, float: vc_sn_f, char *: vc_sn_s, const char *: vc_sn_s, default: vc_sn_u)(b, n, f, x)
#define VC_SN2(b, n, f, x, y) _Generic((x) + 0, char *: _Generic((y) + 0, char *: vc_sn_ss, default: vc_sn_other), default: vc_sn_other)(b, n, f, x, y)
#define VC_SN3(b, n, f, ...) vc_sn_other(b, n, f)
#define VC_SNN(a, b, c, d, e, g, h, i, n, ...) VC_SN##n
#define snprintf(b, n, f, ...) VC_SNN(__VA_ARGS__, 3, 3, 3, 3, 3, 3, 2, 1, 0)(b, n, f, __VA_ARGS__)
