/* Contracts for osc_array.c (C14): any length, any element size up to 64 bytes, arbitrary contents.
 * "Every element/byte" is stated for an arbitrary index chosen before the call (the_k). */
#include <string.h>
#include "osc_mem.h"
#include "osc_error.h"
#include "osc_array.h"
#include "osc_array.r"
//@ sources osc_array osc_mem

#define MAXLEN() (VC_STEER ? 40L : 0x7fffffL)
static t_osc_array *mk(long len, size_t ms)
{
	t_osc_array *a = vc_malloc(sizeof *a);
	a->len = len; a->membersize = ms;
	a->ar = vc_malloc(len * ms);
#if VC_IS_NATIVE
	for(long i = 0; i < (long)(len * ms); i++) ((char *)a->ar)[i] = (char)(i * 7 + 1);
#endif
	return a;
}
static long any_len(void) { return vc_range(1, MAXLEN()); }
static size_t any_ms(void) { return (size_t)vc_range(1, 64); }
static char byte(t_osc_array *a, long k) { return ((char *)a->ar)[k]; }
static long nbytes(t_osc_array *a) { return a->len * (long)a->membersize; }

//@ contract void *osc_array_get(t_osc_array *ar, long idx)
//@ assigns
//@ ensures inside: ar == NULL || idx < 0 || idx >= ar->len || (char *)RET == (char *)ar->ar + idx * (long)ar->membersize
//@ ensures outside: (ar != NULL && idx >= 0 && idx < ar->len) || RET == NULL

//@ contract long osc_array_getLen(t_osc_array *ar)
//@ assigns
//@ ensures len: RET == (ar ? ar->len : 0)

//@ proof array_get prop=C14 enforce=osc_array_get sweep=3
void array_get(void)
{
	t_osc_array *a = mk(any_len(), any_ms());
	long i = vc_i64();
	osc_array_get(vc_bool() ? NULL : a, i);
	VC_COVER("inside", i >= 0 && i < a->len);
	VC_REACHED();
}
//@ proof array_getLen prop=C14 enforce=osc_array_getLen sweep=1
void array_getLen(void) { t_osc_array *a = mk(any_len(), any_ms()); osc_array_getLen(vc_bool() ? NULL : a); VC_REACHED(); }

//@ proof array_alloc prop=C14 sweep=3 functions=osc_array_allocWithSize,osc_array_clear,osc_array_free solver=cadical
void array_alloc(void)
{
	long n = vc_range(1, MAXLEN()); size_t ms = any_ms();
	t_osc_array *a = osc_array_allocWithSize(n, ms);
	ENSURE("len", osc_array_getLen(a) == n && a->membersize == ms);
	long k = vc_range(0, MAXLEN() * 64);
	REQUIRE(k < n * (long)ms);
	ENSURE("cleared", byte(a, k) == 0);
	VC_COVER("middle", n > 2 && ms > 2 && k == (long)ms);
	VC_REACHED();
	osc_array_free(a);
}
//@ proof array_copy prop=C14 sweep=3 functions=osc_array_copy solver=cadical
void array_copy(void)
{
	t_osc_array *a = mk(any_len(), any_ms());
	long k = vc_range(0, MAXLEN() * 64);
	REQUIRE(k < nbytes(a));
	char b = byte(a, k); long n = a->len; size_t ms = a->membersize;
	t_osc_array *c = osc_array_copy(a);
	ENSURE("fresh", c != a && c->ar != a->ar);
	ENSURE("len", c->len == n && c->membersize == ms && a->len == n && a->membersize == ms);
	ENSURE("elements", byte(c, k) == b);
	ENSURE("source_kept", byte(a, k) == b);
	VC_REACHED();
}
//@ for MS in 1 | 4 | 24
//@ proof array_copyInto_new_${MS} prop=C14 sweep=3 functions=osc_array_copyInto solver=cadical
void array_copyInto_new_${MS}(void)
{
	t_osc_array *a = mk(any_len(), ${MS}), *d = NULL;
	long off = vc_range(0, MAXLEN()), k = vc_range(0, MAXLEN() * 64);
	REQUIRE(k < nbytes(a));
	char b = byte(a, k); long n = a->len; size_t ms = a->membersize;
	t_osc_err e = osc_array_copyInto(&d, a, off);
	ENSURE("ok", e == OSC_ERR_NONE && d != NULL);
	ENSURE("len", d->len == n + off && d->membersize == ms && a->len == n);
	ENSURE("elements", byte(d, off * (long)ms + k) == b && byte(a, k) == b);
	VC_REACHED();
}
//@ endfor
//@ for MS in 1 | 4 | 24
//@ proof array_copyInto_${MS} prop=C14 sweep=4 functions=osc_array_copyInto,osc_array_resize solver=cadical
void array_copyInto_${MS}(void)
{
	size_t ms = ${MS};
	t_osc_array *a = mk(any_len(), ms), *d = mk(any_len(), ms), *d0 = d;
	long off = vc_range(0, MAXLEN()), k = vc_range(0, MAXLEN() * 64), j = vc_range(0, MAXLEN() * 64);
	REQUIRE(k < nbytes(a) && j < nbytes(d));
	VC_TRACK(j);
	char b = byte(a, k), old = byte(d, j); long n = a->len, m = d->len;
	t_osc_err e = osc_array_copyInto(&d, a, off);
	ENSURE("ok", e == OSC_ERR_NONE && d == d0);
	ENSURE("len", d->len == (n + off > m ? n + off : m) && d->membersize == ms);
	ENSURE("elements", byte(d, off * (long)ms + k) == b);
	ENSURE("others_kept", (j >= off * (long)ms && j < (off + n) * (long)ms) || byte(d, j) == old);
	ENSURE("source_kept", a->len == n && byte(a, k) == b);
	VC_COVER("grow", n + off > m);
	VC_COVER("fits", n + off < m);
	VC_REACHED();
}
//@ endfor
//@ for MS in 1 | 4 | 24
//@ proof array_resize_${MS} prop=C14 sweep=4 functions=osc_array_resize solver=cadical
void array_resize_${MS}(void)
{
	t_osc_array *a = mk(any_len(), ${MS});
	int n = (int)vc_range(1, MAXLEN());
	long j = vc_range(0, MAXLEN() * 64), m = a->len, ms = (long)a->membersize;
	REQUIRE(j < n * ms);
	VC_TRACK(j);
	char old = j < m * ms ? byte(a, j) : 0;
	t_osc_err e = osc_array_resize(a, n);
	ENSURE("ok", e == OSC_ERR_NONE);
	ENSURE("len", a->len == n && (long)a->membersize == ms);
	ENSURE("elements", byte(a, j) == old);
	VC_COVER("grow", n > m && j >= m * ms);
	VC_COVER("shrink", n < m);
	VC_REACHED();
}
//@ endfor
//@ proof array_null prop=C14 sweep=1 functions=osc_array_copy,osc_array_copyInto,osc_array_resize,osc_array_clear,osc_array_free
void array_null(void)
{
	t_osc_array *d = NULL;
	ENSURE("copy", osc_array_copy(NULL) == NULL);
	ENSURE("copyInto", osc_array_copyInto(&d, NULL, vc_range(0, 5)) != OSC_ERR_NONE && d == NULL);
	ENSURE("resize", osc_array_resize(NULL, 3) != OSC_ERR_NONE);
	osc_array_clear(NULL);
	osc_array_free(NULL);
	VC_REACHED();
}
