/* Trusted model of snprintf for the verifier only: literal text, %s, %d/%i, %c, %%.
 * (The native side uses the C library's snprintf.) */
#ifdef VC_CBMC
#include <stdarg.h>
static void vc_emit(char *buf, size_t n, size_t *c, char ch) { if(*c + 1 < n) buf[*c] = ch; (*c)++; }
int snprintf(char *buf, size_t n, const char *fmt, ...)
{
	va_list ap; size_t c = 0;
	va_start(ap, fmt);
	for(size_t i = 0; fmt[i]; i++) {
		if(fmt[i] != '%') { vc_emit(buf, n, &c, fmt[i]); continue; }
		i++;
		if(fmt[i] == 's') {
			char *s = va_arg(ap, char *);
			for(size_t k = 0; s[k]; k++) vc_emit(buf, n, &c, s[k]);
		} else if(fmt[i] == 'c') vc_emit(buf, n, &c, (char)va_arg(ap, int));
		else if(fmt[i] == 'd' || fmt[i] == 'i') {
			int v = va_arg(ap, int); char d[12]; int k = 0;
			if(v < 0) { vc_emit(buf, n, &c, '-'); v = -v; }
			do { d[k++] = '0' + v % 10; v /= 10; } while(v);
			while(k) vc_emit(buf, n, &c, d[--k]);
		} else if(fmt[i] == '%') vc_emit(buf, n, &c, '%');
		else __CPROVER_assert(0, "snprintf model: conversion not modelled");
	}
	va_end(ap);
	if(n > 0) buf[c < n ? c : n - 1] = 0;
	return (int)c;
}
#endif
