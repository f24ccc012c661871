/* Contracts for the text form of bundles (C26): osc_bundle_u_format, osc_bundle_s_nformat and
 * osc_parser_parseString, the generated scanner and parser included. */
#include <math.h>
#include <stdio.h>
#include "model.h"
#include "osc_parser.h"
//@ sources osc_bundle_u osc_bundle_s osc_message_u osc_message_s osc_atom_u osc_atom_s osc_strfmt osc_parser osc_scanner osc_timetag

/* values whose text says all there is: int32, printable character, string, true, false, nil, numbers of
 * at most 6 digits, whole seconds */
static void text_arg(struct marg *a)
{
	char t = vc_pick("icsTFNsidt", 10);
	int n = (int)vc_range(0, 12);
	marg_any(a, t, n);
	if(t == 'c') a->v = (uint8_t)vc_range(' ', '~');
	if(t == 'd') a->v = f64bits((double)vc_range(-8000, 8000) / 8);
	if(t == 't') a->v = (uint64_t)vc_u32() << 32;
	if(t == 's') for(int k = 0; k < n; k++) a->s[k] = vc_range(0, 9) ? vc_pick("\"\\ab ,{}[]:'/#\n\t.0", 18) : (char)vc_range(-128, -1);
}
static void text_bundle(struct mbndl *b, int depth)
{
	b->n = (int)vc_range(1, M_MSGS);
	for(int i = 0; i < b->n; i++) {
		struct mmsg *m = b->m + i;
		m->al = (int)vc_range(2, M_ADR); m->adr[0] = '/';
		for(int k = 1; k < m->al; k++) m->adr[k] = vc_pick("abc/01._-*", 10);
		m->adr[m->al] = 0;
		m->argc = (int)vc_range(0, vc_range(0, 1) ? 2 : M_ARGS);
		for(int k = 0; k < m->argc; k++) {
			struct marg *a = m->a + k;
			text_arg(a);
			if(depth > 0 && vc_range(0, 5) == 0) {
				a->t = OSC_BUNDLE_TYPETAG; a->v = 0; a->n = 0; a->s[0] = 0;
				a->b = (struct mbndl *)vc_malloc(sizeof(struct mbndl)); a->b->n = 0;
				if(vc_range(0, 4)) text_bundle(a->b, depth - 1);
			}
		}
	}
}
static t_osc_bndl_u *parsed(char *text)
{
	t_osc_bndl_u *r = NULL;
	ENSURE("accepted", osc_parser_parseString((long)strlen(text), text, &r) == OSC_ERR_NONE && r);
	return r;
}
//@ proof text_u_sweep prop=C26 cbmc=0 kind=bounded bound="run-time contract on sampled bundles of up to 6 messages of up to 12 arguments, nested up to 2 deep" sweep=10 functions=osc_bundle_u_format,osc_bundle_u_nformat,osc_bundle_u_nformatNestedBndl,osc_message_u_nformat,osc_atom_u_nformat,osc_parser_parseString,osc_parser_parse,osc_scanner_lex
void text_u_sweep(void)
{
	static struct mbndl x; text_bundle(&x, 2);
	t_osc_bndl_u *u = mbndl_u(&x);
	char *t = osc_bundle_u_format(u);
	ENSURE("size", osc_bundle_u_getFormattedSize(u) == (long)strlen(t));
	t_osc_bndl_u *r = parsed(t);
	ENSURE("round_trip", mbndl_is(r, &x));
	ENSURE("unchanged", mbndl_is(u, &x));
	osc_bundle_u_free(r); osc_bundle_u_free(u); osc_mem_free(t);
}
//@ proof text_s_sweep prop=C26 cbmc=0 kind=bounded bound="run-time contract on sampled serialized bundles of up to 6 messages of up to 12 arguments, nested up to 2 deep" sweep=10 functions=osc_bundle_s_format,osc_bundle_s_nformat,osc_bundle_s_nformatNestedBndl,osc_message_s_nformat,osc_atom_s_nformat,osc_parser_parseString
void text_s_sweep(void)
{
	static struct mbndl x; text_bundle(&x, 2);
	int z = mbndl_size(&x); char *b = vc_malloc(z); mbndl_bytes(&x, b);
	long n = osc_bundle_s_nformat(NULL, 0, z, b, 0);
	char *t = vc_malloc(n + 1);
	ENSURE("size", osc_bundle_s_nformat(t, n + 1, z, b, 0) == n && (long)strlen(t) == n);
	t_osc_bndl_u *r = parsed(t);
	ENSURE("round_trip", mbndl_is(r, &x));
	osc_bundle_u_free(r);
}
