/* The expected content of a serialized bundle: a sequence of abstract messages, and its bytes. */
#ifndef SEQ_H
#define SEQ_H
#include "model.h"
#define MAXB 12
/* a sequence of messages: the expected content of a bundle */
#ifdef VC_CBMC
#define MAXM (MAXB * 2)
#else
#define MAXM 64
#endif
struct seq { int n; const struct mmsg *m[MAXM]; };
static int seq_size(const struct seq *s) { int z = 16; for(int i = 0; i < s->n; i++) z += 4 + mmsg_size(s->m[i]); return z; }
static int same_adr(const struct mmsg *x, const struct mmsg *y)
{
	if(x->al != y->al) return 0;
	for(int i = 0; i < x->al; i++) if(x->adr[i] != y->adr[i]) return 0;
	return 1;
}
static char *seq_bytes(const struct seq *s)
{
	int at = 16; char *p = vc_malloc(seq_size(s));
	for(int i = 0; i < 16; i++) p[i] = i < 7 ? "#bundle"[i] : 0;
	for(int i = 0; i < s->n; i++) at += mmsg_bytes(s->m[i], p + at);
	return p;
}
static int is(const struct seq *s, long len, const char *p)
{
	if(len != seq_size(s)) return 0;
	char *want = seq_bytes(s); len = seq_size(s);
	for(int i = 0; i < len; i++) if(want[i] != p[i]) return 0;
	return 1;
}
static t_osc_msg_s *wrap(const struct mmsg *x)
{
	char *b = vc_malloc(mmsg_size(x) + 4); mmsg_bytes(x, b);
	t_osc_msg_s *m = osc_message_s_alloc(); osc_message_s_wrap(m, b);
	return m;
}
#endif
