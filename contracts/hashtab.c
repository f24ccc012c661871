/* Contracts for osc_hashtab.c (C12). A table is compared with a map from key bytes to values.
 * The keys are arbitrary strings of up to 2 characters, hashed by the real hash function: with 17 slots
 * equal, colliding and unrelated keys all occur. Every table reachable by stores is the table after some sequence of stores
 * of distinct keys, so one further operation from each such table covers every history within the bound. */
#include <stdint.h>
#include <string.h>
#include "osc_mem.h"
#include "osc_hashtab.h"
#include "osc_hashtab.r"
//@ sources osc_hashtab osc_mem

#define KL 2
#define KN 3
static char key[KN][KL + 1], q[KL + 1], r[KL + 1];
static char val[8];
static int kl(const char *k) { int n = 0; while(n < KL && k[n]) n++; return n; }
static int keymax = KL;
static void any_key(char *k) { k[0] = vc_chr("ar/b"); k[1] = keymax > 1 && vc_bool() ? vc_chr("ar") : 0; k[2] = 0; }
static int same(const char *a, const char *b) { return a[0] == b[0] && (a[0] == 0 || a[1] == b[1]); }
/* the map: first nk keys, mv[i] the value of key i, distinct keys */
static int nk; static void *mv[KN + 1];
static void *want(const char *k) { for(int i = 0; i < nk; i++) if(same(key[i], k)) return mv[i]; return NULL; }

static int gone_n; static char *gone_key[8]; static void *gone_val[8];
static void dtor(char *k, void *v) { if(gone_n < 8) { gone_key[gone_n] = k; gone_val[gone_n] = v; } gone_n++; }

static t_osc_hashtab *build(t_osc_hashtab_dtor d, int n)
{
	t_osc_hashtab *ht = osc_hashtab_new(1, d);
	nk = 0; gone_n = 0;
	for(int i = 0; i < n; i++) {
		any_key(key[i]);
		for(int j = 0; j < i; j++) REQUIRE(!same(key[i], key[j]));
		mv[i] = &val[i];
		osc_hashtab_store(ht, kl(key[i]), key[i], mv[i]);
		nk++;
	}
	return ht;
}
#define CHECK(label) do { \
	for(int i_ = 0; i_ < KN; i_++) if(i_ < nk) ENSURE(label "_stored", osc_hashtab_lookup(ht, kl(key[i_]), key[i_]) == want(key[i_])); \
	ENSURE(label "_lookup", osc_hashtab_lookup(ht, kl(r), r) == want(r)); } while(0)

//@ proof hashtab_new_size prop=C12 sweep=2 functions=osc_hashtab_new,osc_hashtab_getPrime
void hashtab_new_size(void)
{
	int n = vc_i32();
	if(VC_STEER) n %= 40000;
	t_osc_hashtab *ht = osc_hashtab_new(n, NULL);
	ENSURE("empty", ht->nentries == 0 && ht->nslots > 0 && (n <= 0 || n >= 152287 || ht->nslots > n) && ht->dtor == NULL);
	VC_REACHED();
#if VC_IS_NATIVE
	osc_hashtab_destroy(ht);
#endif
}
//@ proof hashtab_new kind=bounded bound="17, 37 or 67 slots" prop=C12 sweep=2 functions=osc_hashtab_new
void hashtab_new(void)
{
	static const int sz[3] = { 1, 17, 37 }; int w = (int)vc_range(0, 2);
	VC_SPLIT(i, 0, 2, w,
		t_osc_hashtab *ht = osc_hashtab_new(sz[i], dtor);
		long k = vc_range(0, 66);
		ENSURE("slots_empty", k >= ht->nslots || ht->slots[k] == NULL);
		ENSURE("dtor", ht->dtor == dtor);)
	VC_REACHED();
}
//@ proof hashtab_store prop=C12 kind=bounded bound="up to 2 entries before the operation, keys of up to 2 characters, 17 slots" unwind=20 unwindset=osc_hash.0:4,strcmp.0:4,strlen.0:4 sweep=4 functions=osc_hashtab_store,osc_hashtab_doStore,osc_hashtab_store_elem,osc_hashtab_lookup,osc_hash solver=cadical
void hashtab_store(void)
{
	int n = (int)vc_range(0, 2);
	VC_SPLIT(k, 0, 2, n,
		t_osc_hashtab *ht = build(vc_bool() ? dtor : NULL, k);
		any_key(q); any_key(r);
		void *old = want(q); int has_dtor = ht->dtor != NULL; char *oldkey = NULL; void *v = &val[7];
		for(int i = 0; i < k; i++) if(same(key[i], q)) oldkey = key[i];
		osc_hashtab_store(ht, kl(q), q, v);
		ENSURE("count", ht->nentries == k + (old == NULL));
		ENSURE("replaced_released", gone_n == (old && has_dtor) && (!gone_n || (gone_key[0] == oldkey && gone_val[0] == old)));
		if(old) { for(int i = 0; i < nk; i++) if(same(key[i], q)) mv[i] = v; }
		else { memcpy(key[nk], q, 3); mv[nk++] = v; }
		CHECK("map");)
	VC_COVER("two", n == 2);
	VC_REACHED();
}
//@ proof hashtab_storeSafe prop=C12 kind=bounded bound="up to 2 entries before the operation, keys of up to 2 characters, 17 slots" unwind=20 unwindset=osc_hash.0:4,strcmp.0:4,strlen.0:4 sweep=4 functions=osc_hashtab_storeSafe,osc_hashtab_store_elem_safe solver=cadical
void hashtab_storeSafe(void)
{
	int n = (int)vc_range(0, 2);
	VC_SPLIT(k, 0, 2, n,
		t_osc_hashtab *ht = build(vc_bool() ? dtor : NULL, k);
		any_key(q); any_key(r);
		void *old = want(q), *v = &val[7];
		osc_hashtab_storeSafe(ht, kl(q), q, v);
		ENSURE("count", ht->nentries == k + (old == NULL));
		ENSURE("nothing_released", gone_n == 0);
		if(!old) { memcpy(key[nk], q, 3); mv[nk++] = v; }
		CHECK("map");)
	VC_REACHED();
}
//@ proof hashtab_remove prop=C12 kind=bounded bound="up to 3 entries, keys of one character, 17 slots" unwind=20 unwindset=osc_hash.0:4,strcmp.0:4,strlen.0:4 sweep=4 functions=osc_hashtab_remove solver=cadical
void hashtab_remove(void)
{
	keymax = VC_MAX(1, KL);
	int n = (int)vc_range(0, 3);
	VC_SPLIT(k, 0, 3, n,
		t_osc_hashtab *ht = build(NULL, k);
		any_key(q); any_key(r);
		void *old = want(q); int d = vc_bool(); char *oldkey = NULL;
		for(int i = 0; i < k; i++) if(same(key[i], q)) oldkey = key[i];
		osc_hashtab_remove(ht, kl(q), q, d ? dtor : NULL);
		ENSURE("count", ht->nentries == k - (old != NULL));
		ENSURE("released", gone_n == (old && d) && (!gone_n || (gone_key[0] == oldkey && gone_val[0] == old)));
		for(int i = 0; i < nk; i++) if(same(key[i], q)) mv[i] = NULL;
		CHECK("map");)
	VC_REACHED();
}
static int seen[8], strange;
static void visit(char *k, void *v, void *ctx)
{
	for(int i = 0; i < nk; i++) if(k == key[i] && v == mv[i] && ctx == (void *)seen) { seen[i]++; return; }
	strange++;
}
//@ proof hashtab_foreach prop=C12 kind=bounded bound="up to 3 entries, keys of one character, 17 slots" unwind=20 unwindset=osc_hash.0:4,strcmp.0:4,strlen.0:4 sweep=3 functions=osc_hashtab_foreach,osc_hashtab_clear solver=cadical
void hashtab_foreach(void)
{
	keymax = VC_MAX(1, KL);
	int n = (int)vc_range(0, 3);
	VC_SPLIT(k, 0, 3, n,
		t_osc_hashtab *ht = build(dtor, k);
		any_key(r);
		memset(seen, 0, sizeof seen); strange = 0;
		osc_hashtab_foreach(ht, visit, seen);
		ENSURE("all_once", strange == 0 && seen[0] == (k > 0) && seen[1] == (k > 1) && seen[2] == (k > 2) && ht->nentries == k);
		CHECK("foreach_keeps");
		osc_hashtab_clear(ht);
		ENSURE("cleared", ht->nentries == 0 && gone_n == k);
		int hits = 0;
		for(int i = 0; i < k; i++) for(int j = 0; j < k; j++) hits += gone_key[i] == key[j] && gone_val[i] == mv[j];
		ENSURE("each_released", hits == k);
		nk = 0;
		CHECK("empty");
		osc_hashtab_foreach(ht, visit, NULL);
		ENSURE("none", strange == 0);)
	VC_REACHED();
}
//@ proof hashtab_null prop=C12 sweep=1
void hashtab_null(void)
{
	any_key(q);
	osc_hashtab_store(NULL, 1, q, q); osc_hashtab_storeSafe(NULL, 1, q, q); osc_hashtab_remove(NULL, 1, q, NULL);
	osc_hashtab_foreach(NULL, visit, NULL); osc_hashtab_clear(NULL); osc_hashtab_destroy(NULL);
	ENSURE("null", osc_hashtab_lookup(NULL, 1, q) == NULL);
	VC_REACHED();
}
//@ proof hashtab_history prop=C12 cbmc=0 sweep=6 functions=osc_hashtab_store,osc_hashtab_storeSafe,osc_hashtab_remove,osc_hashtab_lookup,osc_hashtab_foreach,osc_hashtab_clear
#define HK 40
static char hkey[HK][8]; static void *hval[HK]; static int hseen[HK], hstrange;
static void hvisit(char *k, void *v, void *ctx)
{
	for(int i = 0; i < HK; i++) if(!strcmp(k, hkey[i]) && hval[i] == v) { hseen[i]++; return; }
	hstrange++;
}
void hashtab_history(void)
{
	static char vals[256];
	for(int i = 0; i < HK; i++) {
		int l = (int)vc_range(1, 6);
		for(int j = 0; j < l; j++) hkey[i][j] = vc_chr("/ab\xe9");
		hkey[i][l] = 0; hval[i] = NULL;
		for(int j = 0; j < i; j++) REQUIRE(strcmp(hkey[i], hkey[j]));
	}
	t_osc_hashtab *ht = osc_hashtab_new(vc_bool() ? 1 : (int)vc_range(-1, 600), NULL);
	long n = 0;
	for(int s = 0; s < 120; s++) {
		int k = (int)vc_range(0, HK - 1), len = (int)strlen(hkey[k]); char *v = &vals[vc_range(0, 255)];
		switch((int)vc_range(0, 3)) {
		case 0: osc_hashtab_store(ht, len, hkey[k], v); n += !hval[k]; hval[k] = v; break;
		case 1: osc_hashtab_storeSafe(ht, len, hkey[k], v); if(!hval[k]) { n++; hval[k] = v; } break;
		case 2: osc_hashtab_remove(ht, len, hkey[k], NULL); n -= hval[k] != NULL; hval[k] = NULL; break;
		default: break;
		}
		for(int i = 0; i < HK; i++) ENSURE("lookup", osc_hashtab_lookup(ht, (int)strlen(hkey[i]), hkey[i]) == hval[i]);
		ENSURE("count", ht->nentries == n);
	}
	memset(hseen, 0, sizeof hseen); hstrange = 0;
	osc_hashtab_foreach(ht, hvisit, NULL);
	ENSURE("strange", hstrange == 0);
	for(int i = 0; i < HK; i++) ENSURE("once", hseen[i] == (hval[i] != NULL));
	osc_hashtab_destroy(ht);
}
