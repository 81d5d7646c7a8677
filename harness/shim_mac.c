// C35: the interface macros with argument expressions of every kind (call sites in mac_gen.h, made by gen_mac.py)
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include "shim.h"
#include "strview.h"
#include "strbuf.h"
#include "strnum.h"
#include "accessories/strbuf_pack.h"
#include "accessories/strview_unpack.h"

#define INTS(X) X(uint8_t, u8) X(int8_t, s8) X(uint16_t, u16) X(int16_t, s16) X(uint32_t, u32) X(int32_t, s32) X(uint64_t, u64) X(int64_t, s64)
struct E
{
	long n[4]; int vc; int yes, no, zero;
	strbuf_t* b; strbuf_t** pab[3]; strbuf_t*** pb; strbuf_t** ab[3]; int kb; strbuf_t** tb;
	strview_t v, w, tv, tw, other, empty, out; strview_t av[3], aw[3]; const strview_t* pw; strview_t* pv; int kv, kw; strview_t c[127];
	const char* s; char* m; const char* before; const char* as[3]; const char** ps; int ks; const char* ts; char buf[64]; char cbuf_[64];
	int i, ai[3], *pi, ki, ti; size_t cap;
	int o, ao[3], *po;
	strview_t* pnv; strview_t* tpv;
	strbuf_allocator_t alloc, alloc2; strbuf_allocator_t* pal;
	void *dst, *dst0;
	int n9; void (*got)(strbuf_t*, int, void*); void* user;
	int kp;
#define DECL(T, f) T f, a##f[3], *p##f, not_##f;
	INTS(DECL)
	struct { 
#define MEMB(T, f) T f;
		INTS(MEMB) uint64_t wide; } x;
	const char* lit; int r, size_only; char print[400];
};
#define cbuf cbuf_
static strview_t get_v(struct E* e) { e->n[e->vc]++; return e->v; }
static strview_t get_w(struct E* e) { e->n[1]++; return e->w; }
static strview_t get_c(struct E* e, int i) { e->n[1]++; return e->c[i]; }
static const char* get_s(struct E* e) { e->n[1]++; return e->s; }
static char* get_m(struct E* e) { e->n[1]++; return e->m; }
static strbuf_t** get_b(struct E* e) { e->n[0]++; return &e->b; }
static int get_i(struct E* e) { e->n[2]++; return e->i; }
static int get_o(struct E* e) { e->n[2]++; return e->o; }
static strview_t* get_pv(struct E* e) { e->n[1]++; return &e->v; }
static void* get_d(struct E* e) { e->n[0]++; return e->dst; }
#define GETI(T, f) static T get_##f(struct E* e) { e->n[1]++; return e->f; }
INTS(GETI)
struct mac_form { void (*f)(struct E*); int op, kind, lit; int n[3]; int extra; };
#include "mac_gen.h"
static const char* const lits[] = { "", "ab", "x,y", "" };

static strview_t vf_in(SV v) { return (strview_t){ .data = v.data, .size = v.size }; }
static SV vf_out(strview_t v) { return (SV){ v.data, v.size }; }
static void* mac_alloc(struct strbuf_allocator_t* a, void* p, size_t n) { return vf_alloc(a->app_data, p, n); }
static void* mac_alloc_wrong(struct strbuf_allocator_t* a, void* p, size_t n) { (void)a; (void)p; (void)n; abort(); }

int vm_count(void) { return (int)(sizeof mac_table / sizeof mac_table[0]); }
void vm_info(int k, MI* i)
{
	const struct mac_form* t = &mac_table[k]; i->op = t->f ? t->op : -1; i->kind = t->kind; i->lit = t->kind == 3 ? lits[t->lit] : NULL; i->extra = t->extra;
	for(int j = 0; j < 3; j++) i->want[j] = t->n[j];
}
void vm_call(int k, MA* a)
{
	struct E E_, *e = &E_; memset(e, 0, sizeof *e);
	e->yes = 1; e->vc = a->vc; e->b = a->b; e->pab[0] = &e->b; e->pb = e->pab; e->ab[0] = &e->b;
	e->other = cstr("other"); e->empty = cstr(""); e->out = cstr("nothing was returned");
	e->v = vf_in(a->v); e->w = vf_in(a->w);
	for(int j = 0; j < 3; j++) { e->av[j] = j == 1 ? e->v : e->other; e->aw[j] = j == 1 ? e->w : e->other; e->as[j] = j == 1 ? a->s : "wrong"; e->ai[j] = j == 1 ? a->i : 1; e->ao[j] = j == 1 ? a->o : 3; }
	e->pv = &e->av[1]; e->pw = &e->aw[1]; e->kv = e->kw = e->ks = e->ki = 1; e->ps = &e->as[1]; e->pi = &e->ai[1]; e->po = &e->ao[1];
	for(int j = 0; j < 127; j++) e->c[j] = vf_in(a->c[j]);
	e->s = a->s; e->m = (char*)a->s; e->before = a->s ? a->s - 1 : NULL;
	if(a->s && strlen(a->s) < 60) { strcpy(e->buf, a->s); strcpy(e->cbuf, a->s); }
	e->i = a->i; e->cap = (size_t)a->i; e->o = a->o; e->pnv = &e->v;
	e->alloc = (strbuf_allocator_t){ .app_data = a->app, .allocator = mac_alloc }; e->alloc2 = (strbuf_allocator_t){ .app_data = a->app, .allocator = mac_alloc_wrong }; e->pal = &e->alloc;
	e->dst = a->dst; e->dst0 = (char*)a->dst - a->dst_size; e->n9 = a->n9; e->got = a->got; e->user = a->user; e->kp = 1;
#define SET(T, f) e->f = e->x.f = (T)a->num; for(int j = 0; j < 3; j++) e->a##f[j] = j == 1 ? (T)a->num : (T)0x5B; e->p##f = &e->a##f[1]; e->not_##f = (T)~(T)a->num;
	INTS(SET)
	mac_table[k].f(e);
	e->n[0] += (e->pb - e->pab) + e->kb; e->n[a->vc] += (e->pv - &e->av[1]) + (e->kv - 1); e->n[1] += (e->pw - &e->aw[1]) + (e->kw - 1) + (e->ps - &e->as[1]) + (e->ks - 1);
	e->n[2] += (e->pi - &e->ai[1]) + (e->ki - 1) + (e->po - &e->ao[1]) + (e->pal - &e->alloc); e->n[1] += e->pnv - &e->v; e->n[1] += e->kp - 1;
#define ADD(T, f) e->n[1] += e->p##f - &e->a##f[1];
	INTS(ADD)
	for(int j = 0; j < 4; j++) a->n[j] = e->n[j];
	a->b = e->b; a->out = vf_out(e->out); a->v_after = vf_out(mac_table[k].op >= 40 && mac_table[k].op < 60 ? e->v : e->out); a->r = e->r; a->size_only = e->size_only; a->wide = e->x.wide; a->lit = e->lit;
	memcpy(a->print, e->print, sizeof a->print);
}
