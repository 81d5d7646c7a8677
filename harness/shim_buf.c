#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include "shim.h"
#include "strview.h"
#include "strbuf.h"
#include "cat_gen.h"
#ifdef STRBUF_PROVIDE_PRNF
	#include "prnf.h"
#endif

static strview_t vf_in(SV v) { return (strview_t){ .data = v.data, .size = v.size }; }
static SV vf_out(strview_t v) { return (SV){ v.data, v.size }; }

static void* shim_alloc(struct strbuf_allocator_t* a, void* p, size_t n) { return vf_alloc(a->app_data, p, n); }

#ifdef VF_USER_DEFAULT
	strbuf_allocator_t strbuf_default_allocator = { .app_data = (void*)&vb_header, .allocator = shim_alloc };
#endif

int vb_size(SB* b) { return b->size; }
int vb_cap(SB* b) { return b->capacity; }
char* vb_cstr(SB* b) { return b->cstr; }
size_t vb_header(void) { return sizeof(strbuf_t); }
int vb_is_dynamic(SB* b) { return b->allocator.allocator != NULL; }
void* vb_appdata(SB* b) { return b->allocator.app_data; }

SB* vb_create_empty(size_t cap, void* app, int dflt)
{
	strbuf_allocator_t a = { .app_data = app, .allocator = shim_alloc };
	return strbuf_create_empty(cap, dflt ? NULL : &a);
}
SB* vb_create_macro_int(int cap, void* app, int dflt)
{
	strbuf_allocator_t a = { .app_data = app, .allocator = shim_alloc };
	return strbuf_create(cap, dflt ? NULL : &a);
}
SB* vb_create_macro_size(size_t cap, void* app, int dflt)
{
	strbuf_allocator_t a = { .app_data = app, .allocator = shim_alloc };
	return strbuf_create(cap, dflt ? NULL : &a);
}
SB* vb_create_init(SV v, void* app, int dflt, int macro)
{
	strbuf_allocator_t a = { .app_data = app, .allocator = shim_alloc };
	return macro ? strbuf_create(vf_in(v), dflt ? NULL : &a) : strbuf_create_init(vf_in(v), dflt ? NULL : &a);
}
SB* vb_create_null_allocfn(size_t cap) { strbuf_allocator_t a = { 0 }; return strbuf_create_empty(cap, &a); }
SB* vb_create_init_null_allocfn(SV v) { strbuf_allocator_t a = { 0 }; return strbuf_create_init(vf_in(v), &a); }
SB* vb_create_fixed(void* addr, size_t n) { return strbuf_create_fixed(addr, n); }

// static spaces: STRBUF_STATIC_INIT
#define CAPS(X) X(0) X(1) X(2) X(3) X(7) X(8) X(15) X(16) X(17) X(31) X(33) X(50) X(64) X(100) X(255) X(300)
#define STAT(c) { static strbuf_space_t(c) sp = STRBUF_STATIC_INIT(c); \
	strbuf_space_t(c) fresh = STRBUF_STATIC_INIT(c); static int used; \
	if(used) memcpy(&sp, &fresh, sizeof sp); used = 1; if(k++ == i) { *cap = c; return (strbuf_t*)&sp; } }
int vb_static_count(void) { int k = 0;
#define ONE(c) k++;
	CAPS(ONE) return k; }
SB* vb_static(int i, int* cap) { int k = 0; CAPS(STAT) return NULL; }
#define STK(c) if(k++ == i) { strbuf_t* b = STRBUF_FIXED_CAP(c); fn(b, c, u); return; }
int vb_stack_count(void) { return vb_static_count(); }
void vb_on_stack(int i, void (*fn)(SB*, int, void*), void* u) { int k = 0; CAPS(STK) }
static strbuf_t* file_scope_buf = STRBUF_FIXED_CAP(40);
SB* vb_file_scope(int* cap) { *cap = 40; return file_scope_buf; }

SV vb_cat(SB** b, int n, const SV* a)
{
	strview_t A[128]; int i;
	for(i = 0; i < n; i++) A[i] = vf_in(a[i]);
	return vf_out(cat_n(b, n, A));
}
static strview_t vcat_helper(strbuf_t** b, int n, ...) { va_list va; va_start(va, n); strview_t r = strbuf_vcat(b, n, va); va_end(va); return r; }
SV vb_vcat(SB** b, int n, const SV* a)
{
	strview_t A[16]; int i;
	for(i = 0; i < 16; i++) A[i] = i < n ? vf_in(a[i]) : STRVIEW_INVALID;
	return vf_out(vcat_helper(b, n, A[0], A[1], A[2], A[3], A[4], A[5], A[6], A[7], A[8], A[9], A[10], A[11], A[12], A[13], A[14], A[15]));
}
SV vb_append(SB** b, SV v) { return vf_out(strbuf_append(b, vf_in(v))); }
SV vb_append_s(SB** b, const char* s, int nc) { return vf_out(nc ? strbuf_append(b, (char*)s) : strbuf_append(b, s)); }
SV vb_prepend(SB** b, SV v) { return vf_out(strbuf_prepend(b, vf_in(v))); }
SV vb_prepend_s(SB** b, const char* s, int nc) { return vf_out(nc ? strbuf_prepend(b, (char*)s) : strbuf_prepend(b, s)); }
SV vb_insert_at(SB** b, int i, SV v) { return vf_out(strbuf_insert_at_index(b, i, vf_in(v))); }
SV vb_insert_at_s(SB** b, int i, const char* s, int nc) { return vf_out(nc ? strbuf_insert_at_index(b, i, (char*)s) : strbuf_insert_at_index(b, i, s)); }
SV vb_insert_before(SB** b, SV d, SV v) { return vf_out(strbuf_insert_before(b, vf_in(d), vf_in(v))); }
SV vb_insert_before_s(SB** b, SV d, const char* s, int nc) { return vf_out(nc ? strbuf_insert_before(b, vf_in(d), (char*)s) : strbuf_insert_before(b, vf_in(d), s)); }
SV vb_insert_after(SB** b, SV d, SV v) { return vf_out(strbuf_insert_after(b, vf_in(d), vf_in(v))); }
SV vb_insert_after_s(SB** b, SV d, const char* s, int nc) { return vf_out(nc ? strbuf_insert_after(b, vf_in(d), (char*)s) : strbuf_insert_after(b, vf_in(d), s)); }
SV vb_strip(SB** b, SV v) { return vf_out(strbuf_strip(b, vf_in(v))); }
SV vb_strip_s(SB** b, const char* s, int nc) { return vf_out(nc ? strbuf_strip(b, (char*)s) : strbuf_strip(b, s)); }
SV vb_assign(SB** b, SV v) { return vf_out(strbuf_assign(b, vf_in(v))); }
SV vb_append_char(SB** b, char c) { return vf_out(strbuf_append_char(b, c)); }
SV vb_view(SB** b) { return vf_out(strbuf_view(b)); }
SV vb_shrink(SB** b) { return vf_out(strbuf_shrink(b)); }
SV vb_grow(SB** b, int n) { return vf_out(strbuf_grow(b, n)); }
void vb_destroy(SB** b) { strbuf_destroy(b); }
char* vb_to_cstr(SB** b) { return strbuf_to_cstr(b); }
SV vb_append_using(SB** b, int (*f)(void*, int, void*), void* vars) { return vf_out(strbuf_append_using(b, f, vars)); }
int vb_grow_step(void) { return STRBUF_CAPACITY_GROW_STEP; }

#define CALL(r, f, ...) switch(shape) { \
	case SH_NONE: r = f(__VA_ARGS__, fmt); break; \
	case SH_I: r = f(__VA_ARGS__, fmt, a->i); break; \
	case SH_S: r = f(__VA_ARGS__, fmt, a->s); break; \
	case SH_IS: r = f(__VA_ARGS__, fmt, a->i, a->s); break; \
	case SH_IIS: r = f(__VA_ARGS__, fmt, a->i, a->j, a->s); break; \
	case SH_D: r = f(__VA_ARGS__, fmt, a->d); break; \
	case SH_LL: r = f(__VA_ARGS__, fmt, a->ll); break; \
	case SH_SIS: r = f(__VA_ARGS__, fmt, a->s, a->i, a->t); break; \
	case SH_ID: r = f(__VA_ARGS__, fmt, a->i, a->d); break; \
	case SH_WS: r = f(__VA_ARGS__, fmt, a->ws); break; \
	case SH_LD: r = f(__VA_ARGS__, fmt, a->ld); break; \
	case SH_P: r = f(__VA_ARGS__, fmt, a->p); break; \
	case SH_III: r = f(__VA_ARGS__, fmt, a->i, a->j, a->k); break; \
	case SH_ISD: r = f(__VA_ARGS__, fmt, a->i, a->s, a->d); break; \
	default: abort(); }
#define VHELP(name, f) static strview_t name(strbuf_t** b, const char* fmt, ...) { va_list va; va_start(va, fmt); strview_t r = f(b, fmt, va); va_end(va); return r; }

int vf_snprintf(char* dst, size_t n, int shape, const char* fmt, const FA* a) { int r; CALL(r, snprintf, dst, n) return r; }

#ifdef STRBUF_PROVIDE_PRINTF
VHELP(h_vprintf, strbuf_vprintf)
VHELP(h_append_vprintf, strbuf_append_vprintf)
int vb_has_printf(void) { return 1; }
SV vb_printf(SB** b, int form, int shape, const char* fmt, const FA* a)
{
	strview_t r;
	if(form == 0) CALL(r, strbuf_printf, b)
	else if(form == 1) CALL(r, h_vprintf, b)
	else if(form == 2) CALL(r, strbuf_append_printf, b)
	else CALL(r, h_append_vprintf, b)
	return vf_out(r);
}
#else
int vb_has_printf(void) { return 0; }
SV vb_printf(SB** b, int form, int shape, const char* fmt, const FA* a) { (void)b; (void)form; (void)shape; (void)fmt; (void)a; abort(); }
#endif
#ifdef STRBUF_PROVIDE_PRNF
VHELP(h_vprnf, strbuf_vprnf)
VHELP(h_append_vprnf, strbuf_append_vprnf)
int vb_has_prnf(void) { return 1; }
SV vb_prnf(SB** b, int form, int shape, const char* fmt, const FA* a)
{
	strview_t r;
	if(form == 0) CALL(r, strbuf_prnf, b)
	else if(form == 1) CALL(r, h_vprnf, b)
	else if(form == 2) CALL(r, strbuf_append_prnf, b)
	else CALL(r, h_append_vprnf, b)
	return vf_out(r);
}
int vf_snprnf(char* dst, size_t n, int shape, const char* fmt, const FA* a) { int r; CALL(r, snprnf, dst, n) return r; }
#else
int vb_has_prnf(void) { return 0; }
SV vb_prnf(SB** b, int form, int shape, const char* fmt, const FA* a) { (void)b; (void)form; (void)shape; (void)fmt; (void)a; abort(); }
int vf_snprnf(char* dst, size_t n, int shape, const char* fmt, const FA* a) { (void)dst; (void)n; (void)shape; (void)fmt; (void)a; abort(); }
#endif
#if defined(STRBUF_DEFAULT_ALLOCATOR_STDLIB) || defined(VF_USER_DEFAULT)
int vb_has_default(void) { return 1; }
#else
int vb_has_default(void) { return 0; }
#endif
void* vf_user_default_tag(void) { return (void*)&vb_header; }
