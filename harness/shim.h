// C ABI between the C++ harness and the library: the C side goes through the public
// header (macros included), so the harness does not depend on struct layout.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { const char* data; int size; } SV;
typedef struct strbuf_t SB;

// allocator callback implemented by the harness; app is the application data given at creation
void* vf_alloc(void* app, void* ptr, size_t size);
// calls made by the library's own default allocator (malloc family is redirected here)
void* vf_realloc(void* p, size_t n); void* vf_malloc(size_t n); void* vf_calloc(size_t a, size_t b); void vf_free(void* p);

// ---- strbuf
int    vb_size(SB*); int vb_cap(SB*); char* vb_cstr(SB*); size_t vb_header(void);
int    vb_is_dynamic(SB*); void* vb_appdata(SB*);
SB*    vb_create_empty(size_t cap, void* app, int use_default);  // function
SB*    vb_create_macro_int(int cap, void* app, int use_default); // strbuf_create(int)
SB*    vb_create_macro_size(size_t cap, void* app, int use_default);
SB*    vb_create_init(SV v, void* app, int use_default, int macro);
SB*    vb_create_null_allocfn(size_t cap);                      // allocator struct without function
SB*    vb_create_init_null_allocfn(SV v);
SB*    vb_create_fixed(void* addr, size_t n);
int    vb_static_count(void); SB* vb_static(int i, int* cap);      // STRBUF_STATIC_INIT spaces (re-initialised)
void   vb_on_stack(int which, void (*fn)(SB*, int cap, void*), void*); int vb_stack_count(void);
SB*    vb_file_scope(int* cap);
SV     vb_cat(SB** b, int n, const SV* a);   // 1..127 via the macro
SV     vb_vcat(SB** b, int n, const SV* a);  // via strbuf_vcat, 0..16
SV     vb_append(SB** b, SV v); SV vb_append_s(SB** b, const char* s, int nonconst);
SV     vb_prepend(SB** b, SV v); SV vb_prepend_s(SB** b, const char* s, int nonconst);
SV     vb_insert_at(SB** b, int i, SV v); SV vb_insert_at_s(SB** b, int i, const char* s, int nonconst);
SV     vb_insert_before(SB** b, SV d, SV v); SV vb_insert_before_s(SB** b, SV d, const char* s, int nonconst);
SV     vb_insert_after(SB** b, SV d, SV v); SV vb_insert_after_s(SB** b, SV d, const char* s, int nonconst);
SV     vb_strip(SB** b, SV v); SV vb_strip_s(SB** b, const char* s, int nonconst);
SV     vb_assign(SB** b, SV v);
SV     vb_append_char(SB** b, char c); SV vb_view(SB** b); SV vb_shrink(SB** b); SV vb_grow(SB** b, int n);
void   vb_destroy(SB** b); char* vb_to_cstr(SB** b);
SV     vb_append_using(SB** b, int (*f)(void*, int, void*), void* vars);
int    vb_grow_step(void);
int    vb_has_printf(void); int vb_has_prnf(void); int vb_has_default(void);
// formatted printing: the argument shape selects which members are passed
typedef struct { int i, j, k; long long ll; double d; long double ld; const char* s; const char* t; const int* ws; void* p; } FA;
enum { SH_NONE, SH_I, SH_S, SH_IS, SH_IIS, SH_D, SH_LL, SH_SIS, SH_ID, SH_WS, SH_LD, SH_P, SH_III, SH_ISD, SH_N };
// form: 0 printf 1 vprintf 2 append_printf 3 append_vprintf
SV     vb_printf(SB** b, int form, int shape, const char* fmt, const FA* a);
SV     vb_prnf(SB** b, int form, int shape, const char* fmt, const FA* a);
int    vf_snprintf(char* dst, size_t n, int shape, const char* fmt, const FA* a);
int    vf_snprnf(char* dst, size_t n, int shape, const char* fmt, const FA* a);
// ---- crypt
SV     vb_encrypt(SB** b, uint8_t* key, uint8_t* iv); SV vb_decrypt(SB** b, uint8_t* key, uint8_t* iv);
// ---- strview
SV     vs_invalid(void); SV vs_cstr(const char*); SV vs_cstr_SL(int which, const char** lit, int* len); int vs_SL_count(void);
bool   vs_valid(SV); void vs_swap(SV*, SV*);
bool   vs_match(SV, SV); bool vs_match_s(SV, const char*, int); bool vs_match_nc(SV, SV); bool vs_match_nc_s(SV, const char*, int);
bool   vs_starts(SV, SV); bool vs_starts_s(SV, const char*, int); bool vs_starts_nc(SV, SV); bool vs_starts_nc_s(SV, const char*, int);
int    vs_compare(SV, SV); bool vs_contains(SV, SV); bool vs_contains_nc(SV, SV);
SV     vs_sub(SV, int, int);
SV     vs_trim(int which, SV, SV); SV vs_trim_s(int which, SV, const char*, int); // 0 both 1 start 2 end
SV     vs_find(int last, int nocase, SV, SV); SV vs_find_s(int last, int nocase, SV, const char*, int);
SV     vs_split_first(SV*, const char*, bool); SV vs_split_last(SV*, const char*, bool);
int    vs_split_all(int n, int extra, SV* dst, SV src, const char* d, bool q);
SV     vs_split_index(SV*, int); SV vs_split_left(SV*, SV); SV vs_split_right(SV*, SV);
char   vs_pop(SV*); SV vs_line(SV*, char* eol); SV vs_dequote(SV);
char*  vs_to_cstr(char*, size_t, SV);
int    vs_print(char* dst, size_t n, SV); int vs_print2(char* dst, size_t n, SV, SV);
// ---- strnum. type codes below; dst is a 16-byte cell
enum { N_UC, N_US, N_UI, N_UL, N_ULL, N_C, N_S, N_I, N_L, N_LL, N_F, N_D, N_LD, N_TYPES };
int    vn_consume(int type, void* dst, SV* src, int opt);       // functions
int    vn_value(int type, void* dst, SV* src, int opt);         // generic macro
void   vn_default(int type, void* dst, SV src, const void* dflt, int opt); // strnum_uchar...
enum { W_I8, W_I16, W_I32, W_I64, W_U8, W_U16, W_U32, W_U64, W_TYPES };
void   vn_fixed(int w, void* dst, SV src, const void* dflt, int opt);
int    vn_opt(int which); // 0 DEFAULT 1 BIN 2 HEX 3 NOBX 4 NOSIGN 5 NOSPACE 6 NOEXP
int    vn_has_float(void);
// ---- io
int    vio_append_read(SB** b, int fd); int vio_write(int fd, SB** b); int vio_view_write(int fd, SV* v);
// ---- pack: type 0..7 = u8 i8 u16 i16 u32 i32 u64 i64 ; value passed as 64 bits
void   vp_pack(SB** b, int type, int be, uint64_t v); uint64_t vp_unpack(SV* v, int type, int be);
uint64_t vp_swap(int type, uint64_t v); uint64_t vp_conv(int type, int op, uint64_t v); // op: 0 pack_LE 1 pack_BE 2 unpack_LE 3 unpack_BE
void   vp_pack_expr(SB** b, int which, uint64_t v);
// ---- macro call sites: what a call site does and how often each operand must be evaluated; its operands and results
typedef struct { int op, kind, extra, want[3]; const char* lit; } MI; // kind: 0 view 1 C string 2 C string below 60 characters 3 the literal lit 4 none
typedef struct { SB* b; void* app; SV v, w, c[127]; const char* s; int i, o, vc, n9; void* dst; size_t dst_size; void (*got)(SB*, int, void*); void* user; uint64_t num;
	long n[4]; SV out, v_after; int r, size_only; uint64_t wide; const char* lit; char print[400]; } MA;
int vm_count(void); void vm_info(int k, MI*); void vm_call(int k, MA*);
#ifdef __cplusplus
}
#endif
