#include <stdio.h>
#include <stdlib.h>
#include "shim.h"
#include "strview.h"

static strview_t vf_in(SV v) { return (strview_t){ .data = v.data, .size = v.size }; }
static SV vf_out(strview_t v) { return (SV){ v.data, v.size }; }
#define GEN(f, ...) (nc ? f(__VA_ARGS__, (char*)s) : f(__VA_ARGS__, s))

SV vs_invalid(void) { return vf_out(STRVIEW_INVALID); }
SV vs_cstr(const char* s) { return vf_out(cstr(s)); }
#define LITS(X) X("") X("a") X("Hello World") X("with\0zero") X("\xff\x80 high") X("0123456789012345678901234567890123456789012345678901234567890123456789")
#define ONE(l) if(k++ == which) { *lit = l; *len = (int)sizeof(l) - 1; return vf_out(cstr_SL(l)); }
#define CNT(l) k++;
SV vs_cstr_SL(int which, const char** lit, int* len) { int k = 0; LITS(ONE) return vf_out(STRVIEW_INVALID); }
int vs_SL_count(void) { int k = 0; LITS(CNT) return k; }
bool vs_valid(SV v) { return strview_is_valid(vf_in(v)); }
void vs_swap(SV* a, SV* b) { strview_t x = vf_in(*a), y = vf_in(*b); if(a == b) { strview_swap(&x, &x); *a = vf_out(x); return; } strview_swap(&x, &y); *a = vf_out(x); *b = vf_out(y); }
bool vs_match(SV a, SV b) { return strview_is_match(vf_in(a), vf_in(b)); }
bool vs_match_s(SV a, const char* s, int nc) { return GEN(strview_is_match, vf_in(a)); }
bool vs_match_nc(SV a, SV b) { return strview_is_match_nocase(vf_in(a), vf_in(b)); }
bool vs_match_nc_s(SV a, const char* s, int nc) { return GEN(strview_is_match_nocase, vf_in(a)); }
bool vs_starts(SV a, SV b) { return strview_starts_with(vf_in(a), vf_in(b)); }
bool vs_starts_s(SV a, const char* s, int nc) { return GEN(strview_starts_with, vf_in(a)); }
bool vs_starts_nc(SV a, SV b) { return strview_starts_with_nocase(vf_in(a), vf_in(b)); }
bool vs_starts_nc_s(SV a, const char* s, int nc) { return GEN(strview_starts_with_nocase, vf_in(a)); }
int vs_compare(SV a, SV b) { return strview_compare(vf_in(a), vf_in(b)); }
bool vs_contains(SV a, SV b) { return strview_contains(vf_in(a), vf_in(b)); }
bool vs_contains_nc(SV a, SV b) { return strview_contains_nocase(vf_in(a), vf_in(b)); }
SV vs_sub(SV v, int b, int e) { return vf_out(strview_sub(vf_in(v), b, e)); }
SV vs_trim(int w, SV v, SV c)
{
	return vf_out(w == 0 ? strview_trim(vf_in(v), vf_in(c)) : w == 1 ? strview_trim_start(vf_in(v), vf_in(c)) : strview_trim_end(vf_in(v), vf_in(c)));
}
SV vs_trim_s(int w, SV v, const char* s, int nc)
{
	return vf_out(w == 0 ? GEN(strview_trim, vf_in(v)) : w == 1 ? GEN(strview_trim_start, vf_in(v)) : GEN(strview_trim_end, vf_in(v)));
}
SV vs_find(int last, int nocase, SV h, SV n)
{
	return vf_out(last ? (nocase ? strview_find_last_nocase(vf_in(h), vf_in(n)) : strview_find_last(vf_in(h), vf_in(n)))
		: (nocase ? strview_find_first_nocase(vf_in(h), vf_in(n)) : strview_find_first(vf_in(h), vf_in(n))));
}
SV vs_find_s(int last, int nocase, SV h, const char* s, int nc)
{
	return vf_out(last ? (nocase ? GEN(strview_find_last_nocase, vf_in(h)) : GEN(strview_find_last, vf_in(h)))
		: (nocase ? GEN(strview_find_first_nocase, vf_in(h)) : GEN(strview_find_first, vf_in(h))));
}
#define VIA(call) strview_t t, *p = NULL; strview_t r; if(v) { t = vf_in(*v); p = &t; } r = call; if(v) *v = vf_out(t); return vf_out(r)
SV vs_split_first(SV* v, const char* d, bool q) { VIA(strview_split_first_delim(p, d, q)); }
SV vs_split_last(SV* v, const char* d, bool q) { VIA(strview_split_last_delim(p, d, q)); }
// dst: n slots for the library and `extra` more it must not touch
int vs_split_all(int n, int extra, SV* dst, SV src, const char* d, bool q)
{
	int i, r;
	strview_t* a = malloc((size_t)(n + extra + 1) * sizeof *a);
	for(i = 0; i < n + extra; i++) a[i] = (strview_t){ .data = (const char*)a, .size = -77 };
	r = strview_split_all(n, a, vf_in(src), d, q);
	for(i = 0; i < n + extra; i++) { dst[i] = vf_out(a[i]); if(a[i].data == (const char*)a) dst[i].data = (const char*)dst; }
	free(a);
	return r;
}
SV vs_split_index(SV* v, int i) { VIA(strview_split_index(p, i)); }
SV vs_split_left(SV* v, SV pos) { VIA(strview_split_left(p, vf_in(pos))); }
SV vs_split_right(SV* v, SV pos) { VIA(strview_split_right(p, vf_in(pos))); }
char vs_pop(SV* v) { strview_t t, *p = NULL; char r; if(v) { t = vf_in(*v); p = &t; } r = strview_pop_first_char(p); if(v) *v = vf_out(t); return r; }
SV vs_line(SV* v, char* eol) { VIA(strview_split_line(p, eol)); }
SV vs_dequote(SV v) { return vf_out(strview_dequote(vf_in(v))); }
char* vs_to_cstr(char* d, size_t n, SV v) { return strview_to_cstr(d, n, vf_in(v)); }
int vs_print(char* d, size_t n, SV v) { strview_t x = vf_in(v); return snprintf(d, n, "<%"PRIstr">", PRIstrarg(x)); }
int vs_print2(char* d, size_t n, SV v, SV w) { strview_t x[2] = { vf_in(v), vf_in(w) }, *q = x; return snprintf(d, n, "%"PRIstr"|%d|%"PRIstr, PRIstrarg(*q), 42, PRIstrarg(x[1])); }
