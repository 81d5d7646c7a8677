#include "shim.h"
#include "strview.h"
#include "strnum.h"
#include <stdlib.h>

static strview_t vf_in(SV v) { return (strview_t){ .data = v.data, .size = v.size }; }
static SV vf_out(strview_t v) { return (SV){ v.data, v.size }; }

#define INTS(X) X(N_UC, unsigned char, uchar) X(N_US, unsigned short, ushort) X(N_UI, unsigned int, uint) X(N_UL, unsigned long, ulong) X(N_ULL, unsigned long long, ullong) \
	X(N_C, char, char) X(N_S, short, short) X(N_I, int, int) X(N_L, long, long) X(N_LL, long long, llong)
#ifndef STRNUM_NOFLOAT
	#define FLTS(X) X(N_F, float, float) X(N_D, double, double) X(N_LD, long double, ldouble)
	int vn_has_float(void) { return 1; }
#else
	#define FLTS(X)
	int vn_has_float(void) { return 0; }
#endif
#define FIX(X) X(W_I8, int8_t, i8) X(W_I16, int16_t, i16) X(W_I32, int32_t, i32) X(W_I64, int64_t, i64) \
	X(W_U8, uint8_t, u8) X(W_U16, uint16_t, u16) X(W_U32, uint32_t, u32) X(W_U64, uint64_t, u64)

int vn_consume(int type, void* dst, SV* src, int opt)
{
	strview_t t, *p = NULL; int r = -1;
	if(src) { t = vf_in(*src); p = &t; }
	switch(type)
	{
#define C1(code, T, f) case code: r = strnum_consume_##f((T*)dst, p, opt); break;
		INTS(C1) FLTS(C1)
		default: abort();
	}
	if(src) *src = vf_out(t);
	return r;
}
int vn_value(int type, void* dst, SV* src, int opt)
{
	strview_t t, *p = NULL; int r = -1;
	if(src) { t = vf_in(*src); p = &t; }
	switch(type)
	{
#define C2(code, T, f) case code: r = strnum_value((T*)dst, p, opt); break;
		INTS(C2) FLTS(C2)
		default: abort();
	}
	if(src) *src = vf_out(t);
	return r;
}
void vn_default(int type, void* dst, SV src, const void* d, int opt)
{
	switch(type)
	{
#define C3(code, T, f) case code: *(T*)dst = strnum_##f(vf_in(src), *(const T*)d, opt); break;
		INTS(C3) FLTS(C3)
		default: abort();
	}
}
void vn_fixed(int w, void* dst, SV src, const void* d, int opt)
{
	switch(w)
	{
#define C4(code, T, f) case code: *(T*)dst = strnum_##f(vf_in(src), *(const T*)d, opt); break;
		FIX(C4)
		default: abort();
	}
}
int vn_opt(int w)
{
	switch(w) { case 1: return STRNUM_BASE_BIN; case 2: return STRNUM_BASE_HEX; case 3: return STRNUM_NOBX;
		case 4: return STRNUM_NOSIGN; case 5: return STRNUM_NOSPACE; case 6: return STRNUM_NOEXP; default: return STRNUM_DEFAULT; }
}
