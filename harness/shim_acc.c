#include "shim.h"
#include "strview.h"
#include "strbuf.h"
#include <limits.h>
#include <stdlib.h>
#include "accessories/strbuf_io.h"
#include "accessories/strview_io.h"
#include "accessories/strbuf_pack.h"
#include "accessories/strview_unpack.h"

static strview_t vf_in(SV v) { return (strview_t){ .data = v.data, .size = v.size }; }
static SV vf_out(strview_t v) { return (SV){ v.data, v.size }; }

int vio_append_read(SB** b, int fd) { return strbuf_append_read(b, fd); }
int vio_write(int fd, SB** b) { return strbuf_write(fd, b); }
int vio_view_write(int fd, SV* v) { if(!v) return strview_write(fd, NULL); strview_t t = vf_in(*v); int r = strview_write(fd, &t); *v = vf_out(t); return r; }

#define TYPES(X) X(0, uint8_t) X(1, int8_t) X(2, uint16_t) X(3, int16_t) X(4, uint32_t) X(5, int32_t) X(6, uint64_t) X(7, int64_t)
void vp_pack(SB** b, int type, int be, uint64_t v)
{
	switch(type)
	{
#define P1(c, T) case c: { T x = (T)v; if(be) STRBUF_PACK_BE(b, x); else STRBUF_PACK_LE(b, x); if(x != (T)v) abort(); } break;
		TYPES(P1)
		default: abort();
	}
}
// the packed expression may be any expression of the right type, with any variable names
struct rec { uint16_t hw; int32_t w; uint64_t arr[3]; };
void vp_pack_expr(SB** b, int which, uint64_t v)
{
	struct rec r = { (uint16_t)v, (int32_t)v, { v, ~v, v ^ 0x55 } }, *p = &r; int i = 1;
	switch(which)
	{
		case 0: STRBUF_PACK_BE(b, p->hw); break;
		case 1: STRBUF_PACK_LE(b, p->w); break;
		case 2: STRBUF_PACK_BE(b, p->arr[i]); break;
		case 3: STRBUF_PACK_LE(b, p->arr[i + 1]); break;
		case 4: { uint32_t tmp = (uint32_t)v; STRBUF_PACK_BE(b, tmp); } break;
		case 5: { uint16_t src = (uint16_t)v, dst = 7; (void)dst; STRBUF_PACK_LE(b, src); } break;
		case 6: { uint64_t x = (uint32_t)v; STRBUF_PACK_BE(b, x + 1); } break;
		case 7: if(v & 1) STRBUF_PACK_LE(b, p->hw); else STRBUF_PACK_BE(b, p->w); break;
		default: abort();
	}
}
uint64_t vp_unpack(SV* sv, int type, int be)
{
	strview_t t = vf_in(*sv); uint64_t r = 0;
	switch(type)
	{
#define U1(c, T) case c: { T x; if(be) STRVIEW_UNPACK_BE(x, t); else STRVIEW_UNPACK_LE(x, t); r = (uint64_t)(int64_t)x; } break;
		TYPES(U1)
		default: abort();
	}
	*sv = vf_out(t);
	return r;
}
uint64_t vp_swap(int type, uint64_t v)
{
	switch(type)
	{
#define S1(c, T) case c: { T x = (T)v; return (uint64_t)(int64_t)(T)xendian_SWAP(x); }
		TYPES(S1)
		default: abort();
	}
}
uint64_t vp_conv(int type, int op, uint64_t v)
{
	switch(type)
	{
#define V1(c, T) case c: { T x = (T)v; return (uint64_t)(int64_t)(T)(op == 0 ? xendian_pack_LE(x) : op == 1 ? xendian_pack_BE(x) : op == 2 ? xendian_unpack_LE(x) : xendian_unpack_BE(x)); }
		TYPES(V1)
		default: abort();
	}
}
