// C34: the accessories (stream I/O, packing, encryption) on buffers and views up to INT_MAX bytes, in the sparse
// memory of C10.
#include "p_huge.cc"
#include "shim.h"
#include <errno.h>

struct HIo { bool active = false, is_read = false; int fd = 0, calls = 0; long ret = 0; int err = 0; const char* buf = nullptr; size_t len = 0; std::string head, tail; const Sparse* want = nullptr; };
static HIo g_hio;
static void same_sparse(const char* p, const Sparse& m, const char* what) {
	for(auto& kv : m.at) CHECK(p[kv.first] == kv.second, "%s: byte at %lld is 0x%02X, expected 0x%02X", what, (long long)kv.first, (unsigned char)p[kv.first], (unsigned char)kv.second);
	for(int64_t from : { (int64_t)0, m.size - 400 }) for(int64_t i = from < 0 ? 0 : from; i < m.size && i < from + 400; i++) if(p[i]) CHECK(m.at.count(i), "%s: byte at %lld is 0x%02X, expected 0", what, (long long)i, (unsigned char)p[i]);
}
extern "C" ssize_t vf_read(int fd, void* dst, size_t n) {
	CHECK(g_hio.active && fd == g_hio.fd, "read() called unexpectedly, or on descriptor %d", fd); g_hio.calls++; g_hio.is_read = true; g_hio.buf = (char*)dst; g_hio.len = n;
	if(g_hio.ret < 0) { errno = g_hio.err; return -1; }
	if((size_t)g_hio.ret > n) g_hio.ret = (long)n;
	Claim c = {}; c.ret = (int)g_hio.ret; c.head = g_hio.head; c.tail = g_hio.tail; return claim(dst, (int)n, &c);
}
extern "C" ssize_t vf_write(int fd, const void* src, size_t n) {
	CHECK(g_hio.active && fd == g_hio.fd, "write() called unexpectedly, or on descriptor %d", fd); g_hio.calls++; g_hio.is_read = false; g_hio.buf = (const char*)src; g_hio.len = n;
	CHECK((int64_t)n == g_hio.want->size, "write() offered %zu bytes, the content is %lld", n, (long long)g_hio.want->size); same_sparse((const char*)src, *g_hio.want, "write() offered");
	if(g_hio.ret < 0) { errno = g_hio.err; return -1; }
	if((size_t)g_hio.ret > n) g_hio.ret = (long)n;
	return (ssize_t)g_hio.ret;
}
extern "C" { int vio_append_read(SB** b, int fd); int vio_write(int fd, SB** b); int vio_view_write(int fd, SV* v);
void vp_pack(SB** b, int type, int be, uint64_t v); uint64_t vp_unpack(SV* sv, int type, int be);
SV vb_encrypt(SB** b, uint8_t* k, uint8_t* v); SV vb_decrypt(SB** b, uint8_t* k, uint8_t* v); }

struct HA : H {
	bool big_done = false;
	explicit HA(Src& s_) : H(s_) {}
	void plan(int64_t n, const Sparse* want) {
		g_hio = HIo(); g_hio.active = true; g_hio.fd = 3 + (int)s.below(5); g_hio.want = want;
		static const int E[] = { EINTR, EAGAIN, EIO, EPIPE };
		switch(s.below(8)) { case 0: g_hio.ret = -1; g_hio.err = s.pick(E); break; case 1: g_hio.ret = 0; break; case 2: g_hio.ret = n; break; case 3: g_hio.ret = n - (long)s.below(300); break; case 4: g_hio.ret = (long)s.below(300); break; case 5: g_hio.ret = n / 2; break;
			case 6: { static const long P[] = { 127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 1 << 20, 1 << 24, 1 << 30 }; g_hio.ret = s.pick(P) - (long)s.below(2); break; } default: g_hio.ret = (long)s.below((uint64_t)n + 1); }
		if(g_hio.err == 0 && g_hio.ret < 0) g_hio.ret = 0;
		if(g_hio.ret > n) g_hio.ret = (long)n;
	}
	void acc() {
		uint8_t key[32], iv[16]; int op = (int)s.below(9);
		switch(op) {
			case 0: case 1: { int64_t room = cap - m.size; plan(room, nullptr); g_hio.head = gen_bytes(s, s.small_len(20)); g_hio.tail = gen_bytes(s, s.small_len(20)); errno = 0;
				bool ea = g_expect_no_alloc; g_expect_no_alloc = true; char* at = vb_cstr(b) + m.size; int r = vio_append_read(&b, g_hio.fd), e = errno; g_expect_no_alloc = ea; g_hio.active = false;
				TR("append_read at size %lld cap %lld -> %d", (long long)m.size, (long long)cap, r);
				CHECK(g_hio.calls == 1 && g_hio.is_read, "append_read issued %d system calls", g_hio.calls); CHECK((int64_t)g_hio.len == room && g_hio.buf == at, "append_read requested %zu bytes with %lld free", g_hio.len, (long long)room);
				CHECK(r == g_hio.ret, "append_read returned %d, read() returned %ld", r, g_hio.ret); if(r < 0) CHECK(e == g_hio.err, "errno lost");
				if(r > 0) { int64_t from = m.size, h = (int64_t)g_hio.head.size(), t = (int64_t)g_hio.tail.size(); for(int64_t i = 0; i < r && i < h; i++) if(g_hio.head[(size_t)i]) m.at[from + i] = g_hio.head[(size_t)i]; if(r >= h + t) for(int64_t i = 0; i < t; i++) if(g_hio.tail[(size_t)i]) m.at[from + r - t + i] = g_hio.tail[(size_t)i]; m.size += r; if(r > 65535) { big_done = true; LABEL("large read"); } }
				CHECK(vb_cap(b) == cap, "append_read changed the capacity"); verify("append_read"); } break;
			case 2: case 3: { plan(m.size, &m); if(g_slow && m.size > 1000000) { g_hio.active = false; return; } errno = 0; bool ea = g_expect_no_alloc; g_expect_no_alloc = true; int r = vio_write(g_hio.fd, &b), e = errno; g_expect_no_alloc = ea; g_hio.active = false;
				TR("write at size %lld -> %d", (long long)m.size, r);
				CHECK(g_hio.calls == 1 && !g_hio.is_read, "write issued %d system calls", g_hio.calls); CHECK(r == g_hio.ret, "write returned %d, write() returned %ld", r, g_hio.ret); if(r < 0) CHECK(e == g_hio.err, "errno lost");
				if(r > 65535 || (r > 0 && m.size - r > 65535)) { big_done = true; LABEL("large write"); }
				if(r > 0) m = m.slice(r, m.size - r);
				CHECK(vb_cap(b) == cap, "write changed the capacity"); verify("write"); } break;
			case 4: { // a view of the content
				int64_t o = any_index(m.size), n = s.flip() ? m.size - o : any_index(m.size - o); Sparse x = m.slice(o, n); SV v = { vb_cstr(b) + o, (int)n }, v0 = v; plan(n, &x); int r = vio_view_write(g_hio.fd, &v); g_hio.active = false;
				TR("view write [%lld,+%lld) -> %d", (long long)o, (long long)n, r);
				CHECK(g_hio.calls == 1 && r == g_hio.ret, "view write: %d system calls, returned %d instead of %ld", g_hio.calls, r, g_hio.ret);
				if(r <= 0) CHECK(v.data == v0.data && v.size == v0.size, "view write moved nothing but changed the view"); else CHECK(v.size == v0.size - r && (!v.size || v.data == v0.data + r), "view write of %d bytes leaves %d of %d", r, v.size, v0.size);
				if(r > 65535) big_done = true; verify("view write"); } break;
			case 5: { // packing, up to and across the limit
				static const int W[] = { 1, 1, 2, 2, 4, 4, 8, 8 }; int n = 1 + (int)s.below(4);
				for(int i = 0; i < n; i++) { int t = (int)s.below(8), be = s.flip(); uint64_t v = s.u64(); std::string x; for(int k = 0; k < W[t]; k++) x += (char)(v >> 8 * (be ? W[t] - 1 - k : k)); TR("pack %d bytes at size %lld cap %lld", W[t], (long long)m.size, (long long)cap);
					ins(m.size, x); vp_pack(&b, t, be, v); if(dyn) { int64_t c = vb_cap(b); CHECK(c >= cap, "capacity reduced"); if(m.size > cap) CHECK(c == rup64(m.size), "capacity %lld for %lld bytes", (long long)c, (long long)m.size); cap = c; } verify("pack"); }
				if(m.size > 65535) big_done = true; } break;
			case 6: { // unpacking from a long view
				if(m.size < 8) return; static const int W[] = { 1, 1, 2, 2, 4, 4, 8, 8 }; int64_t o = any_index(m.size - 8); int t = (int)s.below(8), be = s.flip(); std::string x = m.sub(o, W[t]); uint64_t want = 0; for(int k = 0; k < W[t]; k++) want |= (uint64_t)(unsigned char)x[(size_t)k] << 8 * (be ? W[t] - 1 - k : k);
				if((t & 1) && W[t] < 8) want = (uint64_t)((int64_t)(want << (64 - 8 * W[t])) >> (64 - 8 * W[t]));
				SV v = { vb_cstr(b) + o, (int)(m.size - o) }, v0 = v; uint64_t got = vp_unpack(&v, t, be); TR("unpack %d bytes of [%lld,+%d)", W[t], (long long)o, v0.size);
				CHECK(got == want, "unpacked 0x%llx, expected 0x%llx", (unsigned long long)got, (unsigned long long)want); CHECK(v.size == v0.size - W[t] && (!v.size || v.data == v0.data + W[t]), "unpacking %d bytes leaves %d of %d", W[t], v.size, v0.size); if(v0.size > 65535) big_done = true; } break;
			case 7: { for(auto& k : key) k = (uint8_t)s.below(256); for(auto& k : iv) k = (uint8_t)s.below(256); uint8_t k0[32], i0[16]; memcpy(k0, key, 32); memcpy(i0, iv, 16);
				if(m.size > MAXI - 16) { // the ciphertext would be larger than any buffer
					TR("encrypt %lld bytes -> too large", (long long)m.size); SV r = vb_encrypt(&b, key, iv); int left = vb_size(b); CHECK(left == 0 || left == m.size, "encrypting %lld bytes left %d", (long long)m.size, left);
					if(dyn) { CHECK(!r.data || left == 0, "an impossible encryption was reported as success"); CHECK(vb_cap(b) >= cap, "capacity reduced"); cap = vb_cap(b); }
					if(!left) m.clear(); LABEL("encryption too large"); emptied++; verify("encrypt"); big_done = true;
				} else if(m.size <= 70000) { // any capacity: back and forth
					int64_t need = m.size / 16 * 16 + 16; bool fits = dyn || need <= cap; TR("encrypt %lld bytes with capacity %lld", (long long)m.size, (long long)cap); SV r = vb_encrypt(&b, key, iv);
					if(!fits) { verify("encrypt"); break; }
					CHECK(r.data == vb_cstr(b) && r.size == need && vb_size(b) == need, "encrypting %lld bytes gave %d", (long long)m.size, r.size); CHECK(vb_cstr(b)[need] == 0, "not terminated"); CHECK(vb_cap(b) >= cap && (need <= cap ? vb_cap(b) == cap : true), "capacity %d after encrypting in %lld", vb_cap(b), (long long)cap); ctl.check();
					r = vb_decrypt(&b, key, iv); CHECK(r.data == vb_cstr(b) && r.size == m.size, "decrypting gave %d bytes instead of %lld", r.size, (long long)m.size); if(dyn) cap = vb_cap(b); verify("decrypt"); if(cap > 65535) big_done = true;
				}
				CHECK(!memcmp(k0, key, 32) && !memcmp(i0, iv, 16), "key or vector modified"); } break;
			case 8: if(m.size % 16 || !m.size) { memset(key, 7, 32); memset(iv, 9, 16); TR("decrypt %lld bytes", (long long)m.size); SV r = vb_decrypt(&b, key, iv); CHECK(!r.data && vb_size(b) == 0, "decrypting %lld bytes, not whole blocks, left %d", (long long)m.size, vb_size(b)); if(m.size > 65535) big_done = true; m.clear(); if(dyn) { CHECK(vb_cap(b) == cap, "decrypting changed the capacity"); } verify("decrypt"); } break;
		}
	}
	void run_acc() {
		start(); if(!s.one_in(3)) fill(s.one_in(3) ? MAXI : MAXI - (int64_t)s.below(200)); else if(s.flip()) fill(s.flip() ? (int64_t)s.below(MAXI) : (int64_t)s.below(70000));
		int n = 2 + s.small_len(12); for(int i = 0; i < n; i++) { if(s.one_in(4)) step(); else acc(); if(s.one_in(8)) fill(MAXI - (int64_t)s.below(60)); }
		finish(); if(big_done) nontrivial();
	}
};
PROPERTY(C34, "an accessory operation on more than 65535 bytes of content, transfer or capacity, or one whose result exceeds the maximum size") {
	if(!reserve()) { LABEL("address space not available"); return; }
	static bool done; if(!done) { done = true; calibrate(); }
	Slot slot; HA h(s); h.run_acc();
}
