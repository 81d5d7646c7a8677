// C39: the library on a small stack. Every operation runs on texts several times larger than the stack it is given; below
// the stack lies a wide inaccessible region, so whatever takes stack in proportion to a text (a local array sized by
// it, a recursion over its characters, parts or layers) runs into it.
#include "bufworld.h"
#include <csignal>
#include <functional>
#include <sys/mman.h>
#include <ucontext.h>

static const size_t STACK = 192 << 10, GUARD = (size_t)1 << 30;
static char* g_stack; static ucontext_t g_main, g_small; static std::function<void()>* g_fn;
static void enter() { (*g_fn)(); }
static void on_small(std::function<void()> f) {
	if(!g_stack) {
		char* r = (char*)mmap(nullptr, GUARD + STACK + (1 << 20), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if(r == (char*)MAP_FAILED || mprotect(r + GUARD, STACK, PROT_READ | PROT_WRITE)) { fprintf(stderr, "harness: no memory for a stack\n"); _Exit(3); }
		g_stack = r + GUARD;
		static char alt[65536]; stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
		for(int sig : { SIGSEGV, SIGBUS }) { struct sigaction a; sigaction(sig, nullptr, &a); a.sa_flags |= SA_ONSTACK; sigaction(sig, &a, nullptr); }
	}
	getcontext(&g_small); g_small.uc_stack.ss_sp = g_stack; g_small.uc_stack.ss_size = STACK; g_small.uc_link = &g_main;
	g_fn = &f; makecontext(&g_small, enter, 0); swapcontext(&g_main, &g_small);
}
extern "C" ssize_t vf_read(int, void* dst, size_t n) { memset(dst, 'r', n); return (ssize_t)n; }
extern "C" ssize_t vf_write(int, const void*, size_t n) { return (ssize_t)n; }
// the C library's formatting is not the library's: prints go through a reference that writes the same text
static int fetch(void* dst, int n, void*) { memset(dst, 'u', (size_t)n); return n; }

static int big(Src& s) {
	switch(s.below(6)) {
		case 0: return (256 << 10) + (int)s.below(1000);
		case 1: return (1 << 20) + (int)s.below(1000);
		case 2: if(s.one_in(8)) return (4 << 20) + (int)s.below(100000);
		// fall through
		default: return (250 << 10) + (int)s.below(300 << 10);
	}
}
static SV sv(const std::string& t) { return SV{ t.data(), (int)t.size() }; }
static void same(SV r, const char* at, size_t n, const char* what) {
	CHECK(r.data && (size_t)r.size == n && (!n || r.data == at), "%s: %d bytes at %ld, expected %zu bytes", what, r.size, r.data ? (long)(r.data - at) : -1, n);
}
// a text of one filler with a mark near the start, the middle or the end
static size_t mark(Src& s, std::string& t, const std::string& m) {
	size_t room = t.size() - m.size(), o = s.below(4) == 0 ? s.below(20) : s.flip() ? room - s.below(20) : s.below(room);
	t.replace(o, m.size(), m); return o;
}

static void views(Src& s) {
	size_t n = (size_t)big(s); std::string t(n, 'a'); SV v, r = {}, d; bool ok = false, ok2 = false; int i = 0, c = 0;
	switch(s.below(12)) {
		case 0: { TR("compare two texts of %zu", n); std::string u = t; bool differ = s.flip(); if(differ) u[n - 1 - s.below(9)] = 'b'; v = sv(t); d = sv(u); bool k[4];
			on_small([&] { k[0] = vs_match(v, d); k[1] = vs_match_nc(v, d); k[2] = vs_starts(v, d); k[3] = vs_starts_nc(v, d); c = vs_compare(v, d); });
			for(bool x : k) CHECK(x == !differ, "match of two texts of %zu: %d", n, x);
			CHECK(differ ? c < 0 : c == 0, "compare of two texts of %zu: %d", n, c); break; }
		case 1: { size_t m = s.flip() ? n / 2 : 1 + s.below(5); std::string nd = "b" + std::string(m - 1, 'a'); std::string t2 = std::string(n, 'c'); size_t o = mark(s, t2, nd); int last = (int)s.below(2), nc = (int)s.below(2);
			TR("find %zu in %zu last %d nocase %d", m, n, last, nc); v = sv(t2); d = sv(nd); on_small([&] { r = vs_find(last, nc, v, d); ok = vs_contains(v, d); ok2 = vs_contains_nc(v, d); });
			CHECK(ok && ok2, "contains"); same(r, t2.data() + o, m, "find"); break; }
		case 2: { size_t o = mark(s, t, "x"); int w = (int)s.below(3); std::string set = "a"; if(s.flip()) { set = std::string((size_t)big(s), 'b') + "a"; t = std::string(n = 150, 'a'); o = mark(s, t, "x"); } TR("trim %d of %zu with %zu", w, n, set.size()); v = sv(t); d = sv(set);
			on_small([&] { r = vs_trim(w, v, d); }); size_t a = w == 2 ? 0 : o, e = w == 1 ? n : o + 1; same(r, t.data() + a, e - a, "trim"); break; }
		case 3: { size_t o = mark(s, t, ","); bool q = s.flip(), last = s.flip(); v = sv(t); TR("split at %zu of %zu", o, n); on_small([&] { r = last ? vs_split_last(&v, ",", q) : vs_split_first(&v, ",", q); });
			if(!last) { same(r, t.data(), o, "split_first"); CHECK((size_t)v.size == n - o - 1, "split_first left %d", v.size); }
			else { CHECK((size_t)r.size == n - o - 1, "split_last took %d", r.size); same(v, t.data(), o, "split_last left"); }
			break; }
		case 4: { // many quoted parts, then the delimiter
			std::string q; size_t k = n / 4; for(size_t j = 0; j < k; j++) q += "\",\" "; size_t o = q.size(); q += ",z"; v = sv(q); bool last = s.flip(); TR("split behind %zu quoted parts", k);
			on_small([&] { r = last ? vs_split_last(&v, ",", true) : vs_split_first(&v, ",", true); });
			if(!last) { same(r, q.data(), o, "split_first"); same(v, q.data() + o + 1, 1, "split_first left"); } else { same(r, q.data() + o + 1, 1, "split_last"); same(v, q.data(), o, "split_last left"); }
			break; }
		case 5: { std::string q; size_t k = n / 3; for(size_t j = 0; j < k; j++) q += "ab,"; std::vector<SV> dst(k + 1); v = sv(q); int want = s.flip() ? (int)k + 1 : (int)(k / 2); TR("split all, %zu parts into %d", k, want);
			on_small([&] { i = vs_split_all(want, 0, dst.data(), v, ",", s.flip()); });
			CHECK(i == want, "split_all gave %d of %d parts", i, want); same(dst[0], q.data(), 2, "first part"); same(dst[(size_t)want - 2], q.data() + ((size_t)want - 2) * 3, 2, "last but one"); break; }
		case 6: { int x = (int)s.below(n), a = (int)s.below(n), e = a + (int)s.below(n - (size_t)a); v = sv(t); SV u = v, l = v, w = v, m = { v.data + a, e - a }, p = {}, q = {}, g = {}; TR("slices of %zu", n);
			on_small([&] { r = vs_sub(v, a, e); u = v; p = vs_split_index(&u, x); q = vs_split_left(&l, m); g = vs_split_right(&w, m); });
			if(e > a) same(r, t.data() + a, (size_t)(e - a), "sub");
			CHECK(p.size == x && (size_t)u.size == n - (size_t)x, "split_index %d: %d and %d", x, p.size, u.size);
			CHECK(q.size == a && (size_t)l.size == n - (size_t)a, "split_left: %d and %d", q.size, l.size); CHECK((size_t)g.size == n - (size_t)e && w.size == e, "split_right: %d and %d", g.size, w.size); break; }
		case 7: { size_t o = mark(s, t, "\r\nz"); v = sv(t); char eol = 0; SV r2 = {}; TR("lines of %zu", n); on_small([&] { r = vs_line(&v, &eol); r2 = vs_line(&v, &eol); });
			same(r, t.data(), o, "first line"); (void)r2; break; }
		case 8: { size_t k = n / 2; std::string q = std::string(k, '"') + "a" + std::string(k, '"'); v = sv(q); TR("dequote %zu layers", k); on_small([&] { r = vs_dequote(v); }); same(r, q.data() + k, 1, "dequote"); break; }
		case 9: { std::vector<char> dst(n + 1); v = sv(t); const char* z = nullptr; TR("C string of %zu", n); on_small([&] { z = vs_to_cstr(dst.data(), n + 1, v); r = vs_cstr(dst.data()); }); CHECK(z == dst.data() && !memcmp(z, t.c_str(), n + 1), "to_cstr of %zu", n); same(r, dst.data(), n, "cstr"); break; }
		case 10: { std::string q(n, '\n'); q += "z\n"; v = sv(q); char eol = 0; TR("%zu empty lines", n); on_small([&] { for(int k = 0; k < 100; k++) r = vs_line(&v, &eol); c = vs_pop(&v); }); CHECK(r.size == 0 && (size_t)v.size == n + 2 - 101 && c == '\n', "empty lines: %d bytes left", v.size); break; }
		default: { v = sv(t); d = v; SV e = { t.data(), 3 }; TR("text found in itself"); on_small([&] { r = vs_find((int)s.below(2), (int)s.below(2), v, d); ok = vs_starts(v, e); }); same(r, t.data(), n, "find itself"); CHECK(ok, "starts_with"); break; }
	}
}
static void numbers(Src& s) {
	size_t n = (size_t)big(s); int type = (int)s.below(N_TYPES), hex = 0; std::string t; unsigned long long want = 42; bool flt = type >= N_F;
	switch(s.below(flt ? 7 : 4)) {
		case 0: t = std::string(n, ' ') + "42"; break;
		case 1: t = std::string(n, '0') + "42"; break;
		case 2: if(!flt) { t = "0x" + std::string(n, '0') + "2a"; hex = 1; break; }
		// fall through
		case 3: if(!flt) { t = "0b" + std::string(n, '0') + "101010"; hex = 2; break; } t = "42." + std::string(n, '0'); break;
		case 4: t = "42." + std::string(n, '0') + "1"; break;
		case 5: t = std::string(1, '0') + "." + std::string(n, '0') + "42e" + std::to_string(n + 2); break;
		default: t = "42" + std::string(n, '0') + "e-" + std::to_string(n); break;
	}
	if(s.flip()) t += s.flip() ? " " : std::string(n, 'z');
	int opt = hex == 1 ? vn_opt(2) : hex == 2 ? vn_opt(1) : vn_opt(0);
	alignas(16) unsigned char cell[16] = {}, dflt[16] = {}; SV v = sv(t); int rc = -1, rc2 = -1; TR("number of type %d in %zu characters: %s", type, t.size(), show(t.substr(0, 4)).c_str()); SV w = v;
	on_small([&] { rc = vn_consume(type, cell, &v, opt); rc2 = vn_value(type, dflt, &w, opt); });
	CHECK(rc == 0 && rc2 == rc, "type %d: result %d and %d", type, rc, rc2); CHECK(v.size == w.size && v.size < (int)t.size(), "type %d: %d left, and %d", type, v.size, w.size);
	if(!flt) { static const int W[] = { 1, 2, 4, 8, 8, 1, 2, 4, 8, 8 }; unsigned long long got = 0; memcpy(&got, cell, (size_t)W[type]); CHECK(got == want, "type %d: %llu", type, got); }
	else { long double got; float f; double x; if(type == N_F) { memcpy(&f, cell, sizeof f); got = f; } else if(type == N_D) { memcpy(&x, cell, sizeof x); got = x; } else memcpy(&got, cell, sizeof got); CHECK(got > 41.99L && got < 42.01L, "type %d: %Lg", type, got); }
}
static void buffers(Src& s) {
	DefaultCtl def(2); int n = big(s); bool fixed = s.one_in(3); size_t room = (size_t)n * 6 + 4096; Mem mem; if(fixed) { mem.make(room, 0); }
	SB* b = fixed ? vb_create_fixed(mem.p, room) : nullptr; if(!fixed) on_small([&] { b = vb_create_empty((size_t)s.below(4) * 1000, nullptr, 1); });
	std::string m((size_t)n, 'a'), src((size_t)big(s), 'b'); if(src.size() > (size_t)n) src.resize((size_t)n); m[5] = 'Q'; src[3] = 'z';
	on_small([&] { vb_assign(&b, sv(m)); }); TR("a %s buffer of %d characters", fixed ? "fixed" : "dynamic", n);
	uint8_t key[32], iv[16]; for(int i = 0; i < 32; i++) key[i] = (uint8_t)i; memset(iv, 7, 16);
	int k = 1 + (int)s.below(3); SV r = {};
	for(int op = 0; op < k; op++) {
		SV v = sv(src); bool own = s.one_in(3) && m.size() > 100; if(own) { v.data = vb_cstr(b) + s.below(5); v.size = vb_size(b) - 5; }
		if(m.size() + (size_t)v.size * 3 + 64 > room) break;
		std::string t(v.data, (size_t)v.size); int i; const char* what; bool nul = own && m.find('\0') != std::string::npos;
		int kind = (int)s.below(16); TR("  operation %d, text of %zu%s", kind, t.size(), own ? " of its own" : ""); switch(kind) {
			case 0: what = "append"; on_small([&] { r = vb_append(&b, v); }); m += t; break;
			case 1: what = "prepend"; on_small([&] { r = vb_prepend(&b, v); }); m = t + m; break;
			case 2: what = "insert"; if(m.size() < 4) continue; i = (int)s.below(m.size()); if(s.flip()) { on_small([&] { r = vb_insert_at(&b, i, v); }); m.insert((size_t)i, t); } else { SV p = { vb_cstr(b) + i, 3 < (int)m.size() - i ? 3 : (int)m.size() - i }; bool after = s.flip();
				on_small([&] { r = after ? vb_insert_after(&b, p, v) : vb_insert_before(&b, p, v); }); m.insert((size_t)(after ? i + p.size : i), t); } break;
			case 3: what = "assign"; on_small([&] { r = vb_assign(&b, v); }); m = t; break;
			case 4: case 5: { what = "cat"; SV a[3] = { v, { vb_cstr(b), m.size() < 4 ? 0 : 4 }, v }; if(fixed && own) continue; std::string x = t + std::string(a[1].data, (size_t)a[1].size) + t; bool vc = s.flip(); if(fixed) a[1] = SV{ "Qaaa", 4 }, x = t + "Qaaa" + t;
				on_small([&] { r = vc ? vb_vcat(&b, 3, a) : vb_cat(&b, 3, a); }); m = x; break; }
			case 6: { what = "strip"; bool wide = s.flip(); std::string set(wide ? src.size() : 1, !wide ? 'Q' : s.flip() ? 'a' : 'b'); if(wide) { m = "QabcabZ" + m.substr(0, 90); on_small([&] { vb_assign(&b, sv(m)); }); } SV d = sv(set); on_small([&] { r = vb_strip(&b, d); }); std::string x; for(char c : m) if(c != set[0]) x += c; m = x; break; }
			case 7: { what = "printf"; if(nul) continue; std::string z = t; if(z.find('\0') != std::string::npos) continue; FA a = {}; a.s = z.c_str(); int form = (int)s.below(4);
				on_small([&] { r = vb_printf(&b, form, SH_S, "<%s>", &a); }); if(form >= 2) m += "<" + z + ">"; else m = "<" + z + ">"; break; }
			case 8: { what = "prnf"; std::string z = t.substr(0, 2000); if(z.find('\0') != std::string::npos) continue; FA a = {}; a.s = z.c_str(); int form = (int)s.below(4);
				on_small([&] { r = vb_prnf(&b, form, SH_S, "<%s>", &a); }); if(form >= 2) m += "<" + z + ">"; else m = "<" + z + ">"; break; }
			case 9: { what = "append_using"; int room2 = 0; if(!fixed) { on_small([&] { vb_grow(&b, (int)m.size() + n); }); } room2 = vb_cap(b) - vb_size(b); on_small([&] { r = vb_append_using(&b, fetch, nullptr); }); m += std::string((size_t)room2, 'u'); break; }
			case 10: what = "shrink"; on_small([&] { r = vb_shrink(&b); }); break;
			case 11: what = "grow"; if(fixed) continue; i = (int)m.size() + n; on_small([&] { r = vb_grow(&b, i); }); break;
			case 12: { what = "crypt"; if(m.size() > 700000) continue; uint8_t iv2[16]; memcpy(iv2, iv, 16); on_small([&] { r = vb_encrypt(&b, key, iv); }); CHECK((size_t)vb_size(b) == m.size() / 16 * 16 + 16, "cipher of %d bytes for %zu", vb_size(b), m.size()); on_small([&] { r = vb_decrypt(&b, key, iv2); }); break; }
			case 13: { what = "pack"; on_small([&] { for(int j = 0; j < 50; j++) vp_pack(&b, 7, j & 1, 0x4142434445464748ull); r = vb_view(&b); }); for(int j = 0; j < 50; j++) m += (j & 1) ? "ABCDEFGH" : "HGFEDCBA"; break; }
			case 14: { what = "read"; if(fixed && s.flip()) continue; int rm = vb_cap(b) - vb_size(b); on_small([&] { vio_append_read(&b, 0); r = vb_view(&b); }); m += std::string((size_t)rm, 'r'); break; }
			default: { what = "characters"; on_small([&] { for(int j = 0; j < 200; j++) r = vb_append_char(&b, 'y'); }); m += std::string(200, 'y'); }
		}
		TR("  %s: %zu characters now", what, m.size()); if((fixed && m.size() > (size_t)vb_cap(b)) || m.size() >= (32u << 20)) FAIL("harness: case too large");
		check_view(r, b, what); check_state(b, m, what);
	}
	if(s.flip()) { int left = -1; on_small([&] { SV v = sv(m); left = vio_view_write(1, &v); vio_write(1, &b); }); CHECK(left == (int)m.size() && vb_size(b) == 0, "write of %zu: %d, %d left", m.size(), left, vb_size(b)); m.clear(); }
	if(!fixed) { if(s.flip()) on_small([&] { vb_destroy(&b); }); else { char* c = nullptr; on_small([&] { c = vb_to_cstr(&b); }); CHECK(c && !memcmp(c, m.c_str(), m.size() + 1), "to_cstr"); vf_free(c); } CHECK(def.c.blocks.empty(), "%zu blocks left", def.c.blocks.size()); }
}
PROPERTY(C39, "a text of at least 250000 characters, larger than the stack the operation has") {
	nontrivial();
	switch(s.below(4)) { case 0: LABEL("numbers"); numbers(s); break; case 1: LABEL("buffers"); buffers(s); break; case 2: LABEL("views"); views(s); break; default: LABEL("buffers"); buffers(s); }
}
