// C31: separate objects are independent. Programs (operation sequences over all of the library) are run alone first;
// then interleaved through the library's callbacks, one after another, or on threads. Every observation of a program
// has to be the one it makes alone.
#include "engine.h"
#include "shim.h"
#include <atomic>
#include <cerrno>
#include <functional>
#include <thread>
#include <unistd.h>

struct Run {
	const std::string* code = nullptr; std::vector<uint64_t> obs; std::vector<std::string> names; bool keep_names = false;
	int hook_at = -1, hook_phase = 0, calls = 0; std::function<void()> hook;   // run at the hook_at-th callback, before (0) or after (1) its work
	std::string chan; int blocks = 0;
	void enter(int phase) { if(hook && phase == hook_phase && calls == hook_at) { auto h = hook; hook = nullptr; h(); } if(phase == 1) calls++; }
};
static thread_local Run* cur = nullptr;

static void* raw_move(void* p, size_t n) {
	if(!n) { free(p); return nullptr; }
	size_t old = 0; char* q = (char*)malloc(n + 16); if(!q) abort();
	*(size_t*)q = n; (void)old; return p ? (void*)q : q;
}
// blocks carry their size so that a resize always relocates
static void* blk(void* p, size_t n) {
	char* o = p ? (char*)p - 16 : nullptr; if(!n) { free(o); return nullptr; }
	char* q = (char*)raw_move(nullptr, n);
	if(o) { size_t k = *(size_t*)o; memcpy(q + 16, p, k < n ? k : n); free(o); }
	return q + 16;
}
extern "C" void* vf_alloc(void* app, void* p, size_t n) {
	Run* r = (Run*)app; r->enter(0); void* q = blk(p, n); r->blocks += (p ? 0 : 1) - (n ? 0 : 1); r->enter(1); return q;
}
extern "C" void* vf_realloc(void* p, size_t n) { if(cur) cur->enter(0); void* q = blk(p, n); if(cur) cur->enter(1); return q; }
extern "C" void* vf_malloc(size_t n) { return vf_realloc(nullptr, n); }
extern "C" void* vf_calloc(size_t a, size_t b) { void* q = vf_realloc(nullptr, a * b); memset(q, 0, a * b); return q; }
extern "C" void vf_free(void* p) { if(p) blk(p, 0); }
extern "C" ssize_t vf_read(int fd, void* dst, size_t n) {
	Run* r = cur; r->enter(0); size_t k = r->chan.size() < n ? r->chan.size() : n; if(fd == 4 && k > 3) k = 3;
	memcpy(dst, r->chan.data(), k); r->chan.erase(0, k); r->enter(1); return (ssize_t)k;
}
extern "C" ssize_t vf_write(int fd, const void* src, size_t n) {
	Run* r = cur; r->enter(0); size_t k = fd == 4 && n > 2 ? 2 : n; if(fd == 5) { errno = EAGAIN; r->enter(1); return -1; }
	r->chan.append((const char*)src, k); r->enter(1); return (ssize_t)k;
}
struct Fetch { Run* r; std::string d; int ret; };
static int fetcher(void* dst, int n, void* vars) {
	Fetch* f = (Fetch*)vars; f->r->enter(0); int k = (int)f->d.size() < n ? (int)f->d.size() : n; memcpy(dst, f->d.data(), (size_t)k); f->r->enter(1); return f->ret < 0 ? f->ret : k;
}
static uint64_t hash(const void* p, size_t n) { uint64_t h = 1469598103934665603ull ^ n; for(size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ull; return h; }

static void run_program(Run& r) {
	Run* save = cur; cur = &r; r.obs.clear(); r.names.clear(); r.calls = 0; r.blocks = 0; r.chan.clear();
	Src s; s.p = (const uint8_t*)r.code->data(); s.n = r.code->size();
	enum { NB = 4 }; SB* b[NB] = {}; char fixmem[200] __attribute__((aligned(16))); Mem text(gen_bytes(s, s.small_len(60))); SV v = { text.p, (int)text.n }; char eol = 0;
	uint8_t key[32], iv[16]; for(auto& x : key) x = (uint8_t)(s.sig >> 7); for(int i = 0; i < 16; i++) iv[i] = (uint8_t)(i * 7);
	auto note = [&](const char* nm, uint64_t h) { r.obs.push_back(h); if(r.keep_names) r.names.push_back(nm); };
	auto view = [&](const char* nm, SV x) { note(nm, x.data ? hash(x.data, (size_t)x.size) : 77 + (uint64_t)x.size); };
	auto in_text = [&](const char* nm, SV x) { note(nm, x.data ? hash(x.data, (size_t)x.size) + (x.size ? (uint64_t)(x.data - text.p) * 131 : 0) : 78 + (uint64_t)x.size); };
	auto bufs = [&](const char* nm, int i) { if(b[i]) note(nm, hash(vb_cstr(b[i]), (size_t)vb_size(b[i]) + 1) + (uint64_t)vb_cap(b[i]) * 7919); };
	b[0] = vb_create_empty(s.below(20), &r, 0);
	while(!s.exhausted() && r.obs.size() < 400) {
		int i = (int)s.below(NB); std::string t; Mem m; SV src = { nullptr, 0 };
		if(!b[i]) { switch(i) { case 1: b[i] = vb_create_empty(s.below(40), nullptr, 1); break; case 2: b[i] = vb_create_fixed(fixmem, sizeof fixmem); break; default: b[i] = vb_create_empty(s.below(40), &r, 0); } if(!b[i]) break; }
		auto gen = [&](int max) { t = gen_bytes(s, s.small_len(max)); m.release(); m.make(t.size(), 0); if(t.size()) memcpy(m.p, t.data(), t.size()); src = SV{ m.p, (int)m.n }; };
		auto gens = [&](int max, const char* a) { t = gen_text(s, s.small_len(max), a); m.release(); m.make(t.size() + 1, 0); memcpy(m.p, t.c_str(), t.size() + 1); src = SV{ m.p, (int)t.size() }; };
		SB** p = &b[i];
		switch(s.below(34)) {
			case 0: gen(40); view("append", vb_append(p, src)); break;
			case 1: gen(60); view("assign", vb_assign(p, src)); break;
			case 2: gen(30); view("prepend", vb_prepend(p, src)); break;
			case 3: gen(30); { int at = s.range(-40, 40); view("insert at index", vb_insert_at(p, at, src)); } break;
			case 4: gens(6, "ab ,;\"XY"); view("strip", s.flip() ? vb_strip(p, src) : vb_strip_s(p, m.p, 0)); break;
			case 5: { gen(20); int n = 1 + (int)s.below(5); SV a[5]; for(int k = 0; k < n; k++) { a[k] = s.below(3) == 1 && i != 2 ? vs_sub(vb_view(p), 0, 1 + (int)s.below(9)) : s.below(3) == 2 ? SV{ nullptr, 0 } : src; if(a[k].size < 0) a[k].size = 0; } view("cat", vb_cat(p, n, a)); break; }
			case 6: view("append char", vb_append_char(p, (char)s.byte())); break;
			case 7: { FA f = {}; gens(20, "abcdef %"); f.i = s.range(-3000, 3000); f.s = m.p; int form = (int)s.below(4); view("printf", vb_printf(p, form, SH_IS, "%05d|%-12s|", &f)); break; }
			case 8: { FA f = {}; gens(20, "abcdef %"); f.i = s.range(-3000, 3000); f.s = m.p; int form = (int)s.below(4); view("prnf", vb_prnf(p, form, SH_IS, "%6d|%-12s|", &f)); break; }
			case 9: { gen(30); Fetch f = { &r, t, s.one_in(5) ? -1 : 0 }; view("append using", vb_append_using(p, fetcher, &f)); break; }
			case 10: view("shrink", vb_shrink(p)); break;
			case 11: { int n = (int)s.below(300); if(i != 2) view("grow", vb_grow(p, n)); break; }
			case 12: if(i != 2) { int dflt = i == 1; int n = vb_size(*p); char* c = vb_to_cstr(p); note("to cstr", hash(c, (size_t)n + 1)); if(dflt) blk(c, 0); else vf_alloc(&r, c, 0); } break;
			case 13: vb_destroy(p); note("destroy", *p == nullptr); break;
			case 14: view("encrypt", vb_encrypt(p, key, iv)); note("key", hash(key, 32) + hash(iv, 16)); break;
			case 15: view("decrypt", vb_decrypt(p, key, iv)); break;
			case 16: { int ty = (int)s.below(8), be = s.flip(); uint64_t x = s.u64(); vp_pack(p, ty, be, x); break; }
			case 17: { SV w = vb_view(p); int ty = (int)s.below(8), be = s.flip(); if(w.size >= 8) { note("unpack", vp_unpack(&w, ty, be)); note("unpack rest", (uint64_t)w.size); } break; }
			case 18: { int fd = 3 + (int)s.below(2); note("read", (uint64_t)vio_append_read(p, fd)); break; }
			case 19: { int fd = 3 + (int)s.below(3); note("write", (uint64_t)vio_write(fd, p)); note("channel", hash(r.chan.data(), r.chan.size())); break; }
			case 20: { int fd = 3 + (int)s.below(3); SV w = v; note("view write", (uint64_t)vio_view_write(fd, &w)); in_text("view write rest", w); break; }
			case 21: gen(60); text.release(); text.make(t.size(), 0); if(t.size()) memcpy(text.p, t.data(), t.size()); v = SV{ text.p, (int)text.n }; eol = 0; break;
			case 22: gens(5, "ab ,;\"XY"); { int w = (int)s.below(3); in_text("trim", vs_trim(w, v, src)); in_text("trim chars", vs_trim_s(w, v, m.p, 0)); } break;
			case 23: gens(4, "abAB ,;"); { int l = s.flip(), nc = s.flip(); in_text("find", vs_find(l, nc, v, src)); in_text("find chars", vs_find_s(l, nc, v, m.p, 0)); } break;
			case 24: gens(4, "abAB ,;"); note("match", vs_match_nc(v, src) * 2u + vs_starts_nc(v, src)); note("match chars", vs_match_s(v, m.p, 0) * 2u + vs_starts_s(v, m.p, 0)); { int c = vs_compare(v, src); note("compare", c > 0 ? 2u : c < 0); } break;
			case 25: gens(4, "abAB ,;"); { bool q = s.flip(), l = s.flip(); in_text("split", l ? vs_split_last(&v, m.p, q) : vs_split_first(&v, m.p, q)); in_text("split rest", v); } break;
			case 26: gens(4, "abAB ,;"); { SV d[64]; int k = vs_split_all(8, 2, d, v, m.p, s.flip()); note("split all", (uint64_t)k); for(int j = 0; j < k && j < 8; j++) in_text("field", d[j]); } break;
			case 27: in_text("line", vs_line(&v, &eol)); note("eol", (unsigned char)eol); break;
			case 28: in_text("dequote", vs_dequote(v)); break;
			case 29: in_text("split index", vs_split_index(&v, s.range(-10, 10))); break;
			case 30: { static const char* const N[] = { "0", "12", "-7", " 34x", "0x1fZ", "0b101", "99999999999", "1.5e3,", "inf", "-0.0625", "1e-7", ".5", "nan", "3e", "340282350000000000000000000000000000000", "+5" };
				gens(3, "0123.e-x"); std::string num = std::string(s.pick(N)) + t; Mem nm(num); SV w = { nm.p, (int)nm.n }; uint64_t cell[2] = {}; int ty = (int)s.below(N_TYPES), opt = vn_opt((int)s.below(7));
				note("number", (uint64_t)(s.flip() ? vn_consume(ty, cell, &w, opt) : vn_value(ty, cell, &w, opt))); note("value", hash(cell, 16)); note("rest", (uint64_t)w.size); break; }
			case 31: { gens(12, "0123456789-x "); uint64_t cell[2] = {}, d[2] = {}; int ty = (int)s.below(N_LL + 1); d[0] = 5; vn_default(ty, cell, src, d, vn_opt((int)s.below(7))); note("number or default", hash(cell, 16)); break; }
			case 32: { char out[80]; memset(out, '#', sizeof out); size_t n = s.below(80); vs_to_cstr(out, n, v); note("to cstr", hash(out, sizeof out)); break; }
			default: { SV w = v; char c = vs_pop(&w); note("pop", (unsigned char)c); in_text("pop rest", w); SV x = s.flip() ? vs_sub(v, s.range(-9, 9), s.range(-9, 9)) : vs_invalid(); in_text("sub", x); } break;
		}
		bufs("buffer after it", i);
	}
	for(auto& x : b) vb_destroy(&x);
	note("blocks left", (uint64_t)r.blocks);
	cur = save;
}
static void same(const std::vector<uint64_t>& a, Run& r, const char* how, int which, const std::string& code) {
	size_t i = 0; while(i < a.size() && i < r.obs.size() && a[i] == r.obs[i]) i++;
	if(i == a.size() && i == r.obs.size()) return;
	Run n; n.code = &code; n.keep_names = true; run_program(n);
	FAIL("program %c, %s: observation %zu (%s) differs from the one made when it runs alone", 'A' + which, how, i, i < n.names.size() ? n.names[i].c_str() : "length");
}
PROPERTY(C31, "at least two programs of 4 or more observations each, interleaved through a callback, on threads, or one after another") {
	int k = 2 + (int)s.below(2); std::vector<std::string> code((size_t)k); std::vector<std::vector<uint64_t>> alone((size_t)k); std::vector<int> calls((size_t)k); int big = 0;
	for(int i = 0; i < k; i++) { int n = 20 + (int)s.below(280); for(int j = 0; j < n && !s.exhausted(); j++) code[(size_t)i] += (char)s.byte(); s.mix(hash(code[(size_t)i].data(), code[(size_t)i].size())); }
	int mode = s.weighted({ 3, 5, 6 });
	#ifdef VF_FUZZ
		if(mode == 2) mode = 1;
	#endif
	for(int i = 0; i < k; i++) {
		Run r; r.code = &code[(size_t)i]; r.keep_names = g_trace; run_program(r); alone[(size_t)i] = r.obs; calls[(size_t)i] = r.calls;
		CHECK(r.blocks == 0, "program %c leaves %d blocks", 'A' + i, r.blocks);
		if(r.obs.size() >= 4) big++;
		if(g_trace) { std::string t; for(size_t j = 0; j < r.names.size() && j < 60; j++) if(r.names[j] != "buffer after it") t += r.names[j] + ", "; TR("program %c: %s%zu observations, %d callbacks", 'A' + i, t.c_str(), r.obs.size(), r.calls); }
	}
	if(mode == 0) {
		TR("one after another");
		for(int t = 0; t < k + 2; t++) { int i = t < 1 ? 0 : (int)s.below((uint64_t)k); Run r; r.code = &code[(size_t)i]; run_program(r); same(alone[(size_t)i], r, "run again after the others", i, code[(size_t)i]); }
		LABEL("again"); if(big >= 2) nontrivial();
	} else if(mode == 1) {
		Run r; r.code = &code[0]; r.hook_at = calls[0] ? (int)s.below((uint64_t)calls[0]) : 0; r.hook_phase = (int)s.below(2);
		TR("B%s inside callback %d of A (%s its work)", k > 2 ? " (with C inside it)" : "", r.hook_at, r.hook_phase ? "after" : "before");
		bool ran = false;
		Run in; in.code = &code[1];
		Run in2; if(k > 2) { in2.code = &code[2]; in.hook_at = calls[1] ? (int)s.below((uint64_t)calls[1]) : 0; in.hook_phase = (int)s.below(2); in.hook = [&] { run_program(in2); same(alone[2], in2, "run inside a callback of B", 2, code[2]); }; }
		r.hook = [&] { ran = true; run_program(in); same(alone[1], in, "run inside a callback of A", 1, code[1]); };
		run_program(r); same(alone[0], r, "with another program inside one of its callbacks", 0, code[0]);
		if(ran) { LABEL("inside a callback"); if(big >= 2) nontrivial(); }
	} else {
		TR("all on threads");
		std::vector<Run> r((size_t)k); std::atomic<int> ready(0); std::vector<std::thread> th;
		for(int i = 0; i < k; i++) r[(size_t)i].code = &code[(size_t)i];
		for(int i = 0; i < k; i++) th.emplace_back([&, i] { ready.fetch_add(1, std::memory_order_relaxed); while(ready.load(std::memory_order_relaxed) < k) {} run_program(r[(size_t)i]); });
		for(auto& t : th) t.join();
		for(int i = 0; i < k; i++) same(alone[(size_t)i], r[(size_t)i], "on a thread beside the others", i, code[(size_t)i]);
		LABEL("threads"); if(big >= 2) nontrivial();
	}
}
