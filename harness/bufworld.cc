#include "bufworld.h"
#include <set>
#if VF_ASAN
	#include <sanitizer/asan_interface.h>
#endif

// ------------------------------------------------------------------ allocator
static std::set<Ctl*>& ctl_set() { static std::set<Ctl*> s; return s; }
Ctl* g_default_ctl = nullptr;
bool g_expect_no_alloc = false;
long g_fail_in = -1; bool g_alloc_failed = false;
static void not_failed() { CHECK(!g_alloc_failed, "the library went on and called the C library's allocator again after an allocation failed"); }
SV (*g_encrypt)(SB**, uint8_t*, uint8_t*) = nullptr; SV (*g_decrypt)(SB**, uint8_t*, uint8_t*) = nullptr;
void register_ctl(Ctl* c) { ctl_set().insert(c); }
void unregister_ctl(Ctl* c) { ctl_set().erase(c); }

static const size_t CAN = VF_ASAN ? 0 : 32;

char* Ctl::fresh(size_t n, size_t room) {
	char* base = (char*)malloc(room + 2 * CAN + (room ? 0 : 1));
	if(!base) { fprintf(stderr, "harness out of memory\n"); _Exit(3); }
	char* p = base + CAN;
	if(CAN) { memset(base, 0xC7, CAN); memset(p + n, 0xC7, room - n + CAN); }
	memset(p, 0xA5, n);
#if VF_ASAN
	if(room > n) __asan_poison_memory_region(p + n, room - n);
#endif
	blocks[p] = Blk{ n, room, base }; allocs++;
	return p;
}
void Ctl::drop(std::map<char*, Blk>::iterator it) {
	Blk b = it->second; char* p = it->first;
	if(CAN) {
		for(size_t i = 0; i < CAN; i++) CHECK((unsigned char)b.base[i] == 0xC7, "byte written before an allocated block");
		for(size_t i = b.size; i < b.size + CAN; i++) CHECK((unsigned char)p[i] == 0xC7, "byte written after the end of a block of %zu bytes (offset +%zu)", b.size, i - b.size);
		memset(p, 0xDD, b.size);
	}
#if VF_ASAN
	__asan_unpoison_memory_region(p, b.room);
#endif
	free(b.base); blocks.erase(it); frees++;
}
void* Ctl::resize(void* vp, size_t n) {
	calls++;
	CHECK(magic == 0xA110CA7E, "allocator called with foreign application data");
	CHECK(n <= (size_t)64 << 20, "allocator asked for %zu bytes", n);
	CHECK(!g_expect_no_alloc, "allocator called (ptr %s, size %zu) by an operation that must not allocate", vp ? "block" : "NULL", n);
	char* p = (char*)vp;
	if(!p) { if(n == 0) return nullptr; return fresh(n, mode == 2 ? (n + 4096) * 2 : n); }
	auto it = blocks.find(p);
	CHECK(it != blocks.end(), "allocator asked to resize/free a pointer it does not own (double free, foreign or interior pointer)");
	if(n == 0) { drop(it); return nullptr; }
	bool move = mode == 0 || (mode == 3 && (calls & 1)) || (mode == 1);
	Blk& b = it->second;
	if(!move && n <= b.room) {
#if VF_ASAN
		__asan_unpoison_memory_region(p, b.room);
		if(n > b.size) memset(p + b.size, 0xA5, n - b.size);
		if(b.room > n) __asan_poison_memory_region(p + n, b.room - n);
#else
		for(size_t i = b.size; i < b.size + CAN; i++) CHECK((unsigned char)p[i] == 0xC7, "byte written after the end of a block of %zu bytes (offset +%zu)", b.size, i - b.size);
		if(n > b.size) memset(p + b.size, 0xA5, n - b.size);
		memset(p + n, 0xC7, b.room - n + CAN);
#endif
		b.size = n;
		return p;
	}
	size_t old = b.size;
	char* q = fresh(n, mode == 2 ? n * 2 + 4096 : n);
	memcpy(q, p, old < n ? old : n);
	drop(blocks.find(p));
	return q;
}
Ctl::~Ctl() {
	unregister_ctl(this);
	magic = 0;
	for(auto& kv : blocks) {
#if VF_ASAN
		__asan_unpoison_memory_region(kv.first, kv.second.room);
#endif
		free(kv.second.base);
	}
}
extern "C" void* vf_alloc(void* app, void* ptr, size_t size) {
	Ctl* c = (Ctl*)app;
	if(!ctl_set().count(c)) {
		if(g_default_ctl && app == (void*)vf_user_default_tag()) c = g_default_ctl;
		else FAIL("allocator called with application data that was never supplied (%p)", app);
	}
	return c->resize(ptr, size);
}
// the library's default allocator: its malloc/realloc/calloc/free are redirected here
extern "C" void* vf_realloc(void* p, size_t n) {
	CHECK(g_default_ctl, "C library allocator used although no buffer was created with the default allocator");
	not_failed();
	if(g_fail_in >= 0 && g_fail_in-- == 0) { TR("  the C library fails to provide %zu bytes", n); g_alloc_failed = true; return nullptr; }
	return g_default_ctl->resize(p, n ? n : 1);
}
extern "C" void* vf_malloc(size_t n) { return vf_realloc(nullptr, n); }
extern "C" void* vf_calloc(size_t a, size_t b) { void* p = vf_realloc(nullptr, a * b); if(p) memset(p, 0, a * b); return p; }
extern "C" void vf_free(void* p) { not_failed(); if(p) { CHECK(g_default_ctl, "C library free used although no buffer was created with the default allocator"); g_default_ctl->resize(p, 0); } }

// ------------------------------------------------------------------ checks
void check_state(SB* b, const std::string& m, const char* what) {
	int size = vb_size(b), cap = vb_cap(b); char* c = vb_cstr(b);
	CHECK(size >= 0 && size <= cap, "%s: size %d outside capacity %d", what, size, cap);
	CHECK((size_t)size == m.size(), "%s: size %d, expected %zu; content %s expected %s", what, size, m.size(), show(c, (size_t)size).c_str(), show(m).c_str());
	CHECK(!memcmp(c, m.data(), m.size()), "%s: content %s, expected %s", what, show(c, (size_t)size).c_str(), show(m).c_str());
	CHECK(c[size] == 0, "%s: content not zero-terminated (byte 0x%02X at %d)", what, (unsigned char)c[size], size);
}
void check_view(SV r, SB* b, const char* what) {
	CHECK(r.data == vb_cstr(b) && r.size == vb_size(b), "%s: returned view {%s,%d} is not the buffer's content {size %d}", what, r.data ? (r.data == vb_cstr(b) ? "start" : "elsewhere") : "NULL", r.size, vb_size(b));
}

// ------------------------------------------------------------------ world
World::~World() {}
Ctl* World::new_ctl(int mode) {
	auto c = std::make_unique<Ctl>(); c->mode = mode; c->id = (int)ctls.size(); register_ctl(c.get());
	ctls.push_back(std::move(c)); return ctls.back().get();
}
Buf& World::new_dynamic(Ctl* c, bool dflt) {
	auto d = std::make_unique<Buf>(); d->id = (int)bufs.size(); d->ctl = c; d->dflt = dflt; int df = dflt;
	int how = (int)s.below(4);
	if(how < 3) {
		int cap = s.one_in(12) ? (cfg.big && s.one_in(4) ? s.edge_len() : (int)s.below(3000)) : s.small_len(70);
		TR("b%d = create(capacity %d) [%sallocator %d, mode %d]", d->id, cap, dflt ? "default " : "", c->id, c->mode);
		d->b = how == 0 ? vb_create_empty((size_t)cap, c, df) : how == 1 ? vb_create_macro_int(cap, c, df) : vb_create_macro_size((size_t)cap, c, df);
		CHECK(d->b, "creating a buffer of capacity %d returned no buffer", cap);
		CHECK(vb_cap(d->b) == cap, "created with capacity %d but has %d", cap, vb_cap(d->b));
	} else {
		Source o; int len = s.small_len(80); std::string t = gen_bytes(s, len); Mem mm(t);
		bool inv = s.one_in(16); if(inv) t.clear();
		TR("b%d = create(content %s) [%sallocator %d, mode %d]", d->id, inv ? "invalid" : show(t).c_str(), dflt ? "default " : "", c->id, c->mode);
		SV v = { inv ? nullptr : mm.p, inv ? 0 : len };
		d->b = vb_create_init(v, c, df, s.flip());
		CHECK(d->b, "creating a buffer with content returned no buffer");
		CHECK(vb_cap(d->b) >= (int)t.size(), "capacity below content size");
		d->m = t;
	}
	CHECK(dflt || vb_appdata(d->b) == c, "buffer does not record its allocator's application data");
	check_state(d->b, d->m, "create");
	d->cap = vb_cap(d->b);
	bufs.push_back(std::move(d)); return *bufs.back();
}
Buf& World::new_fixed() {
	auto d = std::make_unique<Buf>(); d->id = (int)bufs.size(); d->dyn = false;
	int cap = 0, how = (int)s.below(8);
	if(how < 6) {
		cap = s.one_in(10) ? (cfg.big && s.one_in(4) ? s.edge_len() : (int)s.below(2000)) : s.small_len(72);
		unsigned mis = (unsigned)(s.below(2) * 8);
		size_t len = vb_header() + (size_t)cap + 1;
		if(s.one_in(6)) { d->before = gen_text(s, 16, "abcdefgh"); d->after = gen_text(s, 1 + (int)s.below(20), "ABCDEFGH"); }
		d->mem = std::make_unique<Mem>(d->before.size() + len + d->after.size(), mis); char* at = d->mem->p + d->before.size();
		memcpy(d->mem->p, d->before.data(), d->before.size()); memcpy(at + len, d->after.data(), d->after.size());
		TR("b%d = create_fixed(%zu bytes) -> capacity %d%s", d->id, len, cap, d->after.empty() ? "" : ", with other text right before and after it");
		d->b = vb_create_fixed(at, len);
		CHECK(d->b, "create_fixed(%zu bytes) returned no buffer", len);
		CHECK((char*)d->b == at, "fixed buffer is not in the memory supplied");
	} else {
		int nst = vb_static_count(), i = (int)s.below((uint64_t)nst); while(statics >> i & 1) i = (i + 1) % nst;
		statics |= 1u << i;
		d->b = vb_static(i, &cap);
		TR("b%d = static space with capacity %d", d->id, cap);
	}
	CHECK(vb_cap(d->b) == cap, "fixed buffer capacity %d, expected %d", vb_cap(d->b), cap);
	CHECK(!vb_is_dynamic(d->b), "fixed buffer has an allocator");
	check_state(d->b, "", "create_fixed");
	d->cap = cap;
	bufs.push_back(std::move(d)); return *bufs.back();
}
Buf& World::add(SB* b, int cap) {
	auto d = std::make_unique<Buf>(); d->id = (int)bufs.size(); d->dyn = false; d->b = b; d->cap = cap;
	CHECK(vb_cap(b) == cap, "fixed buffer capacity %d, expected %d", vb_cap(b), cap);
	CHECK(!vb_is_dynamic(b), "fixed buffer has an allocator");
	check_state(b, "", "new fixed buffer");
	bufs.push_back(std::move(d)); return *bufs.back();
}
std::string World::content(Buf& d, int maxlen) {
	int len, room = d.cap - (int)d.m.size();
	switch(s.below(6)) {
		case 0: case 1: case 2: len = s.small_len(maxlen); break;
		case 3: len = room + (int)s.below(5) - 2; exact++; break;                     // around the free space
		case 4: len = d.cap + (int)s.below(5) - 2; break;                            // around the capacity
		default:
			if(cfg.big && s.one_in(24)) { static const int L[] = { 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 70001 }; len = s.pick(L) - (int)d.m.size() * (int)s.below(2); }
			else len = 16 * (int)s.below(6) + (int)s.below(3) - 1;
	}
	if(len < 0) len = 0;
	if(len > 200000) len = 200000;
	if(len > 250) large++;
	return gen_bytes(s, len);
}
void World::make_source(Source& o, Buf& d, bool allow_alias, bool allow_cstr) {
	bool want_alias = allow_alias && !d.m.empty() && (int)s.below(16) >= 16 - cfg.alias_pct;
	if(want_alias) {
		int n = (int)d.m.size(), a = 0, len = 0;
		if(n < 250) { a = (int)s.below((uint64_t)n + 1); len = (int)s.below((uint64_t)(n - a) + 1); if(s.flip()) { a = 0; len = n; } }
		else { a = (int)s.below((uint64_t)n + 1); len = (int)s.below((uint64_t)(n - a) + 1); }
		o.alias = true; o.off = a; o.valid = true;
		o.val = d.m.substr((size_t)a, (size_t)len);
		o.v = { vb_cstr(d.b) + a, len };
		if(allow_cstr && s.one_in(6)) {
			o.by_cstr = true; o.nonconst = s.flip(); o.s = vb_cstr(d.b) + a; o.val = std::string(d.m.c_str() + a);
			o.desc = fmtstr("own C string at %d (%zu chars)", a, o.val.size());
		} else o.desc = fmtstr("own[%d,%d)", a, a + len);
		aliases++;
		return;
	}
	if(!d.after.empty() && s.one_in(3)) { // text that ends where the buffer's memory begins, or begins where that ends
		bool b = s.flip(); const std::string& t = b ? d.before : d.after; size_t n = s.below(t.size() + 1);
		o.valid = true; o.val = b ? t.substr(t.size() - n) : t.substr(0, n); o.v = { b ? d.mem->p + t.size() - n : d.mem->p + d.mem->n - t.size(), (int)n }; o.desc = fmtstr("%zu characters right %s the buffer", n, b ? "before" : "after"); return;
	}
	switch(s.weighted({ 10, 4, 1, 1, 2, 1 })) {
		case 0: default: {
			o.valid = true; o.val = content(d, 60); o.mem = std::make_unique<Mem>(o.val); o.v = { o.mem->p, (int)o.val.size() };
			o.desc = show(o.val); return;
		}
		case 1: if(allow_cstr) {
			std::string t = content(d, 60); for(char& c : t) if(!c) c = '0';
			o.valid = true; o.val = t; o.mem = std::make_unique<Mem>(cstr_mem(t)); o.s = o.mem->p; o.by_cstr = true; o.nonconst = s.flip();
			o.desc = "C string " + show(t); return;
		} else { o.valid = true; o.v = { "", 0 }; o.desc = "empty"; return; }
		case 2: o.valid = false; o.desc = "invalid view"; return;
		case 3: if(allow_cstr) { o.by_cstr = true; o.nonconst = s.flip(); o.s = nullptr; o.desc = "NULL C string"; } else o.desc = "invalid view"; return;
		case 4: { // another buffer's content
			Buf& e = *bufs[s.below(bufs.size())];
			if(&e == &d || !e.b) { o.valid = true; o.v = { "lit", 3 }; o.val = "lit"; o.desc = "\"lit\""; return; }
			int n = (int)e.m.size(), a = (int)s.below((uint64_t)n + 1), len = (int)s.below((uint64_t)(n - a) + 1); if(len > 250000) len = 250000;
			o.valid = true; o.val = e.m.substr((size_t)a, (size_t)len); o.v = { vb_cstr(e.b) + a, len }; o.desc = fmtstr("b%d[%d,%d)", e.id, a, a + len); return;
		}
		case 5: o.valid = true; o.mem = std::make_unique<Mem>((size_t)0); o.v = { o.mem->p, 0 }; o.desc = "empty"; return;
	}
}
// a view inside the destination (or outside it); a,b: offsets when inside, -1 otherwise
SV World::pos_view(Buf& d, int& a, int& b) {
	int n = (int)d.m.size();
	if(s.one_in(9)) { // wholly outside of the content
		a = b = -1; static const char other[8] = "foreign"; char* c = vb_cstr(d.b); int spare = vb_cap(d.b) - n, h = (int)vb_header();
		switch(s.below(4)) {
			case 0: return { nullptr, 0 };
			case 1: if(spare > 0) { int from = 1 + (int)s.below((uint64_t)spare); return { c + n + from, (int)s.below((uint64_t)(spare - from) + 1) }; } // unused space past the terminator
				return { other, 4 };
			case 2: { int from = (int)s.below((uint64_t)h); return { c - h + from, (int)s.below((uint64_t)(h - from)) }; } // ends before the content
			default: return { other, 4 };
		}
	}
	a = (int)s.below((uint64_t)n + 1); b = a + (int)s.below((uint64_t)(n - a) + 1);
	return { vb_cstr(d.b) + a, b - a };
}
static int rup(int n) { int g = vb_grow_step(); return (int)(((int64_t)n + g - 1) / g * g); }
void World::verify(Buf& d, const char* what) {
	check_state(d.b, d.m, what);
	if(d.dyn) {
		CHECK(d.ctl->owns(d.b), "%s: buffer is not a live block of its allocator", what);
		CHECK(d.ctl->block_size(d.b) >= vb_header() + (size_t)vb_cap(d.b) + 1, "%s: capacity %d exceeds the allocated block of %zu", what, vb_cap(d.b), d.ctl->block_size(d.b));
		CHECK(d.dflt || vb_appdata(d.b) == d.ctl, "%s: allocator data changed", what);
	} else {
		CHECK(vb_cap(d.b) == d.cap, "%s: fixed capacity changed from %d to %d", what, d.cap, vb_cap(d.b));
		CHECK(!vb_is_dynamic(d.b), "%s: fixed buffer became dynamic", what);
		if(d.mem) { d.mem->verify(); d.around(what); }
	}
}
void Buf::around(const char* what) const {
	CHECK(!memcmp(mem->p, before.data(), before.size()) && !memcmp(mem->p + mem->n - after.size(), after.data(), after.size()), "%s: text next to the memory of a fixed buffer was modified", what);
}
void World::after(Buf& d, const char* what, SV r, const std::string& expect, bool is_grow, bool is_shrink, int min) {
	d.m = expect;
	CHECK(d.b, "%s: the caller's buffer pointer became NULL", what);
	int oldcap = d.cap, newcap = vb_cap(d.b);
	verify(d, what);
	if(is_grow && !d.dyn) CHECK(r.data == nullptr, "%s: growing a fixed buffer must report an invalid view", what);
	else check_view(r, d.b, what);
	if(d.dyn) {
		if(is_shrink) CHECK(newcap == (int)d.m.size(), "%s: capacity %d after shrink, content %zu", what, newcap, d.m.size());
		else {
			CHECK(newcap >= oldcap, "%s: capacity was reduced from %d to %d without a shrink", what, oldcap, newcap);
			if(is_grow) CHECK(newcap >= min, "%s: capacity %d after growing to %d", what, newcap, min);
			else if(newcap != oldcap) {
				CHECK((int)d.m.size() > oldcap, "%s: capacity changed from %d to %d although the result (%zu) fits", what, oldcap, newcap, d.m.size());
				CHECK(newcap == rup((int)d.m.size()), "%s: capacity extended to %d for %zu bytes; growth step %d gives %d", what, newcap, d.m.size(), vb_grow_step(), rup((int)d.m.size()));
				grew++;
			}
		}
		// blocks owned by the allocator: exactly the live buffers (no temporaries left behind)
		size_t live = 0; for(auto& p : bufs) if(p->b && p->dyn && p->ctl == d.ctl) live++;
		CHECK(d.ctl->blocks.size() == live, "%s: allocator has %zu blocks outstanding for %zu buffers", what, d.ctl->blocks.size(), live);
	}
	d.cap = newcap;
	ops++;
}
void World::expect_result(Buf& d, std::string& next) {
	if(!d.dyn && (int)next.size() > d.cap) { next.clear(); empties++; }
}
SV World::call(Buf& d, Op op, Source& o, int index, SV pos) {
	switch(op) {
		case O_APPEND: return o.by_cstr ? vb_append_s(&d.b, o.s, o.nonconst) : vb_append(&d.b, o.v);
		case O_PREPEND: return o.by_cstr ? vb_prepend_s(&d.b, o.s, o.nonconst) : vb_prepend(&d.b, o.v);
		case O_INSERT: return o.by_cstr ? vb_insert_at_s(&d.b, index, o.s, o.nonconst) : vb_insert_at(&d.b, index, o.v);
		case O_BEFORE: return o.by_cstr ? vb_insert_before_s(&d.b, pos, o.s, o.nonconst) : vb_insert_before(&d.b, pos, o.v);
		case O_AFTER: return o.by_cstr ? vb_insert_after_s(&d.b, pos, o.s, o.nonconst) : vb_insert_after(&d.b, pos, o.v);
		case O_STRIP: return o.by_cstr ? vb_strip_s(&d.b, o.s, o.nonconst) : vb_strip(&d.b, o.v);
		default: return vb_assign(&d.b, o.v);
	}
}
struct Fetch { char* want_dst; int want_space; int ret; int calls; std::string data; bool bad; };
static int fetcher(void* dst, int n, void* vars) {
	Fetch* f = (Fetch*)vars; f->calls++;
	if(dst != f->want_dst || n != f->want_space) f->bad = true;
	for(int i = 0; i < f->ret && i < n; i++) ((char*)dst)[i] = f->data[(size_t)i];
	return f->ret;
}
void World::step(Buf& d) {
	int tot = 0; for(int w : cfg.weights) tot += w;
	int r = (int)s.below((uint64_t)tot), op = 0; while(r >= cfg.weights[op]) { r -= cfg.weights[op]; op++; }
	SB* old = d.b; std::string next = d.m; int n = (int)d.m.size();
	if((n > 150000 && op != O_SHRINK) || (n > 20000 && op == O_STRIP && !s.one_in(4))) op = O_ASSIGN; // keep histories affordable
	if(!d.dyn) g_expect_no_alloc = true;
	SV v; char what[64];
	switch(op) {
		case O_APPEND: case O_PREPEND: case O_INSERT: case O_BEFORE: case O_AFTER: {
			static const char* const NM[] = { "append", "prepend", "insert_at_index", "insert_before", "insert_after" };
			int idx = 0, a = 0, b = 0; SV pos = { nullptr, 0 };
			if(op == O_INSERT) { idx = s.one_in(3) ? s.any_int(n) : (int)s.below((uint64_t)n + 1) - (s.flip() ? n : 0); }
			if(op == O_BEFORE || op == O_AFTER) pos = pos_view(d, a, b);
			Source o; make_source(o, d, true, true);
			TR("%s(b%d, %s%s%s)", NM[op], d.id, op == O_INSERT ? fmtstr("index %d, ", idx).c_str() : "", op >= O_BEFORE ? fmtstr("at [%d,%d), ", a, b).c_str() : "", o.desc.c_str());
			int64_t at = op == O_APPEND ? n : op == O_PREPEND ? 0 : op == O_INSERT ? idx : op == O_BEFORE ? a : b;
			if(op == O_INSERT) { if(at > n) at = n; else if(at < 0) { at += n; if(at < 0) at = 0; } }
			if(o.val.size() && op >= O_INSERT) { if(at < 0) outside++; else if(at > 0 && at < n) interior++; else if(n) ends++; if(op == O_INSERT && idx < 0) negidx++; }
			if(at >= 0) next.insert((size_t)at, o.val);
			if(at >= 0 || o.val.size()) expect_result(d, next);
			v = call(d, (Op)op, o, idx, pos);
			snprintf(what, sizeof what, "%s", NM[op]);
		} break;
		case O_ASSIGN: {
			Source o; make_source(o, d, true, false);
			TR("assign(b%d, %s)", d.id, o.desc.c_str());
			next = o.val; expect_result(d, next);
			v = vb_assign(&d.b, o.v); strcpy(what, "assign");
		} break;
		case O_CAT: case O_VCAT: {
			cats++; int k = op == O_VCAT ? (int)s.below(9) : s.one_in(8) ? 1 + (int)s.below(127) : 1 + (int)s.below(5);
			std::vector<Source> src((size_t)k); std::vector<SV> a((size_t)k); next.clear(); std::string dsc; bool own = false;
			for(int i = 0; i < k; i++) {
				if(next.size() > 1000000) { a[(size_t)i] = SV{ nullptr, 0 }; continue; } // enough
				if(i > 8) { Source& e = src[(size_t)i]; Source& f = src[s.below(4)]; e.val = f.val; e.v = f.v; e.alias = f.alias; }
				else make_source(src[(size_t)i], d, true, false);
				own |= src[(size_t)i].alias;
				a[(size_t)i] = src[(size_t)i].v; next += src[(size_t)i].val;
				if(i < 9) dsc += (i ? ", " : "") + src[(size_t)i].desc;
			}
			TR("%s(b%d, %d args: %s%s)", op == O_CAT ? "cat" : "vcat", d.id, k, dsc.c_str(), k > 9 ? ", ..." : "");
			expect_result(d, next);
			v = op == O_CAT ? vb_cat(&d.b, k, a.data()) : vb_vcat(&d.b, k, a.data()); strcpy(what, "cat");
			// only dynamic buffers promise to concatenate their own content; a fixed one may also be emptied, but never holds anything else
			if(!d.dyn && own && vb_size(d.b) == 0) next.clear();
		} break;
		case O_CHAR: { char c = gen_bytes(s, 1)[0]; TR("append_char(b%d, 0x%02X)", d.id, (unsigned char)c); next += c; expect_result(d, next); v = vb_append_char(&d.b, c); strcpy(what, "append_char"); } break;
		case O_STRIP: {
			Source o;
			if(n > 20000) { // little enough to move for an implementation that moves the rest at every removal
				size_t cnt[256] = {}; for(char c : d.m) cnt[(unsigned char)c]++;
				int c = (int)s.byte(); o.valid = true; for(int i = 0; i < 256 && o.val.empty(); i++, c = (c + 1) & 255) if(cnt[c] && cnt[c] < 300) o.val += (char)c;
				if(o.val.empty() || s.flip()) for(int i = 0; i < 256; i++) if(!cnt[i]) { o.val += (char)i; break; }
				o.mem = std::make_unique<Mem>(o.val); o.v = { o.mem->p, (int)o.val.size() }; o.desc = show(o.val);
			} else if(s.flip() || d.m.empty()) make_source(o, d, true, true);
			else { // characters that do occur
				o.valid = true; int k = 1 + (int)s.below(3); for(int i = 0; i < k; i++) o.val += d.m[s.below(d.m.size())];
				o.mem = std::make_unique<Mem>(o.val); o.v = { o.mem->p, (int)o.val.size() }; o.desc = show(o.val);
			}
			int most = n < 300 ? 70000 : 400; if(o.val.size() > (size_t)most) { o.val.resize((size_t)most); if(!o.by_cstr) o.v.size = most; else { o.by_cstr = false; o.v = { o.s, most }; } }
			TR("strip(b%d, %s)", d.id, o.desc.c_str());
			bool set[256] = {}; for(char c : o.val) set[(unsigned char)c] = true;
			next.clear(); for(char c : d.m) if(!set[(unsigned char)c]) next += c;
			v = call(d, O_STRIP, o, 0, SV{ nullptr, 0 }); strcpy(what, "strip");
		} break;
		case O_USING: {
			int space = d.cap - n; Fetch f; f.want_dst = vb_cstr(d.b) + n; f.want_space = space; f.calls = 0; f.bad = false;
			f.ret = s.one_in(10) ? (s.flip() ? space + 1 + (int)s.below(20) : -1 - (int)s.below(20)) : (int)s.below((uint64_t)space + 1);
			if(f.ret > 5000) { if(s.one_in(4)) { if(f.ret <= space && s.flip()) f.ret = space - (int)s.below(2); } else f.ret = 5000; if(f.ret > 140000) f.ret = 140000; }
			f.data = gen_bytes(s, f.ret > 0 && f.ret <= space ? f.ret : 0);
			if(f.data.size() < (size_t)(f.ret < 0 ? 0 : f.ret)) f.data.resize((size_t)f.ret, 'x');
			TR("append_using(b%d, fetcher returns %d of %d)", d.id, f.ret, space);
			bool okay = f.ret >= 0 && f.ret <= space; if(!okay) fetch_bad++; else if(f.ret) fetch_some++;
			if(okay) next += f.data.substr(0, (size_t)f.ret); else { next.clear(); empties++; }
			v = vb_append_using(&d.b, fetcher, &f);
			CHECK(f.calls == 1 && !f.bad, "append_using: fetcher called %d times%s", f.calls, f.bad ? " with a wrong destination or space" : "");
			if(!okay) { CHECK(v.data == nullptr, "append_using: bad fetch must report an invalid view"); v = vb_view(&d.b); }
			strcpy(what, "append_using");
		} break;
		case O_PRINTF: case O_PRNF: {
			bool pf = op == O_PRINTF && vb_has_printf();
			if(!pf && !vb_has_prnf()) { v = vb_view(&d.b); strcpy(what, "view"); break; }
			std::string t = content(d, 60); for(char& c : t) if(!c) c = '0'; if(t.size() > 60000) t.resize(60000);
			Mem mm(cstr_mem(t)); FA fa = {}; fa.s = mm.p; fa.i = (int)s.below(1000);
			int form = (int)s.below(4); const char* fmt = s.flip() ? "%s" : "[%d]%s"; int shape = fmt[0] == '[' ? SH_IS : SH_S;
			std::string txt = shape == SH_IS ? fmtstr("[%d]", fa.i) + t : t;
			TR("%s form %d (b%d, %s, %s)", pf ? "printf" : "prnf", form, d.id, fmt, show(t).c_str());
			prints++; next = form < 2 ? txt : next + txt; expect_result(d, next);
			v = pf ? vb_printf(&d.b, form, shape, fmt, &fa) : vb_prnf(&d.b, form, shape, fmt, &fa); strcpy(what, pf ? "printf" : "prnf");
		} break;
		case O_SHRINK: TR("shrink(b%d)", d.id); v = vb_shrink(&d.b); g_expect_no_alloc = false; if(d.b != old) relocs++; shrinks++; after(d, "shrink", v, next, false, true); return;
		case O_GROW: {
			int mn = s.one_in(8) ? s.any_int(0) : d.cap + (int)s.below(64) - 8; if(mn > 500000) mn = 500000;
			TR("grow(b%d, %d)", d.id, mn); v = vb_grow(&d.b, mn); g_expect_no_alloc = false; if(d.b != old) relocs++; after(d, "grow", v, next, true, false, mn); return;
		}
		case O_BURST: {
			int k = (int)s.below(n > 3000 ? 10 : 300); std::string t = gen_bytes(s, 1 + (int)s.below(3)); Mem mm(t);
			TR("append x%d (b%d, %s)", k, d.id, show(t).c_str());
			v = vb_view(&d.b);
			for(int i = 0; i < k; i++) {
				std::string nx = d.m + t; expect_result(d, nx);
				SB* o2 = d.b; SV vv = vb_append(&d.b, SV{ mm.p, (int)t.size() }); if(d.b != o2) relocs++;
				after(d, "append", vv, nx); ops--;
			}
			g_expect_no_alloc = false; ops++; return;
		}
		case O_CRYPT: { // here only for what it does to memory; content is decided by C25 and C26
			if(n > 5000) { v = vb_view(&d.b); strcpy(what, "view"); break; }
			Mem key((size_t)32), iv((size_t)16); memset(key.p, (int)s.below(256), 32); memset(iv.p, (int)s.below(3), 16); bool enc = s.flip();
			TR("%s(b%d)", enc ? "encrypt" : "decrypt", d.id);
			v = (enc ? g_encrypt : g_decrypt)(&d.b, (uint8_t*)key.p, (uint8_t*)iv.p);
			int size = vb_size(d.b); CHECK(size >= 0 && size <= vb_cap(d.b), "crypt: size %d outside capacity %d", size, vb_cap(d.b));
			next.assign(vb_cstr(d.b), (size_t)size);
			v = vb_view(&d.b);
			d.m = next; verify(d, enc ? "encrypt" : "decrypt"); d.cap = vb_cap(d.b); strcpy(what, enc ? "encrypt" : "decrypt");
		} break;
		default: TR("view(b%d)", d.id); v = vb_view(&d.b); strcpy(what, "view"); break;
	}
	g_expect_no_alloc = false;
	if(d.b != old) relocs++;
	if(!d.dyn) CHECK(d.b == old, "%s: fixed buffer moved", what);
	after(d, what, v, next);
}
void World::one(Buf& d) {
	// only the buffer's own allocator may be called
	std::vector<unsigned long> calls; for(auto& c : ctls) calls.push_back(c->calls);
	unsigned long dcalls = g_default_ctl ? g_default_ctl->calls : 0;
	cur = &d; step(d); cur = nullptr;
	for(size_t k = 0; k < ctls.size(); k++) CHECK(ctls[k].get() == d.ctl || ctls[k]->calls == calls[k], "an operation on b%d called allocator %zu, which is not its own", d.id, k);
	CHECK(!g_default_ctl || g_default_ctl == d.ctl || g_default_ctl->calls == dcalls, "an operation on b%d called the C library's allocator, which is not its own", d.id);
}
void World::run(int nops) {
	for(int i = 0; i < nops && !s.exhausted(); i++) {
		Buf& d = *bufs[s.below(bufs.size())];
		if(!d.b) continue;
		one(d);
		CHECK(!g_alloc_failed, "the operation returned although an allocation failed");
		for(auto& e : bufs) if(e.get() != &d && e->b) verify(*e, "other buffer after an operation");
	}
}
void World::finish(Buf& d, int how) {
	if(!d.b) return;
	size_t before = d.ctl ? d.ctl->blocks.size() : 0;
	if(how == 0) {
		TR("destroy(b%d)", d.id); g_expect_no_alloc = !d.dyn; vb_destroy(&d.b); g_expect_no_alloc = false;
		CHECK(d.b == nullptr, "destroy did not null the caller's pointer");
		if(d.dyn) CHECK(d.ctl->blocks.size() == before - 1, "destroy released %zd blocks", (ssize_t)(before - d.ctl->blocks.size()));
	} else {
		TR("to_cstr(b%d)", d.id); char* fixed = vb_cstr(d.b); g_expect_no_alloc = !d.dyn; char* c = vb_to_cstr(&d.b); g_expect_no_alloc = false;
		CHECK(d.b == nullptr, "to_cstr did not null the caller's pointer");
		CHECK(c, "to_cstr returned NULL");
		CHECK(!memcmp(c, d.m.data(), d.m.size()) && c[d.m.size()] == 0, "to_cstr content differs: %s, expected %s", show(c, d.m.size()).c_str(), show(d.m).c_str());
		if(d.dyn) {
			CHECK(d.ctl->owns(c) && d.ctl->blocks.size() == before, "to_cstr result is not a block of the buffer's allocator");
			d.ctl->resize(c, 0);
		} else CHECK(c == fixed, "to_cstr of a fixed buffer must return its content in place");
	}
	if(d.mem) { d.mem->verify(); d.around("end of a fixed buffer"); }
}
void World::finish_all() {
	for(auto& d : bufs) finish(*d, s.one_in(3) ? 1 : 0);
	for(auto& c : ctls) CHECK(c->blocks.empty(), "allocator %d: %zu blocks leaked", c->id, c->blocks.size());
}
