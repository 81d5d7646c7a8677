// C10: sizes at the integer limit. Buffers of up to INT_MAX bytes live in sparse reserved
// memory, so a case touches only a few pages.
#include "bufworld.h"
#include <sys/mman.h>
#include <unistd.h>
#include <sys/file.h>
#include <time.h>

static const int64_t MAXI = INT_MAX;
static const size_t REGION = ((size_t)1 << 31) + ((size_t)1 << 22);
static const size_t PG = 4096;
static char* g_regions[4]; static bool g_used[4]; static char* g_bigsrc; static int g_state;
static bool reserve() {
	if(g_state) return g_state == 1;
	g_state = 2;
	for(auto& r : g_regions) { void* p = mmap(nullptr, REGION + PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(p == MAP_FAILED) return false; r = (char*)p; }
	void* p = mmap(nullptr, REGION, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(p == MAP_FAILED) return false;
	g_bigsrc = (char*)p;
	if(mprotect(g_regions[0], REGION, PROT_READ | PROT_WRITE)) return false;
	mprotect(g_regions[0], REGION, PROT_NONE);
	g_state = 1; return true;
}
static size_t pgup(size_t n) { return (n + PG - 1) / PG * PG; }
// memmove/memcpy/memset of the library under test: the same effect, but pages that were never touched, or hold only
// zeros, are not materialised (an implementation may move a whole buffer of 2 GB)
#include <fcntl.h>
static void zero_range(char* d, size_t n) {
	char* e = d + n, *a = (char*)pgup((uintptr_t)d), *b = (char*)((uintptr_t)e / PG * PG);
	if(a >= b) { memset(d, 0, n); return; }
	memset(d, 0, (size_t)(a - d)); memset(b, 0, (size_t)(e - b)); madvise(a, (size_t)(b - a), MADV_DONTNEED);
}
static bool in_region(const void* p, size_t n) {
	if((const char*)p >= g_bigsrc && (const char*)p + n <= g_bigsrc + REGION) return true;
	for(auto r : g_regions) if((const char*)p >= r && (const char*)p + n <= r + REGION + PG) return true;
	return false;
}
extern "C" void* vf_memmove(void* d, const void* s, size_t n) {
	static int fd = -2; if(fd == -2) fd = open("/proc/self/pagemap", O_RDONLY | O_CLOEXEC);
	if(n < 65536 || fd < 0 || g_state != 1 || !in_region(d, n) || !in_region(s, n)) return memmove(d, s, n);
	std::vector<std::pair<size_t, std::string>> parts; const char* e = (const char*)s + n; std::vector<uint64_t> map(8192);
	for(uintptr_t pg = (uintptr_t)s / PG; pg * PG < (uintptr_t)e; ) {
		uintptr_t last = ((uintptr_t)e + PG - 1) / PG; size_t k = last - pg < map.size() ? last - pg : map.size();
		ssize_t got = pread(fd, map.data(), k * 8, (off_t)(pg * 8)); if(got <= 0) return memmove(d, s, n);
		k = (size_t)got / 8;
		for(size_t i = 0; i < k; i++) if(map[i] >> 62) {
			const char* a = (const char*)((pg + i) * PG), *b = a + PG; if(a < (const char*)s) a = (const char*)s; if(b > e) b = e;
			bool zero = !*a && !memcmp(a, a + 1, (size_t)(b - a) - 1); if(zero) continue;
			size_t o = (size_t)(a - (const char*)s);
			if(!parts.empty() && parts.back().first + parts.back().second.size() == o) parts.back().second.append(a, (size_t)(b - a)); else parts.emplace_back(o, std::string(a, (size_t)(b - a)));
		}
		pg += k;
	}
	zero_range((char*)d, n); for(auto& x : parts) memcpy((char*)d + x.first, x.second.data(), x.second.size());
	return d;
}
extern "C" void* vf_memcpy(void* d, const void* s, size_t n) {
	if(n >= 65536 && d != s) CHECK((char*)d + n <= (char*)s || (char*)s + n <= (char*)d, "memcpy of %zu overlapping bytes", n);
	return n < 65536 ? memcpy(d, s, n) : vf_memmove(d, s, n);
}
extern "C" void* vf_memset(void* d, int c, size_t n) { if(c || n < 65536 || g_state != 1 || !in_region(d, n)) return memset(d, c, n); zero_range((char*)d, n); return d; }
struct HugeBlk { size_t n; int region; };
struct HugeCtl : Ctl {
	std::map<char*, HugeBlk> hb;
	void slack(char* p, size_t n) { memset(p + n, 0xC7, pgup(n) - n); }
	void check() {
		for(auto& kv : hb) for(char* q = kv.first + kv.second.n, *e = kv.first + pgup(kv.second.n); q < e; q++) CHECK((unsigned char)*q == 0xC7, "byte written after the end of a block of %zu bytes (offset +%ld)", kv.second.n, (long)(q - kv.first - (long)kv.second.n));
	}
	void* resize(void* vp, size_t n) override {
		check();
		CHECK(!g_expect_no_alloc, "allocator called by an operation that must not allocate");
		if(!vp) {
			if(!n) return nullptr;
			CHECK(n <= vb_header() + (size_t)INT_MAX + 1, "requested a block of %zu bytes, beyond any possible buffer", n);
			int r = 0; while(r < 4 && g_used[r]) r++;
			CHECK(r < 4, "too many blocks outstanding");
			char* p = g_regions[r]; if(mprotect(p, pgup(n), PROT_READ | PROT_WRITE)) { fprintf(stderr, "mprotect failed\n"); _Exit(3); }
			g_used[r] = true; slack(p, n); hb[p] = HugeBlk{ n, r }; return p;
		}
		auto it = hb.find((char*)vp); CHECK(it != hb.end(), "allocator asked to resize a pointer it does not own");
		char* p = it->first; size_t old = it->second.n;
		if(!n) { drop_all(it); return nullptr; }
		CHECK(n <= vb_header() + (size_t)INT_MAX + 1, "requested a block of %zu bytes, beyond any possible buffer", n);
		if(n > old) { if(mprotect(p, pgup(n), PROT_READ | PROT_WRITE)) { fprintf(stderr, "mprotect failed\n"); _Exit(3); } memset(p + old, 0, (pgup(old) < n ? pgup(old) : n) - old); }
		else { madvise(p + pgup(n), REGION - pgup(n), MADV_DONTNEED); mprotect(p + pgup(n), REGION - pgup(n), PROT_NONE); }
		it->second.n = n; slack(p, n);
		return p;
	}
	void drop_all(std::map<char*, HugeBlk>::iterator it) {
		madvise(it->first, REGION, MADV_DONTNEED); mprotect(it->first, REGION, PROT_NONE); g_used[it->second.region] = false; hb.erase(it);
	}
	~HugeCtl() override { while(!hb.empty()) drop_all(hb.begin()); }
};

static int64_t rup64(int64_t n) { int64_t g = vb_grow_step(), r = (n + g - 1) / g * g; return r > MAXI ? MAXI : r; }
// sparse content: everything is zero except the recorded bytes
struct Sparse {
	int64_t size = 0; std::map<int64_t, char> at;
	void clear() { size = 0; at.clear(); }
	void insert(int64_t i, const std::string& t) {
		std::map<int64_t, char> n; for(auto& kv : at) n[kv.first >= i ? kv.first + (int64_t)t.size() : kv.first] = kv.second;
		at.swap(n); for(size_t k = 0; k < t.size(); k++) if(t[k]) at[i + (int64_t)k] = t[k];
		size += (int64_t)t.size();
	}
	Sparse slice(int64_t a, int64_t n) const { Sparse r; r.size = n; for(auto it = at.lower_bound(a); it != at.end() && it->first < a + n; ++it) r.at[it->first - a] = it->second; return r; }
	void insert(int64_t i, const Sparse& t) {
		std::map<int64_t, char> n; for(auto& kv : at) n[kv.first >= i ? kv.first + t.size : kv.first] = kv.second;
		for(auto& kv : t.at) n[i + kv.first] = kv.second;
		at.swap(n); size += t.size;
	}
	std::string sub(int64_t a, int64_t n) const { std::string r((size_t)n, '\0'); for(auto it = at.lower_bound(a); it != at.end() && it->first < a + n; ++it) r[(size_t)(it->first - a)] = it->second; return r; }
};
struct Claim { char* dst; int space; int ret; int calls; std::string head, tail; };
static int claim(void* dst, int n, void* vars) {
	Claim* c = (Claim*)vars; c->calls++; c->dst = (char*)dst; c->space = n;
	if(c->ret >= 0 && c->ret <= n) {
		// stands for a fetcher that delivered zeros: whole pages are dropped, the edges cleared
		char* a = (char*)dst, *e = a + c->ret; char* pa = (char*)(((uintptr_t)a + PG - 1) / PG * PG), *pe = (char*)((uintptr_t)e / PG * PG);
		if(pa < pe) { memset(a, 0, (size_t)(pa - a)); madvise(pa, (size_t)(pe - pa), MADV_DONTNEED); memset(pe, 0, (size_t)(e - pe)); } else memset(a, 0, (size_t)(e - a));
		size_t h = c->head.size() < (size_t)c->ret ? c->head.size() : (size_t)c->ret; memcpy(dst, c->head.data(), h);
		if((size_t)c->ret >= c->head.size() + c->tail.size()) memcpy((char*)dst + c->ret - c->tail.size(), c->tail.data(), c->tail.size());
	}
	return c->ret;
}
// Whether this implementation touches every byte it moves (for instance copies in a loop of its own): then pieces of
// gigabytes are left out, and only three processes at a time run a case.
static bool g_slow;
static long rss() { char t[200] = {}; int f = open("/proc/self/statm", O_RDONLY | O_CLOEXEC); if(f < 0) return 0; if(read(f, t, sizeof t - 1) < 0) t[0] = 0; close(f); long a = 0, b = 0; sscanf(t, "%ld %ld", &a, &b); return b * 4096; }
static double cpu() { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return (double)t.tv_sec + (double)t.tv_nsec / 1e9; }
static void calibrate() {
	HugeCtl ctl; register_ctl(&ctl); const int M = 64 << 20; SB* b = vb_create_empty((size_t)M, &ctl, 0); if(!b) return;
	Claim c = {}; c.ret = M; vb_append_using(&b, claim, &c);
	for(int k = 0; k < 9 && !g_slow; k++) {
		long r0 = rss(); double t0 = cpu(); SV zeros = { g_bigsrc, M / 2 }; SV twice[2] = { zeros, { vb_cstr(b), vb_size(b) } };
		switch(k) {
			case 0: vb_grow(&b, M + M / 2); break; case 1: vb_append_char(&b, 'x'); break; case 2: vb_assign(&b, SV{ vb_cstr(b) + M / 2, vb_size(b) - M / 2 }); break; case 3: vb_insert_at(&b, 0, SV{ "yy", 2 }); break;
			case 4: vb_prepend(&b, zeros); break; case 5: vb_cat(&b, 2, twice); break; case 6: vb_shrink(&b); break; case 7: vb_append(&b, SV{ vb_cstr(b), vb_size(b) }); break; default: vb_assign(&b, zeros); break;
		}
		if(rss() - r0 > M / 4 || cpu() - t0 > 0.2) g_slow = true;
	}
	vb_destroy(&b);
}
struct Slot { // one of three
	int fd = -1;
	Slot() { if(!g_slow) return; const char* t = getenv("TMPDIR"); for(int i = 0; ; i++) { fd = open(fmtstr("%s/vf-c10-slot-%d", t ? t : "/tmp", i % 3).c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0644); if(fd < 0) return; if(!flock(fd, LOCK_EX | LOCK_NB)) return; close(fd); usleep(20000); } }
	~Slot() { if(fd >= 0) close(fd); }
};
struct H {
	Src& s; HugeCtl ctl; SB* b = nullptr; bool dyn = true; Sparse m; int64_t cap = 0; char* fixed = nullptr;
	int emptied = 0, limit = 0, saturated = 0;
	explicit H(Src& s_) : s(s_) { register_ctl(&ctl); }
	void verify(const char* what) {
		int size = vb_size(b), c = vb_cap(b); char* p = vb_cstr(b);
		CHECK(size >= 0 && c >= 0 && size <= c, "%s: size %d, capacity %d", what, size, c);
		CHECK(size == m.size, "%s: size %d, expected %lld", what, size, (long long)m.size);
		if(dyn) { CHECK(ctl.hb.size() == 1 && ctl.hb.count((char*)b), "%s: %zu blocks outstanding", what, ctl.hb.size()); CHECK(ctl.hb[(char*)b].n >= vb_header() + (size_t)c + 1, "%s: capacity %d exceeds its block of %zu", what, c, ctl.hb[(char*)b].n); }
		else CHECK(c == cap, "%s: fixed capacity changed to %d", what, c);
		CHECK(p[size] == 0, "%s: not terminated", what);
		for(auto& kv : m.at) CHECK(p[kv.first] == kv.second, "%s: byte at %lld is 0x%02X, expected 0x%02X", what, (long long)kv.first, (unsigned char)p[kv.first], (unsigned char)kv.second);
		for(int64_t from : { (int64_t)0, m.size - 400 }) for(int64_t i = from < 0 ? 0 : from; i < m.size && i < from + 400; i++) if(p[i]) CHECK(m.at.count(i), "%s: byte at %lld is 0x%02X, expected 0", what, (long long)i, (unsigned char)p[i]);
		ctl.check();
	}
	// next: new content, or emptied when it does not fit
	void after(const char* what, SV r, bool grown = false, int min = 0, bool shrunk = false) {
		int64_t c = vb_cap(b);
		if(grown && !dyn) CHECK(!r.data, "%s: growing a fixed buffer must be reported as invalid", what);
		else CHECK(r.data == vb_cstr(b) && r.size == vb_size(b), "%s: returned view is not the content", what);
		if(dyn) {
			if(shrunk) CHECK(c == m.size, "%s: capacity %lld after shrink to %lld", what, (long long)c, (long long)m.size);
			else {
				CHECK(c >= cap, "%s: capacity reduced from %lld to %lld", what, (long long)cap, (long long)c);
				if(grown) CHECK(c >= min, "%s: capacity %lld after growing to %d", what, (long long)c, min);
				else if(m.size > cap) { CHECK(c == rup64(m.size), "%s: capacity %lld for %lld bytes, expected %lld", what, (long long)c, (long long)m.size, (long long)rup64(m.size)); if(c == MAXI && m.size < MAXI) saturated++; }
			}
			cap = c;
		}
		verify(what);
		if(m.size == MAXI) limit++;
	}
	int64_t lim() const { return dyn ? MAXI : cap; }
	void ins(int64_t i, const std::string& t) { if(m.size + (int64_t)t.size() > lim()) { m.clear(); emptied++; } else m.insert(i, t); }
	void fill(int64_t target) { // claim bytes up to target
		if(target <= m.size) return;
		if(target > cap) { if(!dyn) target = cap; else { TR("grow(%lld)", (long long)target); SV r = vb_grow(&b, (int)target); after("grow", r, true, (int)target); } }
		Claim c = {}; c.ret = (int)(target - m.size); c.head = "HEAD-marker"; c.tail = "tail-MARKER";
		TR("append_using claims %d bytes", c.ret);
		int64_t at = m.size, space = cap - m.size; SV r = vb_append_using(&b, claim, &c);
		CHECK(c.calls == 1 && c.space == space && c.dst == vb_cstr(b) + at, "append_using called the fetcher with the wrong space %d", c.space);
		for(int i = 0; i < c.ret && i < (int)c.head.size(); i++) m.at[at + i] = c.head[(size_t)i];
		if(c.ret >= (int)(c.head.size() + c.tail.size())) for(size_t i = 0; i < c.tail.size(); i++) m.at[target - (int64_t)c.tail.size() + (int64_t)i] = c.tail[i];
		m.size = target; after("append_using", r);
	}
	std::string near(int64_t room) { // text around the room that is left
		int64_t n; switch(s.below(4)) { case 0: n = room + (int)s.below(5) - 2; break; case 1: n = s.small_len(200); break; case 2: n = room + 1 + (int)s.below(50); break; default: n = room - (int)s.below(20); }
		if(n < 0) n = 0; if(n > 3000) n = 3000; std::string t = gen_bytes(s, (int)n); return t;
	}
	int64_t any_index(int64_t n) { return s.one_in(3) ? lo_index(n) : s.one_in(3) ? (int64_t)s.below(100) % (n + 1) : (int64_t)s.below((uint64_t)n + 1); }
	// a large source: zeros, or a piece of the buffer itself
	SV big(int64_t n, Sparse& x) {
		if(n < 0) n = 0; if(n > MAXI) n = MAXI;
		if(m.size && s.flip()) { if(n > m.size) n = m.size; int64_t o = n == m.size ? 0 : s.flip() ? m.size - n : any_index(m.size - n); x = m.slice(o, n); return SV{ vb_cstr(b) + o, (int)n }; }
		x = Sparse(); x.size = n; return SV{ g_bigsrc + s.below(5000), (int)n };
	}
	int64_t lo_index(int64_t n) { int64_t i = n - (int64_t)s.below(200); return i < 0 ? 0 : i; }
	void step() {
		int64_t room = lim() - m.size; static const int W[] = { 5, 3, 4, 4, 5, 2, 3, 2, 2, 2, 2, 3, 2, 5, 3 }; int t = 0; for(int x : W) t += x;
		int r = (int)s.below((uint64_t)t), op = 0; while(r >= W[op]) { r -= W[op]; op++; }
		switch(op) {
			case 0: { std::string x = near(room); Mem mm(x); bool over = (int64_t)x.size() > room; TR("append(%zu bytes) at size %lld cap %lld%s", x.size(), (long long)m.size, (long long)cap, over ? " -> too large" : ""); ins(m.size, x); SV v = vb_append(&b, SV{ mm.p, (int)x.size() }); after("append", v); } break;
			case 1: { char ch = (char)('!' + s.below(80)); TR("append_char at size %lld", (long long)m.size); ins(m.size, std::string(1, ch)); SV v = vb_append_char(&b, ch); after("append_char", v); } break;
			case 2: { // insertion near the end, kept cheap
				std::string x = near(room); int64_t i = any_index(m.size); if(g_slow && i < m.size - 1000000) return; bool neg = s.flip() && m.size > 0 && i < m.size; int idx = neg ? (int)(i - m.size) : (int)i; Mem mm(x);
				TR("insert(index %d, %zu bytes) at size %lld", idx, x.size(), (long long)m.size); ins(i, x); SV v = vb_insert_at(&b, idx, SV{ mm.p, (int)x.size() }); after("insert", v); } break;
			case 3: { // prepend/insert anywhere, only when the result is too large (or the buffer small)
				int64_t n = room + 1 + (int64_t)s.below(100); if(m.size > 100000 && n > 4000) { LABEL("skipped"); return; }
				std::string x; const char* p; int len; std::unique_ptr<Mem> mm;
				if(n <= 4000) { x = gen_bytes(s, (int)n); mm = std::make_unique<Mem>(x); p = mm->p; len = (int)n; }
				else { if(!m.size) { return; } int64_t k = s.flip() ? MAXI : room + 1 + (int64_t)s.below((uint64_t)(MAXI - room)); p = g_bigsrc; len = (int)k; n = k; }
				TR("prepend/insert %d bytes at size %lld -> too large", len, (long long)m.size);
				m.clear(); emptied++; SV src = { p, len }, v; int k = (int)s.below(4); char* base = vb_cstr(b); int64_t sz = vb_size(b), a = (int64_t)s.below((uint64_t)sz + 1);
				if(k == 0) v = vb_prepend(&b, src); else if(k == 1) v = vb_insert_at(&b, s.any_int((int)sz), src); else if(k == 2) v = vb_insert_before(&b, SV{ base + a, 0 }, src); else v = vb_insert_after(&b, SV{ base, (int)a }, src);
				after("insert too large", v); } break;
			case 4: { // concatenation
				int n = 1 + s.small_len(12); std::vector<SV> a; int64_t sum = 0; bool alias = false; std::string small; bool allsmall = true; std::vector<std::unique_ptr<Mem>> keep; int64_t goal = 0;
				switch(s.below(6)) { case 0: goal = 0; break; case 1: goal = MAXI + 1; break; case 2: goal = ((int64_t)1 << 32) + (int64_t)s.below(50); break; case 3: goal = ((int64_t)1 << 33) + (int64_t)s.below(50); break; case 4: goal = MAXI + 1 + (int64_t)s.below(5000); break; default: goal = -1; }
				for(int i = 0; i < n; i++) {
					if(goal == 0) { std::string x = s.one_in(4) && m.size ? "" : gen_bytes(s, s.small_len(40)); SV v;
						if(m.size && s.one_in(3)) { int64_t o = s.flip() ? 0 : lo_index(m.size), l = (int64_t)s.below(30); if(o + l > m.size) l = m.size - o; x = m.sub(o, l); v = SV{ vb_cstr(b) + o, (int)l }; alias = true; }
						else if(s.one_in(8)) { x.clear(); v = SV{ nullptr, 0 }; } else { keep.push_back(std::make_unique<Mem>(x)); v = SV{ keep.back()->p, (int)x.size() }; }
						small += x; a.push_back(v); sum += v.size; }
					else { int64_t l = s.one_in(4) ? (int64_t)s.below(100) : s.flip() ? MAXI : (int64_t)s.below((uint64_t)MAXI) + 1; SV v = { g_bigsrc, (int)l };
						if(m.size > 1000 && s.one_in(3)) { v.data = vb_cstr(b); if(l > m.size) l = m.size; v.size = (int)l; alias = true; }
						a.push_back(v); sum += l; allsmall = false; }
				}
				while(goal > 0 && sum < goal && a.size() < 120) { int64_t l = goal - sum; if(l > MAXI) l = MAXI; a.push_back(SV{ g_bigsrc, (int)l }); sum += l; }
				if(!allsmall && sum <= lim()) { a.push_back(SV{ g_bigsrc, (int)MAXI }); sum += MAXI; if(sum <= lim()) { a.push_back(SV{ g_bigsrc, (int)MAXI }); sum += MAXI; } }
				TR("cat(%zu views totalling %lld%s) at size %lld", a.size(), (long long)sum, alias ? ", some of the buffer itself" : "", (long long)m.size);
				m.clear(); if(allsmall && (int64_t)small.size() <= lim()) m.insert(0, small); else { emptied++; LABEL("cat too large"); }
				bool vc = a.size() <= 16 && s.flip();
				int64_t c0 = cap; SV v = vc ? vb_vcat(&b, (int)a.size(), a.data()) : vb_cat(&b, (int)a.size(), a.data());
				if(dyn && alias && m.size && vb_cap(b) < c0) { LABEL("cat through a temporary"); }
				if(!dyn && alias && vb_size(b) == 0) m.clear(); // allowed: only dynamic buffers promise to concatenate their own content
				after("cat", v); } break;
			case 5: { // misreporting fetchers
				Claim c = {}; int64_t space = cap - m.size; static const int bad[] = { -1, INT_MIN, INT_MAX, -2, INT_MIN + 1 };
				int ret = s.flip() && space < MAXI ? (int)(space + 1 + (int64_t)s.below((uint64_t)(MAXI - space))) : s.pick(bad); if(ret >= 0 && ret <= space) ret = -1;
				c.ret = ret; TR("append_using reports %d with %lld free", ret, (long long)space);
				SV v = vb_append_using(&b, claim, &c); CHECK(c.calls == 1 && c.space == space, "fetcher space %d", c.space); CHECK(!v.data, "a misreporting fetcher must give an invalid view"); m.clear(); emptied++; CHECK(vb_cap(b) == cap, "capacity changed"); verify("append_using"); } break;
			case 6: { if(!vb_has_printf()) return; // formatted print around the limit
				FA a; memset(&a, 0, sizeof a); std::string x = near(room); for(char& ch : x) if(!ch || ch == '%') ch = '.'; Mem mm(cstr_mem(x)); a.s = mm.p; int form = (int)s.below(4);
				TR("printf form %d (%zu chars) at size %lld cap %lld", form, x.size(), (long long)m.size, (long long)cap);
				if(form < 2) m.clear(); ins(m.size, x); SV v = vb_printf(&b, form, SH_S, "%s", &a); after("printf", v); } break;
			case 7: { if(!vb_has_prnf()) return;
				FA a; memset(&a, 0, sizeof a); std::string x = near(room); for(char& ch : x) if(!ch || ch == '%' || ch == '\v') ch = '.'; Mem mm(cstr_mem(x)); a.s = mm.p; int form = (int)s.below(4);
				TR("prnf form %d (%zu chars) at size %lld cap %lld", form, x.size(), (long long)m.size, (long long)cap);
				if(form < 2) m.clear(); int e0 = emptied; ins(m.size, x); SV v = vb_prnf(&b, form, SH_S, "%s", &a); if(emptied != e0 && dyn) { int64_t c = vb_cap(b); CHECK(c >= cap, "capacity reduced"); cap = c; } after("prnf", v); } break;
			case 8: { TR("shrink at size %lld", (long long)m.size); SV v = vb_shrink(&b); after("shrink", v, false, 0, true); if(!dyn) cap = vb_cap(b); } break;
			case 9: { int min = s.flip() ? (s.one_in(3) ? INT_MAX : (int)(MAXI - (int64_t)s.below(300))) : s.any_int((int)cap); TR("grow(%d) at cap %lld", min, (long long)cap); SV v = vb_grow(&b, min); after("grow", v, true, min < 0 ? 0 : min); } break;
			case 10: { std::string x; SV v; std::unique_ptr<Mem> mm; if(m.size && s.flip()) { int64_t o = lo_index(m.size), l = (int64_t)s.below(30); if(o + l > m.size) l = m.size - o; x = m.sub(o, l); v = SV{ vb_cstr(b) + o, (int)l }; } else { x = gen_bytes(s, s.small_len(50)); mm = std::make_unique<Mem>(x); v = SV{ mm->p, (int)x.size() }; }
				TR("assign(%zu bytes) at size %lld", x.size(), (long long)m.size); m.clear(); m.insert(0, x); if(m.size > lim()) m.clear(); v = vb_assign(&b, v); after("assign", v); } break;
			case 11: fill(s.flip() ? MAXI - (int64_t)s.below(300) : MAXI - (int64_t)s.below((uint64_t)(vb_grow_step() < 100000 ? 3 * vb_grow_step() + 1 : 100000))); break;
			case 13: if(g_slow) return; { // large pieces of zeros or of the buffer itself, fitting exactly, nearly, or not
				const int64_t wants[] = { room, room - (int64_t)s.below(300), room + 1, room / 2, m.size, (int64_t)s.below((uint64_t)MAXI) }; int64_t want = s.pick(wants); Sparse x; SV v = big(want, x), r; int64_t i = any_index(m.size); int how = (int)s.below(6); bool over = m.size + v.size > lim(); char* base = vb_cstr(b); bool self = v.data >= base && v.data <= base + m.size;
				if(how == 5) { TR("assign(%d bytes%s) at size %lld cap %lld", v.size, self ? " of its own" : "", (long long)m.size, (long long)cap); m.clear(); if(x.size <= lim()) m = x; r = vb_assign(&b, v); after("assign large", r); break; }
				if(how == 0) i = m.size; if(how == 1) i = 0;
				TR("%s(%lld, %d bytes%s) at size %lld cap %lld", how == 0 ? "append" : how == 1 ? "prepend" : how == 2 ? "insert_before" : how == 3 ? "insert_after" : "insert_at_index", (long long)i, v.size, self ? " of its own" : "", (long long)m.size, (long long)cap);
				int64_t c0 = m.size; if(over) { m.clear(); emptied++; } else { m.insert(i, x); if(v.size > 1000000) LABEL("large piece moved in"); }
				switch(how) { case 0: r = vb_append(&b, v); break; case 1: r = vb_prepend(&b, v); break; case 2: r = vb_insert_before(&b, SV{ base + i, (int)s.below((uint64_t)(c0 - i) + 1) }, v); break;
					case 3: { int64_t a = any_index(i); r = vb_insert_after(&b, SV{ base + a, (int)(i - a) }, v); break; }
					default: r = vb_insert_at(&b, s.flip() && i < c0 ? (int)(i - c0) : (int)i, v); }
				after("insert large", r); } break;
			case 14: if(g_slow) return; { // concatenation of large pieces that fits, some of them the buffer itself
				int n = 1 + (int)s.below(4); std::vector<SV> a; Sparse t; bool alias = false; char* base = vb_cstr(b);
				for(int k = 0; k < n; k++) { int64_t left = lim() - t.size; Sparse x; SV v = big(k == n - 1 && s.flip() ? left : s.flip() ? left / 2 : (int64_t)s.below(2000), x); if(v.size > left) { v.size = (int)left; x = x.slice(0, left); } if(v.data >= base && v.data <= base + m.size && v.size) alias = true; a.push_back(v); t.insert(t.size, x); }
				TR("cat(%d views, %lld bytes%s) at size %lld cap %lld", n, (long long)t.size, alias ? ", some of the buffer itself" : "", (long long)m.size, (long long)cap);
				m = t; SV v = s.flip() ? vb_vcat(&b, n, a.data()) : vb_cat(&b, n, a.data()); LABEL("large cat that fits");
				if(!dyn && alias && vb_size(b) == 0) m.clear();
				after("cat large", v); } break;
			default: { SV v = s.flip() ? SV{ nullptr, 0 } : SV{ g_bigsrc, 0 }; TR("append nothing at size %lld", (long long)m.size); SV q = s.flip() ? vb_append(&b, v) : vb_insert_at(&b, (int)lo_index(m.size), v); after("append nothing", q); } break;
		}
	}
	void start() {
		dyn = !s.one_in(4);
		if(dyn) {
			int64_t c = s.flip() ? (int64_t)s.below(300) : s.one_in(3) ? MAXI : MAXI - (int64_t)s.below(300);
			TR("create(capacity %lld)", (long long)c); b = s.flip() ? vb_create_empty((size_t)c, &ctl, 0) : vb_create_macro_int((int)c, &ctl, 0);
			CHECK(b, "no buffer created for capacity %lld", (long long)c); cap = c; CHECK(vb_cap(b) == c, "capacity %d", vb_cap(b));
		} else {
			int64_t c = MAXI + (int64_t)s.below(600) - 300; size_t n = vb_header() + 1 + (size_t)c; if(s.one_in(4)) n = (size_t)INT_MAX + vb_header() + 1 + s.below(100000);
			char* p = g_regions[3]; mprotect(p, pgup(n), PROT_READ | PROT_WRITE); g_used[3] = true; fixed = p; ctl.slack(p, n); ctl.hb[p] = HugeBlk{ n, 3 };
			int64_t want = (int64_t)(n - vb_header() - 1); if(want > MAXI) want = MAXI;
			TR("create_fixed(%zu bytes) -> capacity %lld", n, (long long)want);
			b = vb_create_fixed(p, n); CHECK(b, "no fixed buffer for %zu bytes", n); CHECK(vb_cap(b) == want, "fixed capacity %d for %zu bytes, expected %lld", vb_cap(b), n, (long long)want); cap = want; g_expect_no_alloc = true; LABEL("fixed");
		}
		verify("create");
	}
	void finish() {
		g_expect_no_alloc = false;
		if(dyn) { TR("destroy"); vb_destroy(&b); CHECK(!b && ctl.hb.empty(), "destroy left %zu blocks", ctl.hb.size()); }
	}
	void run() {
		start();
		if(!s.one_in(4)) fill(MAXI - (int64_t)s.below(200));
		int n = 1 + s.small_len(14); for(int i = 0; i < n; i++) step();
		finish();
		if(emptied || limit || saturated) nontrivial();
		if(emptied) LABEL("emptied at the limit"); if(limit) LABEL("exactly the maximum size"); if(saturated) LABEL("capacity saturated");
	}
};
PROPERTY(C10, "an operation whose result exceeds the maximum size, reaches it exactly, or whose rounded capacity saturates") {
	if(!reserve()) { LABEL("address space not available"); return; }
	static bool done; if(!done) { done = true; calibrate(); }
	if(g_slow) LABEL("no pieces of gigabytes: this implementation touches every byte");
	Slot slot; H h(s); h.run();
}
