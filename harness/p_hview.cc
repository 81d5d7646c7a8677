// C33: views of any size up to the integer limit. A text of up to INT_MAX bytes is one fill
// character with a few short islands of other text: the fill is mapped many times from one
// small file, so the memory really is there, and the model stays as small as the islands.
#include "engine.h"
#include "shim.h"
#include <cerrno>
#include <climits>
#include <cmath>
#include <map>
#include <sys/mman.h>
#include <unistd.h>

static const int64_t CHUNK = 2 << 20, ROOM = (int64_t)1 << 31, FAR = ((int64_t)1 << 32) + 4 * CHUNK;
static const char FILLS[] = { 0, 'a', ' ', '0', ',', '"', '\n', 'Z' };
static char* g_base[sizeof FILLS];
static char* region(int k) { // ROOM bytes of the fill between inaccessible pages; null if impossible here
	if(g_base[k]) return g_base[k];
	char* r = (char*)mmap(nullptr, (size_t)(ROOM + 2 * FAR), PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(r == (char*)MAP_FAILED) return nullptr;
	r = (char*)(((uintptr_t)r + FAR + CHUNK) & ~(uintptr_t)(CHUNK - 1));
	if(mprotect(r - CHUNK, (size_t)CHUNK, PROT_NONE) || mprotect(r + ROOM, (size_t)CHUNK, PROT_NONE)) return nullptr;
	if(!FILLS[k]) { if(mmap(r, (size_t)ROOM, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) return nullptr; return g_base[k] = r; }
	int fd = memfd_create("fill", MFD_CLOEXEC); if(fd < 0) return nullptr;
	std::string t((size_t)CHUNK, FILLS[k]); bool ok = write(fd, t.data(), t.size()) == (ssize_t)t.size();
	for(int64_t o = 0; ok && o < ROOM; o += CHUNK) ok = mmap(r + o, (size_t)CHUNK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, fd, 0) != MAP_FAILED;
	close(fd);
	return ok ? g_base[k] = r : nullptr;
}

static unsigned char up(unsigned char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static bool is_eol(char c) { return c == '\r' || c == '\n'; }
struct Win { int64_t o, n; };
struct Text {
	int k; char fill; char* p; int64_t n; std::map<int64_t, std::string> isl;
	// the run [i, end) of equal kind around position i: an island or the fill between two
	const std::string* run(int64_t i, int64_t* lo, int64_t* hi) const {
		auto it = isl.upper_bound(i); *hi = it == isl.end() ? n : it->first; *lo = 0;
		if(it == isl.begin()) return nullptr;
		--it; int64_t e = it->first + (int64_t)it->second.size();
		if(i < e) { *lo = it->first; *hi = e; return &it->second; }
		*lo = e; return nullptr;
	}
	char at(int64_t i) const { int64_t a, b; const std::string* t = run(i, &a, &b); return t ? (*t)[(size_t)(i - a)] : fill; }
	template<class F> int64_t next_if(int64_t i, int64_t end, F f) const { // first position in [i,end) with f, or end
		while(i < end) { int64_t a, b; if(run(i, &a, &b)) { if(f(at(i))) return i; i++; } else { if(f(fill)) return i; i = b; } }
		return end;
	}
	template<class F> int64_t prev_if(int64_t begin, int64_t end, F f) const { // last position in [begin,end) with f, or begin-1
		int64_t i = end - 1;
		while(i >= begin) { int64_t a, b; if(run(i, &a, &b)) { if(f(at(i))) return i; i--; } else { if(f(fill)) return i; i = a - 1; } }
		return begin - 1;
	}
	std::string get(int64_t o, int64_t len) const { std::string r; for(int64_t i = 0; i < len; i++) r += at(o + i); return r; }
	int64_t first_diff(int64_t x, int64_t y, int64_t len, bool nocase) const { // of two windows; len if none
		int64_t i = 0;
		while(i < len) {
			int64_t a, b, c, d; const std::string *s = run(x + i, &a, &b), *t = run(y + i, &c, &d);
			if(!s && !t) { int64_t k = b - (x + i); if(d - (y + i) < k) k = d - (y + i); i += k; continue; }
			unsigned char u = (unsigned char)at(x + i), v = (unsigned char)at(y + i); if(nocase) u = up(u), v = up(v);
			if(u != v) return i;
			i++;
		}
		return len;
	}
	bool is(int64_t i, const std::string& t, bool nocase) const { for(size_t j = 0; j < t.size(); j++) { unsigned char u = (unsigned char)at(i + (int64_t)j), v = (unsigned char)t[j]; if(nocase ? up(u) != up(v) : u != v) return false; } return true; }
	int64_t find(Win w, const std::string& t, bool last, bool nocase) const { // -1 if none
		int64_t m = (int64_t)t.size(); bool all = true; for(char c : t) all &= nocase ? up((unsigned char)c) == up((unsigned char)fill) : c == fill;
		if(!last) for(int64_t i = 0; i + m <= w.n;) {
			int64_t a, b; bool island = run(w.o + i, &a, &b) != nullptr;
			if(!island && b > w.o + w.n) b = w.o + w.n;
			if(!island && b - (w.o + i) > m) { if(all) return i; i = b - m - w.o; continue; }
			if(is(w.o + i, t, nocase)) return i;
			i++;
		}
		else for(int64_t i = w.n - m; i >= 0;) {
			if(i == w.n) return i; // an empty needle
			int64_t a, b; bool island = run(w.o + i, &a, &b) != nullptr;
			if(!island && w.o + i + m <= b) { if(all) return i; i = a - 1 - w.o; continue; }
			if(is(w.o + i, t, nocase)) return i;
			i--;
		}
		return -1;
	}
};

static std::string island(Src& s, char fill) {
	int len = 1 + (int)s.below(12);
	switch(s.below(5)) {
		case 0: return gen_text(s, len, "aAbB");
		case 1: return gen_text(s, len, ", ;\"'a");
		case 2: return gen_text(s, len, "\r\na");
		case 3: { std::string t = gen_text(s, len, "ab\"',\n 01"); t[s.below(t.size())] = fill; return t; }
		default: return gen_bytes(s, len);
	}
}
static int64_t gen_size(Src& s, int64_t max) {
	int64_t n;
	switch(s.below(8)) {
		case 0: n = max - (int64_t)s.below(4); break;
		case 1: n = ((int64_t)1 << (15 + s.below(16))) + (int64_t)s.below(5) - 2; break;
		case 2: n = (int64_t)s.below((uint64_t)max + 1); break;
		case 3: n = max - (int64_t)s.below(5000); break;
		case 4: n = (int64_t)s.below(200000); break;
		case 5: n = max / 2 + (int64_t)s.below(9) - 4; break;
		default: n = max;
	}
	return n < 0 ? 0 : n > max ? max : n;
}
static SV sv(const Text& t, Win w) { return SV{ t.p + w.o, (int)w.n }; }
static void expect(const Text& t, SV r, Win e, const char* what) {
	CHECK(r.data, "%s: invalid result, expected [%lld,+%lld)", what, (long long)e.o, (long long)e.n);
	CHECK(r.data == t.p + e.o && r.size == e.n, "%s: result [%lld,+%d), expected [%lld,+%lld)", what, (long long)(r.data - t.p), r.size, (long long)e.o, (long long)e.n);
}
static void expect_tail(const Text& t, SV r, Win e, const char* what) { if(e.n) expect(t, r, e, what); else CHECK(r.data && r.size == 0, "%s: %d bytes, expected an empty valid view", what, r.size); }
static void expect_none(SV r, const char* what) { CHECK(!r.data && r.size == 0, "%s: expected an invalid view, got %d bytes", what, r.size); }
static int64_t clip(int64_t v, int64_t lo, int64_t hi) { return v < lo ? lo : v > hi ? hi : v; }

PROPERTY(C33, "a text of over 64 KiB with a result the model decides (not skipped as too slow to scan)") {
	int64_t budget = (int64_t)1 << (s.one_in(12) ? 20 : 14); static const bool modest = VF_ASAN || getenv("VF_SMALL") != nullptr;
	if(s.one_in(300)) budget = (int64_t)1 << (modest ? 21 : 25);
	if(s.one_in(12000) && !modest) { budget = ROOM; LABEL("full scans allowed"); }
	Text t; t.k = (int)s.below(sizeof FILLS); char* base = region(t.k); if(!base) { t.k = 0; base = region(0); LABEL("fill not available"); if(!base) return; }
	t.fill = FILLS[t.k]; t.n = gen_size(s, INT_MAX);
	int64_t lo = s.flip() ? ROOM - t.n : s.flip() ? 0 : (int64_t)s.below((uint64_t)(ROOM - t.n) + 1); t.p = base + lo;
	int k = (int)s.below(5);
	for(int i = 0; i < k; i++) {
		int64_t at; switch(s.below(6)) { case 0: at = 0; break; case 1: at = t.n; break; case 2: at = (int64_t)s.below(300); break; case 3: at = t.n - (int64_t)s.below(300); break; case 4: at = ((int64_t)1 << (8 + s.below(23))) - (int64_t)s.below(20); break; default: at = gen_size(s, t.n); }
		std::string x = island(s, t.fill); if((int64_t)x.size() > t.n) continue;
		at = clip(at, 0, t.n - (int64_t)x.size()); bool clash = false;
		for(auto& e : t.isl) clash |= at <= e.first + (int64_t)e.second.size() && e.first <= at + (int64_t)x.size();
		if(!clash) { t.isl[at] = x; memcpy(t.p + at, x.data(), x.size()); }
	}
	if(g_trace) { TR("text of %lld bytes of %s", (long long)t.n, show(std::string(1, t.fill)).c_str()); for(auto& e : t.isl) TR("  with %s at %lld", show(e.second).c_str(), (long long)e.first); }
	auto pos = [&](Win w) -> int64_t { // a position in the window, likely near an island or an end
		int64_t r; if(!t.isl.empty() && s.flip()) { auto it = t.isl.begin(); std::advance(it, (long)s.below(t.isl.size())); r = it->first - w.o + (int64_t)s.below(it->second.size() + 5) - 2; if(s.one_in(4)) r -= (int64_t)s.below(3000); }
		else r = gen_size(s, w.n);
		return clip(r, 0, w.n);
	};
	Win w = { 0, t.n }; int ops = 1 + (int)s.below(5); bool decided = false;
	for(int i = 0; i < ops; i++) {
		if(s.one_in(3)) { int64_t a = pos(Win{ 0, t.n }), b = pos(Win{ 0, t.n }); if(a > b) { int64_t x = a; a = b; b = x; } w = { a, b - a }; }
		SV v = sv(t, w), x = v, r; int64_t end = w.o + w.n; bool skip = false;
		int op = (int)s.below(16);
		TR("operation %d on [%lld,+%lld)", op, (long long)w.o, (long long)w.n);
		switch(op) {
			case 0: { // sub
				int b = s.any_int((int)w.n), e = s.any_int((int)w.n); if(s.flip()) b = (int)(pos(w) - (s.flip() ? w.n : 0)); if(s.flip()) e = (int)(pos(w) - (s.flip() ? w.n : 0));
				TR("sub %d %d", b, e); r = vs_sub(v, b, e);
				int64_t B = b < 0 ? b + w.n : b, E = e < 0 ? e + w.n : e;
				if(!w.n) CHECK(r.data && r.size == 0, "sub of an empty view");
				else if(B > E || B >= w.n || E < 0) expect_none(r, "sub");
				else { B = clip(B, 0, w.n); E = clip(E, 0, w.n); expect(t, r, Win{ w.o + B, E - B }, "sub"); if(s.flip()) w = { w.o + B, E - B }; }
			} break;
			case 1: { // split_index
				int j = s.flip() ? (int)(pos(w) - (s.flip() ? w.n : 0)) : s.any_int((int)w.n); bool neg = j < 0; int64_t c = clip(neg ? j + w.n : j, 0, w.n);
				TR("split_index %d", j); r = vs_split_index(&x, j); Win f = { w.o, c }, b = { w.o + c, w.n - c };
				expect(t, r, neg ? b : f, "split_index result"); expect(t, x, neg ? f : b, "split_index remainder"); w = s.flip() ? f : b;
			} break;
			case 2: { char c = vs_pop(&x); if(w.n) { CHECK(c == t.at(w.o), "pop_first_char gives %d", c); expect(t, x, Win{ w.o + 1, w.n - 1 }, "pop_first_char"); w = { w.o + 1, w.n - 1 }; } else { CHECK(!c, "pop from empty"); } } break;
			case 3: { // split left/right
				int64_t a = pos(w), e = pos(w); if(a > e) { int64_t y = a; a = e; e = y; }
				bool left = s.flip(), outside = s.one_in(5); SV p = { v.data + a, (int)(e - a) };
				if(outside) { // wholly before or after, with a gap
					if(s.one_in(3)) p.data += s.flip() ? FAR - 4 * CHUNK : -(FAR - 4 * CHUNK); // elsewhere, at a distance that vanishes in 32 bits
					else if(s.flip() && w.o >= 2) { int64_t q = (int64_t)s.below((uint64_t)w.o - 1); p = { t.p + q, (int)s.below((uint64_t)(w.o - 1 - q) + 1) }; }
					else if(t.n - end >= 2) { int64_t q = end + 1 + (int64_t)s.below((uint64_t)(t.n - end - 1)); p = { t.p + q, (int)s.below((uint64_t)(t.n - q)) }; }
					else outside = false;
				}
				TR("split_%s at [%lld,+%d)", left ? "left" : "right", (long long)(p.data - v.data), p.size);
				r = left ? vs_split_left(&x, p) : vs_split_right(&x, p);
				if(outside) { expect_none(r, "split at a position outside"); expect(t, x, w, "source of a split outside"); }
				else if(left) { expect(t, r, Win{ w.o, a }, "split_left result"); expect(t, x, Win{ w.o + a, w.n - a }, "split_left remainder"); }
				else { expect(t, r, Win{ w.o + e, w.n - e }, "split_right result"); expect(t, x, Win{ w.o, e }, "split_right remainder"); }
			} break;
			case 4: { // trim
				std::string set = gen_text(s, (int)s.below(4), "aA ,\"b\n\r0") + (s.one_in(3) ? std::string(1, t.fill) : ""); int which = (int)s.below(3);
				auto keep = [&](char c) { return set.find(c) == std::string::npos; };
				int64_t a = which == 2 ? w.o : t.next_if(w.o, end, keep), e = which == 1 ? end : t.prev_if(a, end, keep) + 1; if(a == end) e = a;
				if(a - w.o + (end - e) > budget) { skip = true; break; }
				TR("trim %d of %s", which, show(set).c_str()); Mem m(set); r = vs_trim(which, v, SV{ m.p, (int)set.size() });
				if(e > a) { expect(t, r, Win{ a, e - a }, "trim"); w = { a, e - a }; } else CHECK(r.data && r.size == 0, "trim: %d bytes left of %lld", r.size, (long long)w.n);
			} break;
			case 5: case 6: { // find
				bool last = s.flip(), nocase = s.flip(); std::string q; int64_t at = pos(w), len = 1 + (int64_t)s.below(5);
				if(s.one_in(3)) q = gen_text(s, (int)s.below(4), "aAb,\"") ; else { if(at + len > w.n) len = w.n - at; q = t.get(w.o + at, len); if(nocase) for(char& c : q) c = s.flip() ? (char)up((unsigned char)c) : c; if(s.one_in(6) && !q.empty()) q.back() ^= 1; }
				int64_t f = t.find(w, q, last, nocase), cost = f < 0 ? w.n : last ? w.n - f : f; if(cost > budget) { skip = true; break; }
				TR("find %s %s%s: expect %lld", show(q).c_str(), last ? "last" : "first", nocase ? " nocase" : "", (long long)f); Mem m(q); SV nv = { m.p, (int)q.size() };
				r = vs_find(last, nocase, v, nv);
				if(f < 0) expect_none(r, "find"); else { expect(t, r, Win{ w.o + f, (int64_t)q.size() }, "find"); }
				if(!last) CHECK((nocase ? vs_contains_nc(v, nv) : vs_contains(v, nv)) == (f >= 0), "contains");
			} break;
			case 7: { // needle longer than the haystack, or about as long
				int other = (int)s.below(sizeof FILLS);
				if(s.flip() && other != t.k && region(other)) { // nothing like the haystack
					int64_t n = clip(w.n - (int64_t)s.below(5) + (s.one_in(3) ? 2 : 0), 0, INT_MAX); if(n < 200 && n <= w.n) { skip = true; break; }
					bool last = s.flip(), nocase = s.flip(); TR("find %s%s of %lld bytes of other text", last ? "last" : "first", nocase ? " nocase" : "", (long long)n);
					expect_none(vs_find(last, nocase, v, SV{ g_base[other], (int)n }), "find of a long needle"); break;
				}
				Win q = { pos(Win{ 0, t.n }), 0 }; q.n = clip(w.n + (int64_t)s.below(4) - 1, 0, t.n - q.o); if(s.one_in(3)) q.n = t.n - q.o;
				bool last = s.flip(), nocase = s.flip(); int64_t f = -1;
				if(q.n > 0 && w.n - q.n > 3) { skip = true; break; }
				if(!q.n) f = last ? w.n : 0;
				else { int64_t cost = 0; for(int64_t j = 0; j <= w.n - q.n; j++) { int64_t c = last ? w.n - q.n - j : j, d = t.first_diff(w.o + c, q.o, q.n, nocase); cost += d; if(d == q.n) { f = c; break; } } if(cost > (nocase ? budget : budget * 8)) { skip = true; break; } }
				r = vs_find(last, nocase, v, sv(t, q)); if(f < 0) expect_none(r, "find of a long needle"); else expect(t, r, Win{ w.o + f, q.n }, "find of a long needle");
			} break;
			case 8: case 9: { // comparisons of two windows
				Win q = s.one_in(3) ? Win{ w.o, w.n } : Win{ pos(Win{ 0, t.n }), w.n }; if(s.flip()) q.n = s.flip() ? w.n - (int64_t)s.below(3) : pos(Win{ 0, t.n }); q.n = clip(q.n, 0, t.n - q.o);
				int64_t n = q.n < w.n ? q.n : w.n, d = t.first_diff(w.o, q.o, n, false), dn = t.first_diff(w.o, q.o, n, true);
				TR("compare with [%lld,+%lld)", (long long)q.o, (long long)q.n);
				SV u = sv(t, q);
				if(d <= budget * 8) {
					int c = d < n ? ((unsigned char)t.at(w.o + d) < (unsigned char)t.at(q.o + d) ? -1 : 1) : w.n < q.n ? -1 : w.n > q.n;
					{ int g = vs_compare(v, u), h = vs_compare(u, v); CHECK((g > 0) - (g < 0) == c && (h > 0) - (h < 0) == -c, "compare gives %d and %d, expected sign %d", g, h, c); }
					CHECK(vs_match(v, u) == (d == n && w.n == q.n), "is_match is wrong"); CHECK(vs_starts(v, u) == (d == n && w.n >= q.n), "starts_with is wrong");
				} else skip = true;
				if(dn <= budget) { CHECK(vs_match_nc(v, u) == (dn == n && w.n == q.n), "is_match_nocase is wrong"); CHECK(vs_starts_nc(v, u) == (dn == n && w.n >= q.n), "starts_with_nocase is wrong"); }
			} break;
			case 10: case 11: { // delimiters
				bool last = s.flip(), q = s.one_in(3) && t.fill != '"'; std::string d = gen_text(s, 1 + (int)s.below(3), ",;ab \n0"); if(!q && s.one_in(3)) d += '"'; if(t.fill && s.one_in(3) && (!q || t.fill != '"')) d += t.fill;
				bool in = false; auto hit = [&](char c) { if(q && c == '"') in = !in; return !in && d.find(c) != std::string::npos; };
				auto stop = [&](char c) { return (q && c == '"') || d.find(c) != std::string::npos; };
				int64_t f = -1;
				if(last) { int64_t i2 = end; while(i2 > w.o) { int64_t j = t.prev_if(w.o, i2, stop); if(j < w.o) break; char c = t.at(j); if(hit(c)) { f = j; break; } int64_t a, b; i2 = in && !t.run(j, &a, &b) ? (a < w.o ? w.o : a) : j; } }
				else { int64_t i2 = w.o; while(i2 < end) { int64_t j = t.next_if(i2, end, stop); if(j >= end) break; char c = t.at(j); if(hit(c)) { f = j; break; } int64_t a, b; i2 = in && !t.run(j, &a, &b) ? b : j + 1; } }
				int64_t cost = f < 0 ? w.n : last ? end - f : f - w.o; if(cost > budget) { skip = true; break; }
				Mem m(cstr_mem(d)); TR("split_%s at %s%s: expect %lld", last ? "last" : "first", show(d).c_str(), q ? " outside quotes" : "", f < 0 ? -1ll : (long long)(f - w.o));
				if(!last && s.one_in(3)) { // all fields up to a limit; only the first ones are within the budget
					SV a[64]; int c = vs_split_all(1, 2, a, v, m.p, q); CHECK(c == 1, "split_all gives %d fields", c); expect(t, a[0], f < 0 ? w : Win{ w.o, f - w.o }, "split_all");
				}
				r = last ? vs_split_last(&x, m.p, q) : vs_split_first(&x, m.p, q);
				if(f < 0) { expect(t, r, w, "split without a delimiter"); expect_none(x, "remainder of a split without a delimiter"); }
				else {
					Win a = { w.o, f - w.o }, b = { f + 1, end - f - 1 };
					if(last) { expect_tail(t, r, b, "split_last result"); expect(t, x, a, "split_last remainder"); w = a; } else { expect(t, r, a, "split_first result"); expect_tail(t, x, b, "split_first remainder"); w = b; }
				}
			} break;
			case 12: { // lines
				char eol = s.one_in(3) ? "\r\n"[s.below(2)] : 0; bool st = s.flip();
				int64_t a = w.o; if(st && eol && w.n && is_eol(t.at(a)) && t.at(a) != eol) a++;
				int64_t f = t.next_if(a, end, is_eol); if(f - a > budget) { skip = true; break; }
				TR("split_line, previous ending %d: expect %lld", st ? eol : -1, f < end ? (long long)(f - w.o) : -1ll);
				char e = eol; r = vs_line(&x, st ? &e : nullptr);
				if(f >= end) { expect_none(r, "split_line"); expect(t, x, w, "source without a line"); CHECK(!st || e == eol, "line ending state changed"); break; }
				int64_t nx = f + 1; char want = t.at(f); if(nx < end && is_eol(t.at(nx)) && t.at(nx) != want) { nx++; want = 0; }
				expect(t, r, Win{ a, f - a }, "line"); expect_tail(t, x, Win{ nx, end - nx }, "rest after the line"); if(st) CHECK(e == want, "line ending state is %d, expected %d", e, want);
				w = { nx, end - nx };
			} break;
			case 13: { // dequote
				int64_t a = w.o, e = end; char q = w.n ? t.at(a) : 0;
				if(q == '"' || q == '\'') { while(e - a > 1 && t.at(a) == q && t.at(e - 1) == q && a - w.o <= budget) { a++; e--; } if(a - w.o > budget) { skip = true; break; } }
				r = vs_dequote(v); if(w.n) { CHECK(r.data == t.p + a && r.size == e - a, "dequote: result [%lld,+%d), expected [%lld,+%lld)", (long long)(r.data - t.p), r.size, (long long)a, (long long)(e - a)); } w = { a, e - a };
			} break;
			case 14: { // conversions to and from C strings
				size_t n = s.below(100); Mem m(n ? n : 1); r.data = vs_to_cstr(m.p, n, v); CHECK(r.data == m.p, "to_cstr must return the destination");
				if(n) { int64_t c = w.n < (int64_t)n - 1 ? w.n : (int64_t)n - 1; CHECK(!memcmp(m.p, t.get(w.o, c).data(), (size_t)c) && !m.p[c], "to_cstr of %lld bytes into %zu", (long long)w.n, n); } m.verify();
				int64_t z = t.next_if(w.o, t.n, [](char c) { return !c; }); if(z < t.n && z - w.o <= budget * 8) { r = vs_cstr(v.data); expect(t, r, Win{ w.o, z - w.o }, "cstr"); }
			} break;
			default: { // a number after a long run of spaces or zeros, in front of a long text: the same as after a short run
				std::string num = gen_text(s, 1 + (int)s.below(6), "0123456789") + s.pick({ "", "", "x", ".5", " ", "e3" }); bool zero = t.fill == '0', space = t.fill == ' '; int64_t len = s.flip() ? (int64_t)s.below(50) : (int64_t)s.below((uint64_t)budget) + (int64_t)s.below(3);
				if(zero && s.one_in(4)) num = "." + num; else if(!zero && s.flip()) num = "-" + num;
				if(!zero && !space) len = 0; int64_t at = pos(Win{ 0, t.n - (int64_t)num.size() < 0 ? 0 : t.n - (int64_t)num.size() }); if(at + (int64_t)num.size() > t.n || !t.isl.empty()) { skip = true; break; }
				if(at < len) at = len; if(at + (int64_t)num.size() > t.n) { skip = true; break; }
				int64_t tail = s.flip() && !zero && t.fill != 'a' ? t.n - at - (int64_t)num.size() : 0; Win q = { at - len, len + (int64_t)num.size() + tail };
				memcpy(t.p + at, num.data(), num.size()); t.isl[at] = num;
				std::string small = std::string(len ? 1 : 0, t.fill) + num + (tail ? std::string(1, t.fill) : ""); Mem m(small);
				int type = (int)s.below(vn_has_float() ? (uint64_t)N_TYPES : (uint64_t)N_F), opt = s.one_in(6) ? vn_opt(1 + (int)s.below(6)) : 0;
				TR("number of type %d from [%lld,+%lld) = run of %lld, %s", type, (long long)q.o, (long long)q.n, (long long)len, show(num).c_str());
				long double c1 = 0, c2 = 0; char d1[16], d2[16]; memset(d1, 0x55, 16); memset(d2, 0x55, 16); (void)c1; (void)c2;
				SV big = sv(t, q), ref = { m.p, (int)small.size() }; int e1 = vn_consume(type, d1, &big, opt), e2 = vn_consume(type, d2, &ref, opt);
				CHECK(e1 == e2, "error %d after a run of %lld, %d after a run of %d", e1, (long long)len, e2, len ? 1 : 0);
				if(type < N_F) CHECK(!memcmp(d1, d2, 16), "the value depends on the length of the run");
				else { long double a = 0, b = 0; if(!e1) { if(type == N_F) { float y; memcpy(&y, d1, sizeof y); a = y; memcpy(&y, d2, sizeof y); b = y; } else if(type == N_D) { double y; memcpy(&y, d1, sizeof y); a = y; memcpy(&y, d2, sizeof y); b = y; } else { memcpy(&a, d1, sizeof a); memcpy(&b, d2, sizeof b); } } CHECK(fabsl(a - b) <= fabsl(b) * (type == N_F ? 1e-6L : 1e-14L), "value %Lg after a run of %lld, %Lg after a short run", a, (long long)len, b); }
				if(e1) { CHECK(big.data == t.p + q.o && big.size == q.n, "source changed on failure"); }
				else { int64_t used = ref.data - m.p; if(ref.size == 0) used = (int64_t)small.size(); expect_tail(t, big, Win{ q.o + used + (len ? len - 1 : 0), q.n - used - (len ? len - 1 : 0) }, "rest after the number"); }
			}
		}
		if(budget == ROOM && !skip) budget = 1 << 14; // once
		if(skip) LABEL("skipped: scan too long"); else { if(t.n > 65536) decided = true; if(w.n > INT_MAX - 10) LABEL("within 10 of the limit"); }
	}
	for(auto& e : t.isl) CHECK(!memcmp(t.p + e.first, e.second.data(), e.second.size()), "source bytes modified");
	for(int64_t o : { (int64_t)0, t.n - 1, t.n / 2 }) if(o >= 0 && o < t.n) CHECK(t.p[o] == t.at(o), "source byte %lld modified", (long long)o);
	for(auto& e : t.isl) { char* a = (char*)((uintptr_t)(t.p + e.first) & ~(uintptr_t)4095); madvise(a, (size_t)(t.p + e.first + e.second.size() - a), MADV_DONTNEED); }
	if(decided) nontrivial();
}
