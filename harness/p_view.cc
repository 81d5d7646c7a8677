// View properties C11-C20.
#include "bufworld.h"

// a view over its own exact memory, or a slice of a larger block
struct V {
	std::unique_ptr<Mem> mem; std::string all, val; size_t off = 0; SV v = { nullptr, 0 }; bool valid = false;
	void unchanged(const char* what) const { if(mem) { CHECK(!memcmp(mem->p, all.data(), all.size()), "%s modified the source bytes", what); mem->verify(); } }
	std::string desc() const { return valid ? show(val) : "invalid"; }
};
static void set_view(V& o, const std::string& t) {
	o.all = o.val = t; o.mem = std::make_unique<Mem>(t); o.v = { o.mem->p, (int)t.size() }; o.valid = true; o.off = 0;
}
static std::string strip_nul(std::string t) { for(char& c : t) if(!c) c = '~'; return t; }
static int gen_len(Src& s, int max = 60) { int k = (int)s.below(200); return k == 199 ? s.edge_len() : k >= 195 ? (int)s.below(3000) : s.small_len(max); }
static void gen_view(Src& s, V& o, const std::string& t, bool slices = true) {
	if(slices && s.one_in(4)) { // a slice: neighbours belong to someone else
		std::string pre = gen_bytes(s, (int)s.below(s.one_in(3) ? 18 : 6)), post = gen_bytes(s, (int)s.below(6));
		o.all = pre + t + post; o.mem = std::make_unique<Mem>(o.all); o.off = pre.size(); o.val = t; o.v = { o.mem->p + o.off, (int)t.size() }; o.valid = true;
	} else set_view(o, t);
}
static bool inside(SV r, SV src) { return r.data && src.data && r.size >= 0 && r.data >= src.data && r.data + r.size <= src.data + src.size; }
static std::string str(SV v) { return std::string(v.data ? v.data : "", v.data ? (size_t)v.size : 0); }
// result must be valid, inside src, at the given offset with the given text
static void expect_at(SV r, const V& src, size_t off, size_t len, const char* what) {
	CHECK(r.data, "%s: invalid result, expected [%zu,%zu) of %s", what, off, off + len, src.desc().c_str());
	CHECK(r.data == src.v.data + off && (size_t)r.size == len, "%s: result [%ld,+%d), expected [%zu,+%zu) of %s", what, (long)(r.data - src.v.data), r.size, off, len, src.desc().c_str());
}
static void expect_invalid(SV r, const char* what) { CHECK(!r.data, "%s: expected an invalid view, got %d bytes", what, r.size); }
static bool isset(const std::string& set, char c) { return set.find(c) != std::string::npos; }
static unsigned char up(unsigned char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static std::string upper(std::string t) { for(char& c : t) c = (char)up((unsigned char)c); return t; }
static std::string flip_case(Src& s, std::string t) { for(char& c : t) if(((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) && s.flip()) c ^= 0x20; return t; }
static std::string gen_cmp_text(Src& s, int len) {
	switch(s.below(4)) {
		case 0: return gen_text(s, len, "aAbB");
		case 1: return gen_text(s, len, "aAzZ@[`{kK\x7f\xe1\xc1\x01\x21");
		default: return gen_bytes(s, len);
	}
}

// ------------------------------------------------------------------ C12 comparisons
static void derive(Src& s, const V& a, V& b) {
	int k = (int)s.below(10); std::string t = a.val;
	if(k == 9 || !a.valid) { if(s.one_in(4)) { b.valid = false; b.v = { nullptr, 0 }; return; } gen_view(s, b, gen_cmp_text(s, gen_len(s))); return; }
	switch(k) {
		case 0: break;
		case 1: if(!t.empty()) t.resize(s.below(t.size())); break;
		case 2: t += gen_cmp_text(s, 1 + (int)s.below(4)); break;
		case 3: t = flip_case(s, t); break;
		case 4: if(!t.empty()) t[s.below(t.size())] = gen_cmp_text(s, 1)[0]; break;
		case 5: if(!t.empty()) t[s.below(t.size())] ^= 0x20; break;
		case 6: t = flip_case(s, t); if(!t.empty()) t.resize(s.below(t.size() + 1)); break;
		case 7: t = gen_cmp_text(s, (int)t.size()); break;
		case 8: { // same memory
			if(!a.all.empty() && s.flip()) { // any other part of the text around it
				size_t x = s.below(a.all.size() + 1), y = x + s.below(a.all.size() - x + 1); if(s.flip()) { if(s.flip()) y = a.off + t.size() > x ? a.off + t.size() : y; else if(a.off <= y) x = a.off; }
				b.val = a.all.substr(x, y - x); b.valid = true; b.v = { a.mem->p + x, (int)(y - x) }; return;
			}
			b.val = t; b.valid = true; b.v = a.v; if(!t.empty() && s.flip()) { size_t n = s.below(t.size() + 1); b.val.resize(n); b.v.size = (int)n; }
			return;
		}
	}
	gen_view(s, b, t);
}
static int sgn(int x) { return (x > 0) - (x < 0); }
static int ref_cmp(const std::string& a, const std::string& b) {
	size_t n = a.size() < b.size() ? a.size() : b.size();
	for(size_t i = 0; i < n; i++) if(a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
	return a.size() < b.size() ? -1 : a.size() > b.size();
}
static void check_pair(Src& s, const V& a, const V& b) {
	bool m = a.valid == b.valid && a.val == b.val, mi = a.valid == b.valid && upper(a.val) == upper(b.val);
	CHECK(vs_match(a.v, b.v) == m, "is_match(%s, %s) is %d", a.desc().c_str(), b.desc().c_str(), !m);
	CHECK(vs_match_nc(a.v, b.v) == mi, "is_match_nocase(%s, %s) is %d", a.desc().c_str(), b.desc().c_str(), !mi);
	if(b.valid ? a.valid : true) {
		bool p = b.valid ? a.val.size() >= b.val.size() && a.val.compare(0, b.val.size(), b.val) == 0 : !a.valid;
		bool pi = b.valid ? a.val.size() >= b.val.size() && upper(a.val).compare(0, b.val.size(), upper(b.val)) == 0 : !a.valid;
		CHECK(vs_starts(a.v, b.v) == p, "starts_with(%s, %s) is %d", a.desc().c_str(), b.desc().c_str(), !p);
		CHECK(vs_starts_nc(a.v, b.v) == pi, "starts_with_nocase(%s, %s) is %d", a.desc().c_str(), b.desc().c_str(), !pi);
	}
	int c = ref_cmp(a.val, b.val);
	CHECK(sgn(vs_compare(a.v, b.v)) == c, "compare(%s, %s) is %d, expected sign %d", a.desc().c_str(), b.desc().c_str(), vs_compare(a.v, b.v), c);
	CHECK(sgn(vs_compare(b.v, a.v)) == -c, "compare(%s, %s) is %d, expected sign %d", b.desc().c_str(), a.desc().c_str(), vs_compare(b.v, a.v), -c);
	// C string second operand gives the answer for the view of that string
	if(b.val.find('\0') == std::string::npos && b.valid) {
		Mem z(cstr_mem(b.val)); int nc = s.flip();
		CHECK(vs_match_s(a.v, z.p, nc) == m && vs_match_nc_s(a.v, z.p, nc) == mi, "is_match with a C string differs from the view form: %s, %s", a.desc().c_str(), b.desc().c_str());
		CHECK(vs_starts_s(a.v, z.p, nc) == vs_starts(a.v, b.v) && vs_starts_nc_s(a.v, z.p, nc) == vs_starts_nc(a.v, b.v), "starts_with with a C string differs from the view form: %s, %s", a.desc().c_str(), b.desc().c_str());
	} else if(!b.valid) {
		int nc = s.flip();
		CHECK(vs_match_s(a.v, nullptr, nc) == m && vs_match_nc_s(a.v, nullptr, nc) == mi, "is_match with a NULL C string: %s", a.desc().c_str());
		CHECK(vs_starts_s(a.v, nullptr, nc) == !a.valid && vs_starts_nc_s(a.v, nullptr, nc) == !a.valid, "starts_with a NULL C string: %s", a.desc().c_str());
	}
	a.unchanged("comparison"); b.unchanged("comparison");
}
PROPERTY(C12, "two operands related (equal, prefix, case-flipped, one byte apart, shared memory) or both non-empty") {
	V a, b, c;
	if(!s.one_in(24)) gen_view(s, a, gen_cmp_text(s, gen_len(s)));
	derive(s, a, b);
	TR("a = %s, b = %s", a.desc().c_str(), b.desc().c_str());
	check_pair(s, a, b); check_pair(s, b, a);
	if(s.one_in(3)) { // order is total over three
		derive(s, b, c); TR("c = %s", c.desc().c_str()); check_pair(s, b, c); check_pair(s, a, c);
		int ab = sgn(vs_compare(a.v, b.v)), bc = sgn(vs_compare(b.v, c.v)), ac = sgn(vs_compare(a.v, c.v));
		CHECK(!(ab <= 0 && bc <= 0 && ac > 0) && !(ab >= 0 && bc >= 0 && ac < 0), "compare is not transitive on %s, %s, %s", a.desc().c_str(), b.desc().c_str(), c.desc().c_str());
		LABEL("triples");
	}
	if(a.val.size() && b.val.size()) nontrivial();
	if(a.val == b.val && a.val.size()) LABEL("equal"); else if(upper(a.val) == upper(b.val) && a.val.size()) LABEL("equal but for case");
	if(!a.valid || !b.valid) LABEL("invalid operand");
}

// ------------------------------------------------------------------ C13 search
PROPERTY(C13, "non-empty needle and haystack at least as long as the needle") {
	V h, n; std::string ht = s.flip() ? gen_text(s, gen_len(s), "ab") : gen_cmp_text(s, gen_len(s)), nt;
	bool hi = s.one_in(24), ni = s.one_in(24);
	switch(s.below(6)) {
		case 0: nt = gen_cmp_text(s, s.small_len(4)); break;
		case 1: nt = gen_text(s, (int)s.below(4), "ab"); break;
		default: { // a piece of the haystack, possibly altered
			size_t o = s.below(ht.size() + 1), l = s.below(ht.size() - o + 1); if(l > 5 && (s.flip() || (ht.size() > 3000 && l + 8 < ht.size()))) l = 1 + s.below(ht.size() > 3000 ? 12 : 4);
			nt = ht.substr(o, l); int k = (int)s.below(5);
			if(k == 1) nt = flip_case(s, nt); else if(k == 2 && !nt.empty()) nt[s.below(nt.size())] ^= 0x20; else if(k == 3 && !nt.empty()) nt.back() = gen_cmp_text(s, 1)[0]; else if(k == 4) nt += gen_cmp_text(s, 1);
		}
	}
	if(s.one_in(400)) { // a long needle in a haystack that is not much longer
		int l = s.edge_len(); nt = s.flip() ? gen_text(s, l, "ab") : s.flip() ? std::string((size_t)l, 'a') : gen_cmp_text(s, l);
		ht = gen_text(s, s.small_len(40), "ab") + (s.flip() ? nt : flip_case(s, nt)) + gen_text(s, s.small_len(40), "ab"); LABEL("long needle");
		if(s.one_in(3) && l) nt[s.below((uint64_t)l)] ^= 1;
	}
	if(!hi) gen_view(s, h, ht);
	if(!ni) gen_view(s, n, nt);
	if(!hi && !ni && s.one_in(6)) { size_t o = s.below(ht.size() + 1), l = s.below(ht.size() - o + 1); if(ht.size() > 3000 && l > 12 && l + 12 < ht.size()) l = 12; n.mem.reset(); n.val = ht.substr(o, l); n.v = { h.v.data + o, (int)l }; n.all.clear(); if(s.one_in(3) && h.all.size() <= 3000) { size_t x = s.below(h.all.size() + 1), y = x + s.below(h.all.size() - x + 1); n.val = h.all.substr(x, y - x); n.v = { h.mem->p + x, (int)(y - x) }; } }
	TR("haystack %s, needle %s", h.desc().c_str(), n.desc().c_str());
	for(int nocase = 0; nocase < 2; nocase++) {
		std::string H = nocase ? upper(h.val) : h.val, N = nocase ? upper(n.val) : n.val;
		for(int last = 0; last < 2; last++) {
			size_t p = h.valid && n.valid ? (last ? H.rfind(N) : H.find(N)) : std::string::npos;
			const char* what = last ? (nocase ? "find_last_nocase" : "find_last") : nocase ? "find_first_nocase" : "find_first";
			SV r = vs_find(last, nocase, h.v, n.v);
			if(p == std::string::npos) expect_invalid(r, what); else expect_at(r, h, p, N.size(), what);
			if(!n.valid || n.val.find('\0') == std::string::npos) {
				Mem z; if(n.valid) { z.make(n.val.size() + 1, 0); memcpy(z.p, n.val.c_str(), n.val.size() + 1); }
				SV r2 = vs_find_s(last, nocase, h.v, n.valid ? z.p : nullptr, s.flip());
				CHECK(r2.data == r.data && r2.size == r.size, "%s with a C string needle differs from the view form", what);
			}
		}
		bool has = h.valid && n.valid && H.find(N) != std::string::npos;
		CHECK((nocase ? vs_contains_nc(h.v, n.v) : vs_contains(h.v, n.v)) == has, "contains%s(%s, %s) is %d", nocase ? "_nocase" : "", h.desc().c_str(), n.desc().c_str(), !has);
		if(has && n.val.size()) { if(nocase) LABEL("found nocase"); else LABEL("found"); if(H.find(N) != H.rfind(N)) LABEL("several occurrences"); }
	}
	h.unchanged("search"); n.unchanged("search");
	if(n.val.size() && h.val.size() >= n.val.size()) nontrivial();
}

// ------------------------------------------------------------------ C14 trim
static std::string gen_set(Src& s, const std::string& t) {
	std::string r; int k = (int)s.below(6);
	if(k == 0) return " ";
	if(k == 1) return gen_bytes(s, s.one_in(30) && t.size() < 3000 ? (t.size() < 300 && s.flip() ? s.edge_len() : (int)s.below(s.one_in(4) ? 3000 : 400)) : s.small_len(6));
	int m = 1 + (int)s.below(4);
	for(int i = 0; i < m; i++) { if(t.empty()) r += ' '; else switch(s.below(4)) { case 0: r += t[s.below(t.size())]; break; case 1: r += t[0]; break; case 2: r += t.back(); break; default: r += gen_bytes(s, 1); } }
	return r;
}
PROPERTY(C14, "a non-empty text with a non-empty set of which at least one end character is a member, or all are") {
	V v, c; std::string t = s.one_in(24) ? "" : gen_bytes(s, gen_len(s)), set = gen_set(s, t);
	if(s.one_in(4) && !set.empty()) { int a = (int)s.below(5), b = (int)s.below(5); std::string p; while(a--) p += set[s.below(set.size())]; while(b--) t += set[s.below(set.size())]; t = p + t; }
	if(s.one_in(300) && !set.empty()) { int l = s.edge_len(); std::string run; for(int i = 0; i < l; i++) run += set[(size_t)i % (set.size() > 8 ? 8 : set.size())]; if(s.flip()) t = run + t; if(s.flip()) t += run; LABEL("long run"); }
	bool vi = s.one_in(24), ci = s.one_in(24);
	if(!vi) gen_view(s, v, t); if(!ci) gen_view(s, c, set);
	if(vi) t.clear(); if(ci) set.clear();
	if(!vi && !ci && s.one_in(8)) { size_t o = s.below(t.size() + 1), l = s.below(t.size() - o + 1); if(t.size() > 3000 && l > 20) l = 20; c.mem.reset(); // bounded work for a set that is scanned in full
		 c.all.clear(); set = c.val = t.substr(o, l); c.v = { v.v.data + o, (int)l }; if(s.one_in(3) && v.all.size() <= 3000) { size_t x = s.below(v.all.size() + 1), y = x + s.below(v.all.size() - x + 1); set = c.val = v.all.substr(x, y - x); c.v = { v.mem->p + x, (int)(y - x) }; } }
	TR("text %s, set %s", v.desc().c_str(), c.desc().c_str());
	size_t a = 0, b = t.size();
	while(a < b && isset(set, t[a])) a++;
	size_t a2 = 0, b2 = t.size(); while(b2 > a2 && isset(set, t[b2 - 1])) b2--;
	while(b > a && isset(set, t[b - 1])) b--;
	static const char* const NM[] = { "trim", "trim_start", "trim_end" };
	SV rs[3];
	for(int w = 0; w < 3; w++) {
		SV r = vs_trim(w, v.v, c.v); rs[w] = r;
		size_t lo = w == 2 ? 0 : a, hi = w == 0 ? b : w == 1 ? t.size() : b2;
		CHECK((r.data != nullptr) == v.valid, "%s: validity changed", NM[w]);
		CHECK(str(r) == t.substr(lo, hi - lo), "%s(%s, %s) is %s", NM[w], v.desc().c_str(), c.desc().c_str(), show(str(r)).c_str());
		if(v.valid) { CHECK(inside(r, v.v), "%s: result outside the source", NM[w]); if(r.size) CHECK(r.data == v.v.data + lo, "%s: result at the wrong place", NM[w]); }
		SV again = vs_trim(w, r, c.v);
		CHECK(again.data == r.data && again.size == r.size, "%s is not idempotent", NM[w]);
		if(!c.valid || set.find('\0') == std::string::npos) {
			Mem z; if(c.valid) { z.make(set.size() + 1, 0); memcpy(z.p, set.c_str(), set.size() + 1); }
			SV r2 = vs_trim_s(w, v.v, c.valid ? z.p : nullptr, s.flip());
			CHECK(r2.data == r.data && r2.size == r.size, "%s with a C string set differs from the view form", NM[w]);
		}
	}
	SV se = vs_trim(2, rs[1], c.v), es = vs_trim(1, rs[2], c.v);
	CHECK(str(se) == str(rs[0]) && str(es) == str(rs[0]), "trim differs from trimming one end then the other");
	v.unchanged("trim"); c.unchanged("trim");
	if(t.size() && (a > 0 || b2 < t.size())) nontrivial();
	if(t.size() && a == t.size()) LABEL("everything trimmed"); if(a && b < t.size()) LABEL("both ends");
}

// ------------------------------------------------------------------ C15 slices
PROPERTY(C15, "a non-empty source with an index that is negative, clipped or interior") {
	V v; bool vi = s.one_in(24); std::string t = gen_bytes(s, gen_len(s, 30));
	if(!vi) gen_view(s, v, t); else t.clear();
	int64_t n = (int64_t)t.size(); bool nt = false; int rounds = 1 + (int)s.below(3);
	for(int k = 0; k < rounds; k++) {
		int b = s.one_in(3) ? s.any_int((int)n) : s.range(-(int)n - 2, (int)n + 2), e = s.one_in(3) ? s.any_int((int)n) : s.range(-(int)n - 2, (int)n + 2);
		TR("sub(%s, %d, %d)", v.desc().c_str(), b, e);
		SV r = vs_sub(v.v, b, e);
		if(n == 0) CHECK(r.data == v.v.data && r.size == 0, "sub of an empty or invalid source");
		else {
			int64_t B = b < 0 ? b + n : b, E = e < 0 ? e + n : e;
			if(B > E || B >= n || E < 0) { expect_invalid(r, "sub"); LABEL("sub outside or reversed"); }
			else { int64_t b0 = B < 0 ? 0 : B, e0 = E > n ? n : E; expect_at(r, v, (size_t)b0, (size_t)(e0 - b0), "sub"); if(b < 0 || e < 0 || B != b0 || E != e0 || e0 - b0 < n) nt = true; if(B != b0 || E != e0) LABEL("sub clipped"); }
		}
		int i = s.one_in(3) ? s.any_int((int)n) : s.range(-(int)n - 2, (int)n + 2);
		TR("split_index(%s, %d)", v.desc().c_str(), i);
		SV w = v.v; r = vs_split_index(&w, i);
		if(!v.valid) { expect_invalid(r, "split_index of an invalid view"); CHECK(!w.data && w.size == 0, "split_index validated an invalid source"); }
		else {
			int64_t cnt = i < 0 ? -(int64_t)i : i; if(cnt > n) cnt = n; size_t ct = (size_t)cnt;
			if(i >= 0) { expect_at(r, v, 0, ct, "split_index result"); expect_at(w, v, ct, (size_t)n - ct, "split_index remainder"); }
			else { expect_at(w, v, 0, (size_t)n - ct, "split_index remainder"); expect_at(r, v, (size_t)n - ct, ct, "split_index result"); }
			if(n && (i < 0 || cnt < i || cnt < n)) nt = true;
			if(i < 0) LABEL("split from the end");
		}
	}
	SV w = v.v; int pops = s.small_len((int)n + 2);
	for(int k = 0; k < pops; k++) {
		char c = vs_pop(&w);
		if(k < n) { CHECK(c == t[(size_t)k], "pop returned 0x%02X", (unsigned char)c); expect_at(w, v, (size_t)k + 1, (size_t)(n - k - 1), "pop remainder"); nt = true; }
		else CHECK(c == 0 && w.size == 0 && (w.data != nullptr) == v.valid, "pop from an empty source");
	}
	if(s.one_in(16)) { CHECK(vs_pop(nullptr) == 0, "pop from no view"); expect_invalid(vs_split_index(nullptr, 1), "split_index of no view"); }
	v.unchanged("slicing");
	if(nt) nontrivial();
}

// ------------------------------------------------------------------ C16 delimiters
static const size_t NPOS = std::string::npos;
static size_t ref_first(const std::string& t, size_t from, const std::string& d, bool q) {
	bool in = false;
	for(size_t i = from; i < t.size(); i++) { if(q && t[i] == '"') in = !in; if(!in && isset(d, t[i])) return i; }
	return NPOS;
}
static size_t ref_last(const std::string& t, const std::string& d, bool q) {
	bool in = false;
	for(size_t i = t.size(); i-- > 0; ) { if(q && t[i] == '"') in = !in; if(!in && isset(d, t[i])) return i; }
	return NPOS;
}
static void check_first(Src& s, const V& v, const std::string& t, size_t from, SV before, SV r, SV after, const std::string& d, bool q) {
	(void)s; size_t p = ref_first(t, from, d, q);
	if(p == NPOS) {
		CHECK(r.data == before.data && r.size == before.size, "split_first without a delimiter must return the whole source");
		CHECK(!after.data && after.size == 0, "split_first without a delimiter must leave an invalid source");
	} else {
		expect_at(r, v, from, p - from, "split_first result");
		CHECK(after.data, "split_first: remainder invalid although a delimiter was found");
		CHECK(after.size == (int)(t.size() - p - 1), "split_first: remainder has %d bytes, expected %zu", after.size, t.size() - p - 1);
		if(after.size) expect_at(after, v, p + 1, t.size() - p - 1, "split_first remainder");
		else CHECK(inside(after, v.v), "split_first: empty remainder outside the source");
	}
}
PROPERTY(C16, "a text with at least one delimiter character from the set") {
	V v; std::string t, d; bool q = s.flip();
	static const char* const TA[] = { "ab,", "a,;\"", "a, b;\"c", ",\"", "a,\"\"b\xe9" };
	if(s.one_in(4)) t = gen_bytes(s, gen_len(s)); else { int k = (int)s.below(5); t = gen_text(s, gen_len(s), TA[k]); }
	switch(s.below(5)) { case 0: d = ","; break; case 1: d = ",;"; break; case 2: d = ""; break; case 3: d = strip_nul(gen_set(s, t)); break; default: d = ";, \xe9"; }
	if(q) { std::string e; for(char c : d) if(c != '"') e += c; d = e; }
	bool vi = s.one_in(24), nd = s.one_in(24);
	if(!vi) gen_view(s, v, t); else t.clear();
	if(nd) d.clear();
	Mem z(cstr_mem(d)); const char* dp = nd ? nullptr : z.p; int quotes = 0; for(char c : t) quotes += c == '"';
	TR("text %s, delimiters %s, exclude quotes %d", v.desc().c_str(), dp ? show(d).c_str() : "NULL", q);
	// repeated splitting from the left: fields and delimiters give back the text
	SV w = v.v; size_t from = 0; int fields = 0; std::vector<SV> got; std::string joined;
	for(;;) {
		SV before = w, r = vs_split_first(&w, dp, q); got.push_back(r);
		check_first(s, v, t, from, before, r, w, d, q);
		if(r.data) joined += str(r);
		if(!w.data) break;
		size_t p = ref_first(t, from, d, q); joined += t[p]; from = p + 1; fields++;
		CHECK(fields <= (int)t.size() + 2, "splitting does not terminate");
	}
	if(v.valid) CHECK(joined == t, "fields and delimiters do not rebuild the text");
	// all at once
	int slots = (int)s.below(64); if(s.one_in(4)) slots = fields + (int)s.below(3) - (fields ? (int)s.below(2) : 0);
	int room = slots + 1 + (int)s.below(3); Mem dm((size_t)room * sizeof(SV)); SV* dst = (SV*)dm.p; for(int i = 0; i < room; i++) dst[i] = SV{ (const char*)dst, -77 };
	int cnt = vs_split_all(slots, room - slots, dst, v.v, dp, q);
	int want = v.valid ? (int)got.size() < slots ? (int)got.size() : slots : 0;
	CHECK(cnt == want, "split_all with %d slots reports %d fields, expected %d", slots, cnt, want);
	for(int i = 0; i < room; i++) {
		if(i < cnt) CHECK(dst[i].data == got[(size_t)i].data && dst[i].size == got[(size_t)i].size, "split_all field %d differs from repeated splitting", i);
		else CHECK(dst[i].data == (const char*)dst && dst[i].size == -77, "split_all wrote slot %d although it reported %d fields in %d slots", i, cnt, slots);
	}
	// last delimiter, repeatedly
	w = v.v; std::string rest = t; int guard = 0, rq = quotes;
	for(;;) {
		SV before = w, r = vs_split_last(&w, dp, q);
		bool pinned = !q || rq % 2 == 0; size_t p = ref_last(rest, d, q);
		if(!w.data) {
			CHECK(w.size == 0, "invalid source with a size");
			CHECK(r.data == before.data && r.size == before.size, "split_last without a delimiter must return the whole source");
			if(pinned) CHECK(p == NPOS || !v.valid, "split_last did not find the delimiter at %zu of %s", p, show(rest).c_str());
			break;
		}
		CHECK(v.valid && r.data, "split_last of an invalid source");
		CHECK(inside(w, v.v) && w.data == v.v.data && inside(r, v.v), "split_last: parts outside the source");
		size_t at = (size_t)w.size; CHECK(at + 1 + (size_t)r.size == rest.size() && isset(d, rest[at]), "split_last: parts and delimiter do not rebuild the text");
		if(r.size) CHECK(r.data == v.v.data + at + 1, "split_last: result at the wrong place");
		if(pinned) CHECK(p == at, "split_last split at %zu, expected %zu", at, p);
		for(size_t i = at; i < rest.size(); i++) rq -= rest[i] == '"';
		rest.resize(at);
		CHECK(++guard <= (int)t.size() + 2, "splitting does not terminate");
	}
	if(s.one_in(16)) { expect_invalid(vs_split_first(nullptr, dp, q), "split_first of no view"); expect_invalid(vs_split_last(nullptr, dp, q), "split_last of no view"); }
	v.unchanged("splitting");
	bool any = false; for(char c : t) any |= isset(d, c);
	if(any) nontrivial(); if(q && quotes > 1 && any) LABEL("quoted"); if(fields > 3) LABEL("over 3 delimiters"); if(cnt && cnt < (int)got.size()) LABEL("slots exhausted");
}

// ------------------------------------------------------------------ C17 split left/right
PROPERTY(C17, "a non-empty source with a position inside it, or a position outside it") {
	std::string all = gen_bytes(s, gen_len(s, 30)); Mem m(all); std::string other("somewhere else"); Mem m2(other);
	int n = (int)all.size(), a = 0, b = n;
	if(s.flip()) { a = (int)s.below((uint64_t)n + 1); b = a + (int)s.below((uint64_t)(n - a) + 1); }
	V v; v.val = all.substr((size_t)a, (size_t)(b - a)); v.v = { m.p + a, b - a }; v.valid = true;
	bool vi = s.one_in(24); if(vi) { v.v = { nullptr, 0 }; v.valid = false; v.val.clear(); }
	SV pos; int pa = 0, pe = 0, where = 0; // 0 inside 1 outside 2 invalid
	switch(s.below(8)) {
		case 0: pos = { nullptr, 0 }; where = 2; break;
		case 1: { int o = (int)s.below(12); pos = { m2.p + o, (int)s.below((uint64_t)(14 - o)) + 0 }; where = 1; } break;
		case 2: // in the same block but strictly before or after the source
			if(a >= 1 && (n == b || s.flip())) { int o = (int)s.below((uint64_t)a); pos = { m.p + o, (int)s.below((uint64_t)(a - 1 - o) + 1) }; where = 1; break; }
			if(n - b >= 1) { int o = b + 1 + (int)s.below((uint64_t)(n - b)); pos = { m.p + o, (int)s.below((uint64_t)(n - o) + 1) }; where = 1; break; }
			// fall through
		default: pa = (int)s.below((uint64_t)(b - a) + 1); pe = pa + (int)s.below((uint64_t)(b - a - pa) + 1); pos = { m.p + a + pa, pe - pa };
			if(s.one_in(4)) { pa = 0; pe = b - a; pos = { m.p + a, b - a }; }
	}
	bool left = s.flip();
	TR("split_%s(%s, position %s)", left ? "left" : "right", v.desc().c_str(), where == 2 ? "invalid" : where ? "outside" : fmtstr("[%d,%d)", pa, pe).c_str());
	SV w = v.v, r = left ? vs_split_left(&w, pos) : vs_split_right(&w, pos);
	size_t size = v.val.size();
	if(!v.valid || where) {
		expect_invalid(r, left ? "split_left" : "split_right");
		CHECK(w.data == v.v.data && w.size == v.v.size, "source modified although the position is not in it");
	} else if(left) { expect_at(r, v, 0, (size_t)pa, "split_left result"); expect_at(w, v, (size_t)pa, size - (size_t)pa, "split_left remainder"); }
	else { expect_at(r, v, (size_t)pe, size - (size_t)pe, "split_right result"); expect_at(w, v, 0, (size_t)pe, "split_right remainder"); }
	expect_invalid(left ? vs_split_left(nullptr, pos) : vs_split_right(nullptr, pos), "split of no view");
	CHECK(!memcmp(m.p, all.data(), all.size()), "source bytes modified");
	if((v.valid && size && !where) || where == 1) nontrivial();
	if(where == 1) LABEL("outside"); else if(!where && pa > 0 && pe < (int)size) LABEL("interior position");
}

// ------------------------------------------------------------------ C18 lines
static std::vector<std::string> ref_lines(const std::string& t, std::string* rest) {
	std::vector<std::string> r; std::string cur;
	for(size_t i = 0; i < t.size(); i++) {
		if(t[i] == '\r' || t[i] == '\n') { r.push_back(cur); cur.clear(); if(i + 1 < t.size() && (t[i + 1] == '\r' || t[i + 1] == '\n') && t[i + 1] != t[i]) i++; }
		else cur += t[i];
	}
	*rest = cur; return r;
}
static std::string gen_lines(Src& s) {
	std::string t; int n = s.small_len(20), big = s.one_in(100) ? (int)s.below(20) : -1;
	for(int i = 0; i < n; i++) {
		switch(s.below(8)) { case 0: t += "\r\n"; break; case 1: t += "\n\r"; break; case 2: t += "\n"; break; case 3: t += "\r"; break; case 4: t += gen_bytes(s, i == big ? s.edge_len() : s.small_len(30)); break; case 5: t += "\r\n"; break; default: t += gen_text(s, s.small_len(6), "ab c"); }
		if(i == big && s.flip()) t += gen_bytes(s, s.edge_len());
	}
	return t;
}
PROPERTY(C18, "a text with at least two line endings") {
	std::string t = gen_lines(s), rest; std::vector<std::string> want = ref_lines(t, &rest);
	int how = (int)s.below(4); if(how == 3 && t.size() > 300) how = 2;
	TR("text %s, %s", show(t).c_str(), how == 0 ? "all at once, no state" : how == 1 ? "all at once, with state" : how == 2 ? "in pieces" : "one character at a time");
	std::vector<std::string> got; std::string left; char eol = 0;
	if(how < 2) {
		Mem m(t); SV w = { m.p, (int)t.size() }; char* ep = how ? &eol : nullptr;
		for(;;) {
			SV before = w, r = vs_line(&w, ep);
			if(!r.data) { CHECK(w.data == before.data && w.size == before.size, "source modified although no line was found"); break; }
			CHECK(inside(r, before), "line outside the source"); CHECK(w.data && w.data + w.size == before.data + before.size || w.size == 0, "remainder outside the source"); CHECK(inside(w, before), "remainder outside the source");
			got.push_back(str(r)); CHECK(got.size() <= t.size() + 1, "line splitting does not terminate");
		}
		left = str(w); CHECK(!memcmp(m.p, t.data(), t.size()), "source bytes modified");
	} else { // collected in a buffer, as documented: process complete lines, keep the rest
		Ctl c; c.mode = (int)s.below(4); register_ctl(&c); SB* b = vb_create_empty(s.below(20), &c, 0); size_t i = 0;
		while(i < t.size()) {
			size_t k = how == 3 ? 1 : t.size() > 300 ? t.size() / 32 + s.below(t.size() / 8) : 1 + s.below(s.flip() ? 3 : 20); if(k > t.size() - i) k = t.size() - i;
			Mem m(t.substr(i, k)); vb_append(&b, SV{ m.p, (int)k }); i += k;
			SV w = vb_view(&b);
			bool any = false;
			for(;;) { SV before = w, r = vs_line(&w, &eol); if(!r.data) { CHECK(w.data == before.data && w.size == before.size, "source modified although no line was found"); break; } any = true; got.push_back(str(r)); CHECK(got.size() <= t.size() + 1, "line splitting does not terminate"); }
			if(any || s.flip()) vb_assign(&b, w); // removing only complete lines, or storing the unfinished rest back, is the same
		}
		SV w = vb_view(&b); left = str(w); vb_destroy(&b);
		// the second half of a line ending whose first half was already processed may still be waiting in the source
		if(eol && left.size() && left[0] != eol && (left[0] == '\r' || left[0] == '\n')) left.erase(0, 1);
	}
	CHECK(got.size() == want.size(), "%zu lines, expected %zu", got.size(), want.size());
	for(size_t i = 0; i < got.size(); i++) CHECK(got[i] == want[i], "line %zu is %s, expected %s", i, show(got[i]).c_str(), show(want[i]).c_str());
	CHECK(left == rest, "unfinished line is %s, expected %s", show(left).c_str(), show(rest).c_str());
	if(s.one_in(16)) { char e = 0; expect_invalid(vs_line(nullptr, &e), "split_line of no view"); SV x = { nullptr, 0 }; expect_invalid(vs_line(&x, &e), "split_line of an invalid view"); }
	if(want.size() >= 2) nontrivial();
	if(how >= 2) LABEL("in pieces"); else LABEL("at once"); if(!rest.empty()) LABEL("unfinished line");
}

// ------------------------------------------------------------------ C19 dequote
PROPERTY(C19, "a text of at least two characters with a quote character at one of its ends") {
	std::string t; int k = (int)s.below(6);
	if(k < 4) {
		t = gen_text(s, s.small_len(12), k == 0 ? "\"'" : k == 1 ? "\"'a " : "abc '\"");
		int layers = s.one_in(200) ? (int)s.below(600) : (int)s.below(5); char q = s.flip() ? '"' : '\'';
		for(int i = 0; i < layers; i++) { if(s.one_in(4)) q = s.flip() ? '"' : '\''; t = q + t; if(!s.one_in(8)) t += q; if(s.one_in(10)) t = ' ' + t; }
		if(s.one_in(3000)) { size_t l = (size_t)s.edge_len(); std::string run(l, q); t = run + t + run; if(s.one_in(3)) t += q; LABEL("thousands of layers"); }
	} else if(k == 4) { t = gen_bytes(s, gen_len(s, 30)); if(s.flip() && !t.empty()) t += t[0]; }
	else t = gen_text(s, s.small_len(6), "ab`(");
	V v; bool vi = s.one_in(24); if(!vi) gen_view(s, v, t); else t.clear();
	TR("dequote(%s)", v.desc().c_str());
	SV r = vs_dequote(v.v);
	CHECK((r.data != nullptr) == v.valid, "validity changed");
	size_t a = 0, b = t.size(); char q = t.empty() ? 0 : t[0];
	if(q == '"' || q == '\'') while(b - a > 1 && t[a] == q && t[b - 1] == q) { a++; b--; }
	if(v.valid) expect_at(r, v, a, b - a, "dequote");
	else CHECK(r.size == 0, "dequote of an invalid view");
	v.unchanged("dequote");
	if(t.size() >= 2 && (q == '"' || q == '\'' || t.back() == '"' || t.back() == '\'')) nontrivial();
	if(a == 1) LABEL("one layer"); else if(a > 1) LABEL("several layers"); else LABEL("unchanged");
}

// ------------------------------------------------------------------ C20 conversions
PROPERTY(C20, "a non-empty view, or a destination of size zero or missing") {
	V v; bool vi = s.one_in(24), nz = s.flip(); std::string t = gen_bytes(s, gen_len(s)); if(nz) t = strip_nul(t);
	if(!vi) gen_view(s, v, t); else t.clear();
	CHECK(vs_valid(v.v) == v.valid, "validity of %s reported wrong", v.desc().c_str());
	int k = (int)s.below(5);
	if(k == 0) { // C strings
		std::string c = strip_nul(t); Mem z(cstr_mem(c)); SV r = vs_cstr(z.p);
		TR("cstr(%s)", show(c).c_str());
		CHECK(r.data == z.p && (size_t)r.size == c.size(), "cstr gives %d characters of %zu", r.size, c.size());
		std::string em = c + std::string(1, 0) + "tail"; Mem z2(cstr_mem(em)); r = vs_cstr(z2.p); CHECK(r.data == z2.p && (size_t)r.size == c.size(), "cstr went past the terminator");
		r = vs_cstr(nullptr); CHECK(!r.data && r.size == 0, "cstr(NULL) is not invalid"); CHECK(!vs_valid(vs_invalid()) && vs_invalid().size == 0, "STRVIEW_INVALID");
		for(int i = 0; i < vs_SL_count(); i++) { const char* lit; int len; r = vs_cstr_SL(i, &lit, &len); CHECK(r.size == len && !memcmp(r.data, lit, (size_t)len), "cstr_SL of literal %d", i); }
		nontrivial(); LABEL("cstr");
	} else if(k < 3) { // to_cstr
		size_t n = s.flip() ? t.size() + s.below(5) - 2 : s.below(80); if((ptrdiff_t)n < 0) n = 0; bool null = s.one_in(12);
		size_t claim = n; if(s.one_in(10)) { claim = s.flip() ? ~(size_t)0 : (size_t)INT_MAX + 1 + s.below(3); n = t.size() + 1; }
		Mem m(n); std::string before(m.p, n);
		TR("to_cstr(%s of %zu bytes, %s)", null ? "NULL" : "destination", claim, v.desc().c_str());
		char* r = vs_to_cstr(null ? nullptr : m.p, null ? s.below(20) : claim, v.v);
		CHECK(r == (null ? nullptr : m.p), "to_cstr must return the destination");
		if(null) CHECK(!memcmp(before.data(), m.p, n), "wrote elsewhere");
		else if(n == 0) m.verify();
		else { size_t c = t.size() < claim - 1 ? t.size() : claim - 1; CHECK(!memcmp(m.p, t.data(), c), "to_cstr copied %s", show(m.p, c).c_str()); CHECK(m.p[c] == 0, "to_cstr did not terminate after %zu of %zu bytes", c, n); }
		m.verify();
		if(!t.empty() || null || !n) nontrivial(); LABEL("to_cstr"); if(n && claim <= t.size()) LABEL("to_cstr truncated");
	} else if(k == 3) { // printing through PRIstr
		V w; std::string u = strip_nul(gen_bytes(s, s.small_len(40))); gen_view(s, w, u); std::string p = strip_nul(t); V v2; if(v.valid) gen_view(s, v2, p); else { p.clear(); v2.v = v.v; }
		TR("print %s, %s", v2.desc().c_str(), w.desc().c_str());
		Mem m(p.size() + u.size() + 8);
		int r = vs_print(m.p, m.n, v2.v); std::string want = "<" + p + ">";
		CHECK(r == (int)want.size() && !strcmp(m.p, want.c_str()), "printed %s, expected %s", show(m.p, strlen(m.p)).c_str(), show(want).c_str());
		r = vs_print2(m.p, m.n, v2.v, w.v); want = p + "|42|" + u;
		CHECK(r == (int)want.size() && !strcmp(m.p, want.c_str()), "printed %s, expected %s", show(m.p, strlen(m.p)).c_str(), show(want).c_str());
		if(!p.empty()) nontrivial(); LABEL("print");
	} else {
		V w; if(!s.one_in(8)) gen_view(s, w, gen_bytes(s, s.one_in(4) ? gen_len(s) : s.small_len(20)));
		if(v.valid && s.one_in(4)) { // two views of one text
			size_t x = s.flip() ? v.off : s.below(v.all.size() + 1), y = s.flip() && v.off + t.size() >= x ? v.off + t.size() : x + s.below(v.all.size() - x + 1);
			w.mem.reset(); w.all.clear(); w.valid = true; w.val = v.all.substr(x, y - x); w.v = { v.mem->p + x, (int)(y - x) };
		}
		SV a = v.v, b = w.v;
		if(s.one_in(6)) { TR("swap(%s with itself)", v.desc().c_str()); vs_swap(&a, &a); CHECK(a.data == v.v.data && a.size == v.v.size, "a view swapped with itself has changed"); }
		vs_swap(&a, &b);
		TR("swap(%s, %s)", v.desc().c_str(), w.desc().c_str());
		CHECK(a.data == w.v.data && a.size == w.v.size && b.data == v.v.data && b.size == v.v.size, "swap");
		if(!t.empty()) nontrivial(); LABEL("swap");
	}
	v.unchanged("conversion");
}

// ------------------------------------------------------------------ C11 safety of everything, on chains
static void within(SV r, SV src, const char* what) {
	if(!r.data) { CHECK(r.size == 0, "%s: invalid view with size %d", what, r.size); return; }
	CHECK(src.data, "%s: valid view from an invalid source", what);
	CHECK(inside(r, src), "%s: result [%ld,+%d) is outside its source of %d bytes", what, (long)(r.data - src.data), r.size, src.size);
}
PROPERTY(C11, "a chain of at least two operations with a non-empty source") {
	V v; std::string t = s.one_in(30) ? "" : s.one_in(3) ? gen_lines(s) : gen_bytes(s, gen_len(s)); if(!s.one_in(30)) gen_view(s, v, t);
	V o; std::string u; if(t.size() && s.flip()) { size_t a = s.below(t.size()); u = t.substr(a, 1 + s.below(4)); } else u = gen_bytes(s, s.small_len(6)); if(!s.one_in(20)) gen_view(s, o, u);
	std::string z = strip_nul(u); Mem zm(cstr_mem(z)); const char* zs = s.one_in(20) ? nullptr : zm.p;
	TR("source %s, operand %s", v.desc().c_str(), o.desc().c_str());
	SV w = v.v; char eol = (char)s.pick({ 0, 13, 10, 0 }); int n = 1 + (int)s.below(8);
	for(int i = 0; i < n; i++) {
		int k = (int)s.below(24); SV before = w, r = w; bool consume = false; char what[40]; snprintf(what, sizeof what, "operation %d", k);
		TR("%s on [%ld,+%d)", what, w.data ? (long)(w.data - v.v.data) : -1L, w.size);
		switch(k) {
			case 0: r = vs_trim((int)s.below(3), w, o.v); break;
			case 1: r = vs_trim_s((int)s.below(3), w, zs, s.flip()); break;
			case 2: r = vs_find((int)s.below(2), (int)s.below(2), w, o.v); break;
			case 3: r = vs_find_s((int)s.below(2), (int)s.below(2), w, zs, s.flip()); break;
			case 4: r = vs_sub(w, s.any_int(w.size), s.any_int(w.size)); break;
			case 5: r = vs_split_index(&w, s.any_int(w.size)); consume = true; break;
			case 6: vs_pop(&w); consume = true; r = w; break;
			case 7: case 8: r = vs_split_first(&w, zs, s.flip()); consume = true; break;
			case 9: case 10: r = vs_split_last(&w, zs, s.flip()); consume = true; break;
			case 11: r = vs_line(&w, s.flip() ? &eol : nullptr); consume = true; break;
			case 12: r = vs_dequote(w); break;
			case 13: case 14: { SV pos = w; if(w.data) { int a = (int)s.below((uint64_t)w.size + 1); pos = { w.data + a, (int)s.below((uint64_t)(w.size - a) + 1) }; } if(s.one_in(8)) pos = o.v; r = k == 13 ? vs_split_left(&w, pos) : vs_split_right(&w, pos); consume = true; } break;
			case 15: { SV d[64]; int c = vs_split_all((int)s.below(20), 2, d, w, zs, s.flip()); for(int j = 0; j < c; j++) within(d[j], w, "split_all"); } break;
			case 16: vs_match(w, o.v); vs_match_nc(w, o.v); vs_match_s(w, zs, 0); vs_match_nc_s(w, zs, 0); break;
			case 17: vs_starts(w, o.v); vs_starts_nc(o.v, w); vs_starts_s(w, zs, 0); vs_starts_nc_s(w, zs, 0); break;
			case 18: vs_compare(w, o.v); vs_compare(o.v, w); break;
			case 19: vs_contains(w, o.v); vs_contains_nc(o.v, w); break;
			case 20: { Mem d(s.below(20)); vs_to_cstr(s.one_in(8) ? nullptr : d.p, d.n, w); } break;
			case 21: r = vs_dequote(vs_trim(0, w, o.v)); break;
			case 22: { SV x = vs_find(0, 0, w, o.v), y = w; r = vs_split_left(&y, x); within(y, w, "split_left remainder"); } break;
			case 23: { Mem d((size_t)w.size + 3); vs_print(d.p, d.n, w); } break;
		}
		within(r, before, what);
		if(consume) within(w, before, what);
		if(!consume && s.flip() && r.data) w = r;
		v.unchanged(what); o.unchanged(what);
	}
	if(n >= 2 && !t.empty()) nontrivial();
}

void check_views_simple(Src& s) { // for the build configurations
	V v; std::string t = gen_text(s, s.small_len(30), "ab, "); set_view(v, t);
	TR("views on %s", v.desc().c_str());
	SV r = vs_trim(0, v.v, SV{ " ", 1 }); size_t a = t.find_first_not_of(' '), b = t.find_last_not_of(' ');
	CHECK(str(r) == (a == NPOS ? "" : t.substr(a, b - a + 1)), "trim");
	SV w = v.v; r = vs_split_first(&w, ",", false); size_t p = t.find(','); CHECK(str(r) == t.substr(0, p) && (w.data != nullptr) == (p != NPOS), "split_first");
	r = vs_find(0, 0, v.v, SV{ "ab", 2 }); p = t.find("ab"); CHECK((r.data != nullptr) == (p != NPOS) && (!r.data || r.data == v.v.data + p), "find");
}
