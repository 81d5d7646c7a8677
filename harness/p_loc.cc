// C40: the same call under different locales. The text and the arguments of a call are generated once; the call is made in the "C"
// locale and in one whose decimal point, digit grouping, character classes, case conversion or encoding differ, and must do the same.
#include "bufworld.h"
#include <clocale>
#include <ctype.h>
#include <functional>

static const char* const NAMES[] = { "de_DE.UTF-8", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "tr_TR.ISO-8859-9", "zh_TW.BIG5", "hi_IN.UTF-8", "C.UTF-8" };
static const std::vector<const char*>& locales() {
	static std::vector<const char*> l;
	if(l.empty()) { for(const char* n : NAMES) if(setlocale(LC_ALL, n)) l.push_back(n); setlocale(LC_ALL, "C"); if(l.empty()) { fprintf(stderr, "harness: no locale can be set\n"); _Exit(3); } }
	return l;
}
static int g_loc;
static void under(const std::function<void()>& f) {
	const char* n = locales()[(size_t)g_loc]; setlocale(LC_ALL, n); std::string was = setlocale(LC_ALL, nullptr);
	f();
	std::string is = setlocale(LC_ALL, nullptr); setlocale(LC_ALL, "C");
	CHECK(is == was, "the locale is %s after the call, it was %s", is.c_str(), was.c_str());
}
extern "C" ssize_t vf_read(int, void*, size_t) { return -1; }
extern "C" ssize_t vf_write(int, const void*, size_t n) { return (ssize_t)n; }

static std::string mixed(Src& s, const char* w) { std::string r = w; int how = (int)s.below(3); for(char& c : r) if(how == 1 || (how == 2 && s.flip())) c = (char)(c & ~0x20); return r; }
static std::string number(Src& s) {
	std::string t(s.one_in(3) ? s.below(4) : 0, ' ');
	if(s.one_in(12)) return gen_text(s, s.small_len(14), "01 -+xXbB9aFeE.,'\xa0\xc2iInN");
	if(s.one_in(3)) t += s.flip() ? "-" : "+";
	switch(s.below(9)) {
		case 0: t += mixed(s, s.pick({ "inf", "nan", "infinity", "infinit", "in", "na", "\xfdnf", "\xddnf" })); break;
		case 1: t += s.flip() ? "0x" : "0X"; t += fmtstr("%llx", (unsigned long long)(s.u64() >> s.below(64))); break;
		case 2: t += s.flip() ? "0b" : "0B"; t += gen_text(s, 1 + (int)s.below(20), "01"); break;
		case 3: t += fmtstr("%llu", (unsigned long long)(s.u64() >> s.below(64))); break;
		case 4: { // grouped digits, as the locale would write them
			const char* g = s.pick({ ".", ",", "'", "\xa0", " ", "\xe2\x80\xaf" }); int n = 1 + (int)s.below(4); t += gen_text(s, 1 + (int)s.below(3), "123456789"); for(int i = 0; i < n; i++) t += g + gen_text(s, 3, "0123456789"); } break;
		default: t += gen_text(s, (int)s.below(12), "0123456789"); if(!s.one_in(5)) { t += s.one_in(3) ? "," : "."; t += gen_text(s, (int)s.below(s.one_in(4) ? 30 : 6), "0123456789"); }
			if(s.one_in(3)) { t += s.flip() ? "e" : "E"; t += s.pick({ "", "-", "+" }); t += fmtstr("%d", (int)s.below(s.flip() ? 30 : 330)); } break;
	}
	switch(s.below(6)) { case 0: t += gen_bytes(s, 1 + (int)s.below(4)); break; case 1: t += s.pick({ ",5", ".5", "\xb2", "e5", "\xa0" "1", "\xd9\xa1", "\xe0\xa5\xa7" }); break; default: break; }
	return t;
}
static std::string text(Src& s, int max) {
	int n = s.small_len(max); if(s.flip()) return gen_bytes(s, n);
	return gen_text(s, n, s.pick({ "abiIzZ,\" \r\n", "aA\xe4\xc4\xdf\xfd\xdd,.", "\xc4\xb1\xc4\xb0i.", "\xa0\x85 \t,\v\f", "\xa4\x5c\xa4\xa4|a" })); // Latin 1, Turkish letters, spaces, two-byte characters with a backslash
}
// everything a call gives: kept as text, positions relative to the source
struct Out { std::string t; void num(long long v) { t += fmtstr("%lld ", v); } void view(SV r, const char* base) { t += !r.data ? std::string("(invalid) ") : fmtstr("%ld+%d ", (long)(r.data - base), r.size); } };

static const int NSIZE[N_TYPES] = { 1, 2, 4, sizeof(long), 8, 1, 2, 4, sizeof(long), 8, 4, 8, 10 };
static void numbers(Src& s, Out& o, const std::function<void(const std::function<void()>&)>& in) {
	std::string t = number(s); int opt = 0; for(int i = 1; i <= 6; i++) if(s.one_in(6) && !(i == 2 && (opt & vn_opt(1)))) opt |= vn_opt(i);
	Mem m(t); int type = s.flip() ? N_F + (int)s.below(3) : (int)s.below(N_TYPES), form = (int)s.below(4), w = (int)s.below(W_TYPES); uint64_t pat[2] = { s.u64() & 0x3fffffffffffffffull, 0x3fff };
	TR("number type %d form %d options 0x%x in %s", type, form, opt, show(t).c_str());
	alignas(16) unsigned char dst[16]; memcpy(dst, pat, 16); SV v = { m.p, (int)t.size() }; int err = 0; bool fixed = form == 3 && w >= 0;
	alignas(16) unsigned char df[16]; memcpy(df, pat, 16);
	in([&] { if(form == 0) err = vn_consume(type, dst, &v, opt); else if(form == 1) err = vn_value(type, dst, &v, opt); else if(form == 2) vn_default(type, dst, v, df, opt); else vn_fixed(w, dst, v, df, opt); });
	o.num(err); o.view(v, m.p); o.t += show(dst, fixed ? 1u << (w & 3) : (size_t)NSIZE[type]);
	if(!err && form < 2) { LABEL("number read"); nontrivial(); } else if(form >= 2) LABEL("number with a default");
}
static void views(Src& s, Out& o, const std::function<void(const std::function<void()>&)>& in) {
	std::string t = text(s, 60), u = s.one_in(3) ? text(s, 4) : t.substr(s.below(t.size() + 1), s.below(5)), z = s.flip() ? u : text(s, 3); z = z.c_str(); if(s.one_in(4)) u = t;
	Mem m(t), n(u), zm = cstr_mem(z); SV v = { m.p, (int)t.size() }, d = { n.p, (int)u.size() }, r = {}, parts[8] = {}; int k = (int)s.below(12), c = 0, j = 0; bool q = s.flip(); char dst[64] = {}, eol = 0; int a = (int)s.below(3), room = 1 + (int)s.below(sizeof dst);
	TR("view operation %d on %s with %s", k, show(t).c_str(), show(k == 4 || k == 5 ? z : u).c_str());
	switch(k) {
		case 0: in([&] { c = vs_match(v, d) | vs_starts(v, d) << 1 | vs_contains(v, d) << 2; j = vs_compare(v, d); }); o.num(c); o.num((j > 0) - (j < 0)); break;
		case 1: in([&] { r = vs_find((int)q, 0, v, d); }); o.view(r, m.p); break;
		case 2: in([&] { r = vs_trim(a, v, d); }); o.view(r, m.p); break;
		case 3: in([&] { r = vs_dequote(v); }); o.view(r, m.p); break;
		case 4: in([&] { r = a ? vs_split_first(&v, zm.p, q) : vs_split_last(&v, zm.p, q); }); o.view(r, m.p); o.view(v, m.p); break;
		case 5: in([&] { c = vs_split_all(8, 0, parts, v, zm.p, q); }); o.num(c); for(int i = 0; i < 8 && i < c; i++) o.view(parts[i], m.p); break;
		case 6: in([&] { for(int i = 0; i < 6; i++) parts[i] = vs_line(&v, &eol); }); for(int i = 0; i < 6; i++) o.view(parts[i], m.p); o.view(v, m.p); o.num(eol); break;
		case 7: in([&] { vs_to_cstr(dst, (size_t)room, v); }); o.t += show(dst, strlen(dst) + 1); break;
		case 8: in([&] { c = vs_pop(&v); }); o.num(c); o.view(v, m.p); break;
		case 9: in([&] { c = vs_print(dst, sizeof dst, v); }); o.num(c); o.t += show(dst, strlen(dst) + 1); break;
		default: { // ignoring case, among letters that every locale converts alike
			std::string x = gen_text(s, s.small_len(20), "abcdexyz-09"), y = s.one_in(3) ? gen_text(s, s.small_len(4), "abcdexyz-09") : x.substr(s.below(x.size() + 1), s.flip() ? 20 : s.below(5)); for(char& ch : y) if(ch >= 'a' && s.flip()) ch = (char)(ch & ~0x20);
			TR("ignoring case: %s and %s", show(x).c_str(), show(y).c_str());
			Mem xm(x), ym(y); v = SV{ xm.p, (int)x.size() }; d = SV{ ym.p, (int)y.size() }; in([&] { c = vs_match_nc(v, d) | vs_starts_nc(v, d) << 1 | vs_contains_nc(v, d) << 2; r = vs_find((int)q, 1, v, d); }); o.num(c); o.view(r, xm.p); break; }
	}
	LABEL("view operation"); if(t.size()) nontrivial();
}
static void buffers(Src& s, Out& o, const std::function<void(const std::function<void()>&)>& in) {
	std::string t = text(s, 60), u = text(s, 20), z = u.c_str(); Mem m(t), n(u), zm = cstr_mem(z); SV v = { m.p, (int)t.size() }, d = { n.p, (int)u.size() }, r = {};
	Mem f(vb_header() + 1 + s.below(120), 0); int k = (int)s.below(8), i = s.any_int((int)t.size()); SB* b = vb_create_fixed(f.p, f.n); vb_assign(&b, v); std::string want;
	TR("buffer operation %d on %s with %s", k, show(t).c_str(), show(u).c_str());
	if(k == 7) { // printing follows the locale: what the C library's own printf gives there
		FA a = {}; a.i = a.j = a.k = (int)s.u32(); a.d = (double)(int32_t)s.u32() / 64; a.s = zm.p; static const struct { const char* f; int sh; } F[] = { { "%d", SH_I }, { "%'d", SH_I }, { "%.3f", SH_D }, { "%'.2f", SH_D }, { "%g", SH_D }, { "%s", SH_S }, { "%.2s", SH_S }, { "%8s|", SH_S } };
		const auto& p = F[s.below(sizeof F / sizeof *F)]; int form = (int)s.below(4); char dst[400] = {}; int len = 0; std::string before = std::string(vb_cstr(b), (size_t)vb_size(b));
		if(!vb_has_printf()) return;
		TR("printing with %s", p.f);
		in([&] { len = vf_snprintf(dst, sizeof dst, p.sh, p.f, &a); r = vb_printf(&b, form, p.sh, p.f, &a); });
		want = (form >= 2 ? before : "") + std::string(dst, len < 0 ? 0 : (size_t)len); if(len < 0 || want.size() > (size_t)vb_cap(b)) want.clear();
		CHECK(std::string(vb_cstr(b), (size_t)vb_size(b)) == want, "%s under this locale: the buffer holds %s, printf gives %s", p.f, show(vb_cstr(b), (size_t)vb_size(b)).c_str(), show(want).c_str());
		LABEL("printing"); nontrivial(); return;
	}
	in([&] { switch(k) { case 0: r = vb_strip(&b, d); break; case 1: r = vb_strip_s(&b, zm.p, 0); break; case 2: r = vb_append(&b, d); break; case 3: r = vb_insert_at(&b, i, d); break; case 4: r = vb_prepend_s(&b, zm.p, 0); break; case 5: { SV a[3] = { v, d, v }; r = vb_cat(&b, 3, a); } break; default: r = vb_append_char(&b, (char)0xdd); break; } });
	o.view(r, vb_cstr(b)); o.t += show(vb_cstr(b), (size_t)vb_size(b) + 1); LABEL("buffer operation"); if(t.size()) nontrivial();
}
PROPERTY(C40, "a number read, a printed text, or an operation on text that is not empty") {
	g_loc = (int)s.below(locales().size()); TR("locale %s", locales()[(size_t)g_loc]);
	{ static std::vector<int> ids; if(ids.empty()) for(const char* n : locales()) ids.push_back(label_id(strdup(fmtstr("locale %s", n).c_str()))); g_labels[ids[(size_t)g_loc]]++; }
	int kind = s.weighted({ 4, 2, 1 }); bool warm = s.flip();
	// the choices are drawn once and the case is played twice
	std::vector<uint8_t> bytes(200); for(uint8_t& b : bytes) b = (uint8_t)s.below(256);
	auto play = [&](bool foreign, Out& o) { Src q; q.p = bytes.data(); q.n = bytes.size(); auto in = [&](const std::function<void()>& f) { if(foreign) under(f); else f(); };
		if(kind == 0) numbers(q, o, in); else if(kind == 1) views(q, o, in); else buffers(q, o, in); };
	Out a, b; play(warm, a); bool tr = g_trace; g_trace = false; play(!warm, b); g_trace = tr;
	CHECK(a.t == b.t, "locale %s: %s, in the C locale: %s", locales()[(size_t)g_loc], (warm ? a : b).t.c_str(), (warm ? b : a).t.c_str());
}
