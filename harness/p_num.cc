// Number parsing properties C21-C24.
#include "engine.h"
#include "shim.h"
#include <cerrno>
#include <cfloat>
#include <climits>
#include <cmath>

typedef unsigned __int128 u128; typedef __int128 i128;
enum { OPT_BIN = 1, OPT_HEX = 2, OPT_NOBX = 4, OPT_NOSIGN = 8, OPT_NOSPACE = 16, OPT_NOEXP = 32 };
static int lib_opt(int o) { int r = vn_opt(0); for(int i = 0; i < 6; i++) if(o & (1 << i)) r |= vn_opt(i + 1); return r; }

struct IntType { const char* name; int size; bool sig; };
static const IntType IT[10] = { { "unsigned char", 1, false }, { "unsigned short", 2, false }, { "unsigned int", 4, false }, { "unsigned long", sizeof(long), false }, { "unsigned long long", 8, false },
	{ "char", 1, CHAR_MIN < 0 }, { "short", 2, true }, { "int", 4, true }, { "long", sizeof(long), true }, { "long long", 8, true } };
static const IntType WT[8] = { { "int8_t", 1, true }, { "int16_t", 2, true }, { "int32_t", 4, true }, { "int64_t", 8, true }, { "uint8_t", 1, false }, { "uint16_t", 2, false }, { "uint32_t", 4, false }, { "uint64_t", 8, false } };
static i128 tmin(const IntType& t) { return t.sig ? -((i128)1 << (8 * t.size - 1)) : 0; }
static i128 tmax(const IntType& t) { return t.sig ? ((i128)1 << (8 * t.size - 1)) - 1 : ((i128)1 << (8 * t.size)) - 1; }

static int digit_of(char c, int base) {
	int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
	return v < base ? v : -1;
}
struct IntRef { int err; i128 val; size_t used; bool huge; };
// accept_sign: sign allowed by the destination type
static IntRef ref_int(const std::string& t, const IntType& ty, int opt) {
	IntRef r = { 0, 0, 0, false }; size_t p = 0, n = t.size(); bool neg = false;
	if(!(opt & OPT_NOSPACE)) while(p < n && t[p] == ' ') p++;
	// plain char takes signs like the other signed types whatever its signedness
	if((ty.sig || !strcmp(ty.name, "char")) && !(opt & OPT_NOSIGN) && p < n && (t[p] == '-' || t[p] == '+')) neg = t[p++] == '-';
	int base = opt & OPT_BIN ? 2 : opt & OPT_HEX ? 16 : 10;
	if(!(opt & OPT_NOBX) && p + 1 < n && t[p] == '0') {
		char c = t[p + 1];
		if(!(opt & OPT_HEX) && (c == 'b' || c == 'B')) { base = 2; p += 2; }
		else if(!(opt & OPT_BIN) && (c == 'x' || c == 'X')) { base = 16; p += 2; }
	}
	size_t d0 = p; i128 v = 0;
	while(p < n && digit_of(t[p], base) >= 0) { if(v < ((i128)1 << 100)) v = v * base + digit_of(t[p], base); p++; }
	if(p == d0) { r.err = EINVAL; return r; }
	if(neg) v = -v;
	if(v < tmin(ty) || v > tmax(ty)) { r.err = ERANGE; return r; }
	r.val = v; r.used = p; return r;
}
static std::string u128s(u128 v, int base, bool upper) {
	std::string r; if(!v) return "0";
	while(v) { int d = (int)(v % (unsigned)base); r.insert(r.begin(), (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10)); v /= (unsigned)base; }
	return r;
}
static std::string show128(i128 v) { return v < 0 ? "-" + u128s((u128)-v, 10, false) : u128s((u128)v, 10, false); }
static int gen_opt(Src& s) {
	int o = 0;
	switch(s.below(5)) { case 0: case 1: break; case 2: o |= OPT_BIN; break; case 3: o |= OPT_HEX; break; default: o |= OPT_NOBX; if(s.flip()) o |= s.flip() ? OPT_BIN : OPT_HEX; }
	if(s.one_in(5)) o |= OPT_NOSIGN; if(s.one_in(5)) o |= OPT_NOSPACE; if(s.one_in(8)) o |= OPT_NOEXP;
	return o;
}
static std::string tail(Src& s) {
	switch(s.below(8)) {
		case 0: case 1: return ""; case 2: return gen_bytes(s, 1 + (int)s.below(4)); case 3: return s.pick({ " ", ",5", "x1", ".5", "e5", "b1", "\xb0", "\xb1\xb0", "/", ":", "g", "G", "@", "`", "-", "\x10", "2", "\xc1" });
		case 4: return std::string(1, (char)s.byte()); case 5: return " 12"; case 6: return std::string(1, '\0') + "1"; default: return "abcdefg";
	}
}
// text of exactly a size at which an implementation may change its ways
static std::string pad_exact(Src& s, std::string t) {
	if(!s.one_in(60)) return t;
	size_t n = (size_t)(s.one_in(12) ? s.edge_len() : (int)s.pick({ 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513 }));
	if(t.size() >= n) return t;
	LABEL("exact text size");
	return s.flip() ? std::string(n - t.size(), ' ') + t : t + gen_bytes(s, (int)(n - t.size()));
}
static std::string gen_int_text(Src& s, int opt) {
	if(s.one_in(12)) return gen_text(s, s.small_len(12), "01 -+xXbB9aF");
	if(s.one_in(30)) return gen_bytes(s, s.small_len(30));
	std::string t(s.one_in(3) ? s.below(4) : 0, ' '); if(s.one_in(60)) t += std::string(s.one_in(40) ? (size_t)s.edge_len() : s.below(300), ' ');
	switch(s.below(6)) { case 0: t += '-'; break; case 1: t += '+'; break; case 2: if(s.one_in(4)) t += s.pick({ "--", "+-", "- ", "-+", " -" }); break; default: break; }
	int base = 10;
	switch(s.below(8)) { case 0: t += s.flip() ? "0x" : "0X"; base = 16; break; case 1: t += s.flip() ? "0b" : "0B"; base = 2; break; default: if(opt & OPT_BIN) base = 2; else if(opt & OPT_HEX) base = 16; }
	if(s.one_in(10)) base = s.pick({ 2, 10, 16 });
	if(s.one_in(4)) t += std::string(s.one_in(10) ? (s.one_in(60) ? (size_t)s.edge_len() : s.below(400)) : s.below(6), '0');
	u128 v;
	switch(s.below(7)) {
		case 0: v = s.below(300); break;
		case 6: { // at and around what a type or one of its tenths can hold
			int bits = (int)s.pick({ 8, 16, 32, 64 }); u128 lim = (u128)1 << (bits - (int)s.below(2)); if(s.one_in(3)) lim /= s.flip() ? 10 : 100;
			int64_t d; switch(s.below(4)) { case 0: d = 0; break; case 1: d = (int64_t)s.below(3) - 1; break; case 2: d = (int64_t)s.below(16) - 6; break; default: d = (int64_t)s.below(640) - 320; }
			v = lim + (u128)(i128)d; if((i128)v < 0) v = 0;
			if(base == 10 && s.one_in(6)) { v = v * 10 + s.below(10); }
		} break;
		case 1: { int bits = (int)s.pick({ 7, 8, 15, 16, 31, 32, 63, 64, 65, 68, 60 }); v = ((u128)1 << bits) + (u128)(int64_t)((int)s.below(7) - 3); if((i128)v < 0) v = 0; } break;
		case 2: v = (u128)1 << s.below(70); v += (u128)(s.u64() % (v > 1ull << 60 ? 1ull << 60 : (uint64_t)v)); break;
		case 3: v = (u128)s.u64(); break;
		case 4: v = (u128)s.u64() * (1 + s.below(40)) + s.below(100); break;
		default: v = (u128)s.u64() << s.below(64); v |= s.u64(); break;
	}
	std::string d = u128s(v, base, s.flip());
	if(s.one_in(20)) d += gen_text(s, s.one_in(200) ? s.edge_len() : (int)s.below(80), "0123456789");
	return pad_exact(s, t + d + tail(s));
}
static i128 load(const IntType& t, const void* p) {
	if(t.sig) { int64_t v = 0; switch(t.size) { case 1: v = *(const int8_t*)p; break; case 2: { int16_t x; memcpy(&x, p, 2); v = x; } break; case 4: { int32_t x; memcpy(&x, p, 4); v = x; } break; default: memcpy(&v, p, 8); } return v; }
	uint64_t v = 0; memcpy(&v, p, (size_t)t.size); return (i128)(u128)v; // little endian host
}
static void store(const IntType& t, void* p, uint64_t v) { memcpy(p, &v, (size_t)t.size); }

static void check_int(Src& s, const std::string& t, int opt, bool* nt) {
	Mem m(t); SV src = { m.p, (int)t.size() }; int o = lib_opt(opt), form = (int)s.below(4);
	if(form < 2) {
		int k = (int)s.below(10); const IntType& ty = IT[k]; IntRef e = ref_int(t, ty, opt);
		Mem dst((size_t)ty.size); uint64_t pat = s.u64(); store(ty, dst.p, pat);
		SV w = src; TR("%s(%s, %s, options 0x%x) expect %s", form ? "strnum_value" : "strnum_consume", ty.name, show(t).c_str(), opt, e.err == EINVAL ? "EINVAL" : e.err ? "ERANGE" : show128(e.val).c_str());
		int err = form ? vn_value(k, dst.p, &w, o) : vn_consume(k, dst.p, &w, o);
		CHECK(err == e.err, "%s of %s options 0x%x: error %d, expected %d", ty.name, show(t).c_str(), opt, err, e.err);
		if(err) { Mem d2((size_t)ty.size); store(ty, d2.p, pat); CHECK(!memcmp(dst.p, d2.p, (size_t)ty.size), "destination modified on failure"); CHECK(w.data == src.data && w.size == src.size, "source modified on failure"); }
		else {
			CHECK(load(ty, dst.p) == e.val, "%s of %s: value %s, expected %s", ty.name, show(t).c_str(), show128(load(ty, dst.p)).c_str(), show128(e.val).c_str());
			CHECK((size_t)w.size == t.size() - e.used && (w.size == 0 || w.data == src.data + e.used), "%s of %s: %d bytes left, expected %zu", ty.name, show(t).c_str(), w.size, t.size() - e.used);
			*nt = true;
		}
		if(e.err == ERANGE) { *nt = true; LABEL("range error"); } else if(e.err) LABEL("no number"); else LABEL("parsed");
		dst.verify();
	} else {
		int k = (int)s.below(form == 2 ? 10 : 8); const IntType& ty = form == 2 ? IT[k] : WT[k]; IntRef e = ref_int(t, ty, opt);
		Mem dst((size_t)ty.size), df((size_t)ty.size); store(ty, df.p, s.u64()); i128 d = load(ty, df.p);
		TR("default-value form for %s(%s, default %s, options 0x%x) expect %s", ty.name, show(t).c_str(), show128(d).c_str(), opt, e.err ? "the default" : show128(e.val).c_str());
		if(form == 2) vn_default(k, dst.p, src, df.p, o); else vn_fixed(k, dst.p, src, df.p, o);
		i128 got = load(ty, dst.p), want = e.err ? d : e.val;
		CHECK(got == want, "%s of %s with default %s: %s, expected %s", ty.name, show(t).c_str(), show128(d).c_str(), show128(got).c_str(), show128(want).c_str());
		if(!e.err || e.err == ERANGE) *nt = true; LABEL("default form");
		dst.verify();
	}
	CHECK(!memcmp(m.p, t.data(), t.size()), "source bytes modified");
}
PROPERTY(C21, "a text with a number in it: parsed, or rejected for its range") {
	int n = 1 + (int)s.below(3); bool nt = false;
	for(int i = 0; i < n; i++) {
		int opt = gen_opt(s); std::string t = gen_int_text(s, opt);
		check_int(s, t, opt, &nt);
		if(s.one_in(3)) check_int(s, t, gen_opt(s), &nt);
	}
	if(nt) nontrivial();
}
void check_numbers_simple(Src& s) {
	bool nt; int opt = gen_opt(s); check_int(s, gen_int_text(s, opt), opt, &nt);
}

// ------------------------------------------------------------------ floating point
static const size_t FSIZE[3] = { sizeof(float), sizeof(double), 10 };
static const char* const FNAME[3] = { "float", "double", "long double" };
static long double fload(int k, const void* p) { if(k == 0) { float f; memcpy(&f, p, sizeof f); return f; } if(k == 1) { double f; memcpy(&f, p, sizeof f); return f; } long double l; memcpy(&l, p, sizeof l); return l; }
static bool same_bits(int k, const void* a, const void* b) { return !memcmp(a, b, FSIZE[k]); }
static const size_t FFULL[3] = { sizeof(float), sizeof(double), sizeof(long double) };
static long double ref_value(int k, const std::string& z) { return k == 0 ? (long double)strtof(z.c_str(), nullptr) : k == 1 ? (long double)strtod(z.c_str(), nullptr) : strtold(z.c_str(), nullptr); }
static long double fmin_of(int k) { return k == 0 ? (long double)FLT_MIN : k == 1 ? (long double)DBL_MIN : LDBL_MIN; }
static int max10(int k) { return k == 0 ? FLT_MAX_10_EXP : k == 1 ? DBL_MAX_10_EXP : LDBL_MAX_10_EXP; }
static int mant(int k) { return k == 0 ? FLT_MANT_DIG : k == 1 ? DBL_MANT_DIG : LDBL_MANT_DIG; }
static long double ulp_of(int k, long double v) { int e; frexpl(v, &e); return ldexpl(1.0L, e - mant(k)); }

struct FRef { int err; bool special, nan, neg; size_t used; std::string ints, fracs; long long exp; bool got_exp, exp_big; };
static bool is_digit(char c) { return c >= '0' && c <= '9'; }
static bool starts_nc(const std::string& t, size_t p, const char* w) { for(; *w; w++, p++) if(p >= t.size() || (t[p] | 0x20) != *w) return false; return true; }
static FRef ref_float(const std::string& t, int opt) {
	FRef r = {}; size_t p = 0, n = t.size();
	if(!(opt & OPT_NOSPACE)) while(p < n && t[p] == ' ') p++;
	if(!(opt & OPT_NOSIGN) && p < n && (t[p] == '-' || t[p] == '+')) r.neg = t[p++] == '-';
	if(starts_nc(t, p, "infinity")) { r.special = true; r.used = p + 8; return r; }
	if(starts_nc(t, p, "inf")) { r.special = true; r.used = p + 3; return r; }
	if(starts_nc(t, p, "nan")) { r.special = r.nan = true; r.used = p + 3; return r; }
	while(p < n && is_digit(t[p])) r.ints += t[p++];
	if(p < n && t[p] == '.') { size_t q = p + 1; while(q < n && is_digit(t[q])) r.fracs += t[q++]; if(!r.ints.empty() || !r.fracs.empty()) p = q; }
	if(r.ints.empty() && r.fracs.empty()) { r.err = EINVAL; return r; }
	if(!(opt & OPT_NOEXP) && p < n && (t[p] == 'e' || t[p] == 'E')) {
		size_t q = p + 1; bool en = false; if(q < n && (t[q] == '-' || t[q] == '+')) en = t[q++] == '-';
		if(q < n && is_digit(t[q])) {
			long long v = 0; while(q < n && is_digit(t[q])) { if(v < 100000000000LL) v = v * 10 + (t[q] - '0'); q++; }
			if(en) v = -v;
			if(v > INT_MAX || v < INT_MIN) { r.err = ERANGE; r.exp_big = true; return r; }
			r.exp = v; r.got_exp = true; p = q;
		}
	}
	r.used = p; return r;
}
// magnitude of the leading digit: value is d.ddd * 10^mag of the digit text; INT_MIN for zero
static long long mag10(const FRef& r) {
	size_t i = r.ints.find_first_not_of('0');
	if(i != std::string::npos) return (long long)(r.ints.size() - i) - 1;
	i = r.fracs.find_first_not_of('0');
	if(i != std::string::npos) return -(long long)i - 1;
	return LLONG_MIN;
}
static std::string plain(const FRef& r) { return (r.neg ? "-" : "") + (r.ints.empty() ? std::string("0") : r.ints) + "." + (r.fracs.empty() ? "0" : r.fracs) + "e" + std::to_string(r.exp); }
static const int ULPS = 8;
// what class of result the text has for type k: 0 accurate, 1 must be ERANGE, 2 tiny (no accuracy claim), 3 undecided, 4 zero
static int classify(int k, const FRef& r, long double ref) {
	long long m = mag10(r);
	if(m == LLONG_MIN) return 4;
	int M = max10(k); long long total = m + r.exp;
	if(total > M + 1) return 1;
	if(total < -M + 1) return 2;
	// close to the largest value: judged by a wider type, with the rounding tolerance left open
	long double eps = ldexpl(1.0L, 1 - mant(k));
	if(k < 2) { long double wide = fabsl(strtold(plain(r).c_str(), nullptr)), mx = k == 0 ? (long double)FLT_MAX : (long double)DBL_MAX; if(wide > mx * (1 + 2 * ULPS * eps)) return 1; if(wide > mx * (1 - 2 * ULPS * eps)) return 3; }
	else if(total > M - 1) return total == M && std::isfinite(ref) && fabsl(ref) < LDBL_MAX * (1 - 2 * ULPS * eps) ? 0 : 3;
	return fabsl(ref) >= fmin_of(k) * 4 ? 0 : 3;
}
static void check_float_value(int k, const FRef& r, int err, long double got, const std::string& t) {
	if(r.special) {
		CHECK(err == 0, "%s of %s: error %d for a special value", FNAME[k], show(t).c_str(), err);
		if(r.nan) CHECK(std::isnan(got), "%s of %s is not NaN", FNAME[k], show(t).c_str());
		else CHECK(std::isinf(got) && std::signbit(got) == r.neg, "%s of %s is %Lg", FNAME[k], show(t).c_str(), got);
		return;
	}
	long double ref = ref_value(k, plain(r)); int c = classify(k, r, ref);
	switch(c) {
		case 0: {
			CHECK(err == 0, "%s of %s: error %d", FNAME[k], show(t).c_str(), err);
			long double d = fabsl(got - ref), u = ulp_of(k, ref);
			CHECK(d <= ULPS * u, "%s of %s is %.21Lg, exact value %.21Lg (%.1Lf ulp off)", FNAME[k], show(t).c_str(), got, ref, d / u);
			CHECK(std::signbit(got) == r.neg, "%s of %s has the wrong sign", FNAME[k], show(t).c_str());
			LABEL("accurate");
		} break;
		case 1: CHECK(err == ERANGE, "%s of %s: too large, but error is %d (value %Lg)", FNAME[k], show(t).c_str(), err, got); LABEL("too large"); break;
		case 2: CHECK(err == 0 && fabsl(got) <= fmin_of(k) * 100, "%s of %s: error %d value %Lg", FNAME[k], show(t).c_str(), err, got); LABEL("tiny"); break;
		case 4: CHECK(err == 0 && got == 0, "%s of %s: error %d, value %Lg, expected zero", FNAME[k], show(t).c_str(), err, got); CHECK(std::signbit(got) == r.neg, "zero with the wrong sign"); LABEL("zero"); break;
		default: if(!err) CHECK(!std::isinf(got), "%s of %s gives infinity without an error", FNAME[k], show(t).c_str()); break;
	}
}
static int call_float(Src& s, int k, const std::string& t, int opt, long double* got, SV* rest, SV* src, Mem& m) {
	(void)t; Mem dst(FFULL[k]); std::string pat(FFULL[k], '\x3c'); memcpy(dst.p, pat.data(), pat.size());
	SV w = *src; int err = s.flip() ? vn_consume(N_F + k, dst.p, &w, lib_opt(opt)) : vn_value(N_F + k, dst.p, &w, lib_opt(opt));
	if(err) { CHECK(!memcmp(dst.p, pat.data(), pat.size()), "%s of %s: destination modified on failure", FNAME[k], show(t).c_str()); CHECK(w.data == src->data && w.size == src->size, "%s of %s: source modified on failure", FNAME[k], show(t).c_str()); }
	*got = err ? 0 : fload(k, dst.p); *rest = w; dst.verify(); (void)m;
	return err;
}
static std::string digits(Src& s, int max) {
	int n; switch(s.below(6)) { case 0: n = (int)s.below(3); break; case 1: case 2: n = (int)s.below(20); break; case 3: n = 17 + (int)s.below(8); break; case 4: n = 36 + (int)s.below(30); break; default: n = (int)s.below((uint64_t)max); }
	if(n > max) n = max;
	std::string r; int k = (int)s.below(5);
	if(k == 4 && s.flip()) r = std::string((size_t)n / 2, '0');
	while((int)r.size() < n) r += k == 0 ? '9' : k == 1 ? "01"[s.below(2)] : k == 2 ? '0' : (char)('0' + s.below(10));
	if(k == 2 && n) r[0] = (char)('0' + s.below(10));
	return r;
}
static std::string gen_decimal(Src& s, int k) {
	std::string i = digits(s, 400), f = s.flip() ? digits(s, 400) : "";
	std::string t = s.one_in(3) ? "-" : s.one_in(6) ? "+" : "";
	if(i.empty() && f.empty()) i = "0";
	static const bool modest = getenv("VF_SMALL") != nullptr;
	if(!modest && s.one_in(400)) { // far more digits than any type can hold
		size_t n = (size_t)s.edge_len(); LABEL("thousands of digits");
		switch(s.below(4)) { case 0: i += std::string(n, '0'); break; case 1: f = std::string(n, '0') + f; break; case 2: f += gen_text(s, (int)n, "0123456789"); break; default: i = std::string(n, '0') + i; }
		if(s.one_in(3)) { f += std::string(n / 2, s.flip() ? '0' : '9'); f += '5'; }
	}
	t += i; if(!f.empty() || s.one_in(6)) t += "." + f;
	if(s.flip()) {
		int M = max10(k); long long e; size_t nz = i.find_first_not_of('0'); long long m = nz == std::string::npos ? 0 : (long long)(i.size() - nz);
		long long lead = (long long)(f.find_first_not_of('0') == std::string::npos ? 0 : f.find_first_not_of('0') + 1);
		switch(s.below(8)) { case 6: e = -(nz == std::string::npos ? -lead : m) + s.range(-M, M); break; case 7: e = (nz == std::string::npos ? lead : -m) + (s.flip() ? M : -M) + s.range(-3, 3); break; case 0: case 1: e = s.range(-20, 20); break; case 2: e = s.range(-M, M); break; case 3: e = M - m + s.range(-4, 4); break; case 4: e = s.one_in(4) ? s.range(INT_MIN, INT_MAX) : s.range(-3 * M, 3 * M); break; default: e = -(long long)M + s.range(0, 8); }
		t += s.flip() ? "e" : "E"; if(e >= 0 && s.flip()) t += "+"; if(e < 0) { t += "-"; e = -e; } if(s.one_in(8)) t += std::string(s.below(30), '0'); t += std::to_string(e);
	}
	return t;
}
PROPERTY(C23, "a non-zero decimal text whose value is decided by the oracle (accurate or too large), at most 800 digits (now and then up to 150000)") {
	if(!vn_has_float()) return;
	int n = 1 + (int)s.below(3); bool nt = false;
	for(int i = 0; i < n; i++) {
		int k = (int)s.below(3); long double got; SV rest;
		if(s.one_in(6)) { // integers: exact
			unsigned long long v = s.flip() ? s.u64() >> s.below(64) : (1ull << s.below(64)) + s.below(3) - 1; int keep = mant(k);
			if(keep < 64) { int top = 64; while(top && !(v >> (top - 1) & 1)) top--; if(top > keep) v = v >> (top - keep) << (top - keep); }
			bool neg = s.one_in(3); std::string t = (neg ? "-" : "") + std::to_string(v) + s.pick({ "", ".", ".0", ".000000", "e0", ".0e0" }); Mem m(t); SV src = { m.p, (int)t.size() };
			TR("%s of integer %s", FNAME[k], t.c_str());
			int err = call_float(s, k, t, 0, &got, &rest, &src, m);
			long double want = neg ? -(long double)v : (long double)v;
			CHECK(!err && got == want, "%s of %s is %.21Lg (error %d)", FNAME[k], t.c_str(), got, err); CHECK(rest.size == 0, "text left over");
			if(v) nt = true; LABEL("exact integer"); continue;
		}
		std::string t = gen_decimal(s, k); Mem m(t); SV src = { m.p, (int)t.size() };
		TR("%s of %s", FNAME[k], show(t).c_str());
		FRef r = ref_float(t, 0);
		int err = call_float(s, k, t, 0, &got, &rest, &src, m);
		if(r.exp_big) { CHECK(err == ERANGE, "exponent beyond int: error %d", err); continue; }
		check_float_value(k, r, err, got, t);
		if(!err) CHECK(rest.size == 0, "%s of %s: %d bytes left over", FNAME[k], show(t).c_str(), rest.size);
		int c = classify(k, r, ref_value(k, plain(r))); if(c <= 1) nt = true;
		if(r.ints.size() > 40 || r.fracs.size() > 40) LABEL("over 40 digits");
	}
	if(nt) nontrivial();
}

static std::string gen_float_text(Src& s) {
	if(s.one_in(8)) return gen_text(s, s.small_len(14), "01.eE+- inftyNA9");
	std::string t(s.one_in(4) ? s.below(4) : 0, ' ');
	switch(s.below(6)) { case 0: t += '-'; break; case 1: t += '+'; break; case 2: if(s.one_in(5)) t += s.pick({ "--", "+-", "- ", "-+" }); break; default: break; }
	switch(s.below(8)) {
		case 0: { std::string w = s.pick({ "inf", "infinity", "nan", "infinit", "infinty", "in", "na", "i", "nanx", "infinitys" }); for(char& c : w) if(s.flip()) c ^= 0x20; if(s.one_in(6)) w[s.below(w.size())] = (char)s.byte(); t += w; if(s.one_in(4)) t += s.pick({ "e5", "1", ".5", " ", "(1)" }); return t + (s.flip() ? "" : tail(s)); }
		case 1: t += gen_text(s, (int)s.below(4), "0123456789"); break;
		case 2: t += "." + gen_text(s, (int)s.below(4), "0123456789"); break;
		default: t += gen_text(s, (int)s.below(8), "0123456789"); if(s.flip()) t += "." + gen_text(s, (int)s.below(8), "0123456789");
	}
	if(s.flip()) {
		t += s.flip() ? "e" : "E"; t += s.pick({ "", "", "-", "+", " ", "+-", "--" });
		switch(s.below(6)) { case 0: break; case 1: t += std::string(s.below(4), '0') + std::to_string(s.below(10)); break; case 2: t += std::to_string(s.below(40)); break;
			case 3: t += s.pick({ "2147483647", "2147483648", "2147483649", "4294967296", "18446744073709551616", "99999999999", "9223372036854775808" }); break; case 4: t += "0x5"; break; default: t += std::to_string(s.below(6000)); }
	}
	return pad_exact(s, t + tail(s));
}
PROPERTY(C24, "a text with a number or special value, or rejected after a plausible start (sign, point, letter of inf/nan)") {
	if(!vn_has_float()) return;
	int n = 1 + (int)s.below(3); bool nt = false;
	for(int i = 0; i < n; i++) {
		std::string t = gen_float_text(s); int opt = 0; if(s.one_in(3)) opt |= OPT_NOSIGN; if(s.one_in(3)) opt |= OPT_NOSPACE; if(s.one_in(3)) opt |= OPT_NOEXP; if(s.one_in(3)) opt |= OPT_NOBX;
		int k = (int)s.below(3); Mem m(t); SV src = { m.p, (int)t.size() }, rest; long double got;
		FRef r = ref_float(t, opt);
		TR("%s of %s, options 0x%x: expect %s", FNAME[k], show(t).c_str(), opt, r.err == EINVAL ? "EINVAL" : r.err ? "ERANGE" : fmtstr("%zu characters consumed", r.used).c_str());
		int err = call_float(s, k, t, opt, &got, &rest, &src, m);
		if(r.err) { CHECK(err == r.err, "%s of %s options 0x%x: error %d, expected %d", FNAME[k], show(t).c_str(), opt, err, r.err); LABEL("rejected"); }
		else {
			check_float_value(k, r, err, got, t);
			if(!err) CHECK((size_t)rest.size == t.size() - r.used && (rest.size == 0 || rest.data == src.data + r.used), "%s of %s options 0x%x: %d bytes left, expected %zu", FNAME[k], show(t).c_str(), opt, rest.size, t.size() - r.used);
			else CHECK(err == ERANGE, "%s of %s: error %d", FNAME[k], show(t).c_str(), err);
			if(r.special) LABEL("special"); else if(r.got_exp) LABEL("exponent");
		}
		if(!r.err || r.err == ERANGE) nt = true; else if(t.find_first_of("+-.iInN") != std::string::npos) nt = true;
		CHECK(!memcmp(m.p, t.data(), t.size()), "source bytes modified");
	}
	if(nt) nontrivial();
}

// ------------------------------------------------------------------ C22 failure atomicity, defaults, omitted arguments
PROPERTY(C22, "a parse of non-empty text, or a call with an omitted or invalid argument") {
	int n = 1 + (int)s.below(3);
	for(int i = 0; i < n; i++) {
		int opt = gen_opt(s);
		if(s.one_in(6)) { // fixed-width default-value forms
			int k = (int)s.below(8); const IntType& ty = WT[k]; bool inv = s.one_in(8); std::string t = gen_int_text(s, opt); Mem m(t); SV src = inv ? SV{ nullptr, 0 } : SV{ m.p, (int)t.size() };
			IntRef e = ref_int(t, ty, opt); Mem dst((size_t)ty.size), df((size_t)ty.size); store(ty, df.p, s.u64()); i128 d = load(ty, df.p), want = inv || e.err ? d : e.val;
			TR("%s default form, %s, default %s, options 0x%x", ty.name, inv ? "invalid source" : show(t).c_str(), show128(d).c_str(), opt);
			vn_fixed(k, dst.p, src, df.p, lib_opt(opt)); i128 got = load(ty, dst.p);
			CHECK(got == want, "%s of %s with default %s: %s, expected %s", ty.name, inv ? "an invalid source" : show(t).c_str(), show128(d).c_str(), show128(got).c_str(), show128(want).c_str());
			dst.verify(); CHECK(!memcmp(m.p, t.data(), t.size()), "source bytes modified"); if(!t.empty() || inv) nontrivial(); LABEL("fixed width default form");
			continue;
		}
		bool flt = vn_has_float() && s.one_in(3); int k = flt ? N_F + (int)s.below(3) : (int)s.below(10);
		size_t sz = flt ? FFULL[k - N_F] : (size_t)IT[k].size, cmp = flt ? FSIZE[k - N_F] : sz;
		std::string t = flt ? (s.flip() ? gen_float_text(s) : gen_decimal(s, k - N_F)) : gen_int_text(s, opt);
		if(s.one_in(5)) t = gen_float_text(s);
		if(s.one_in(12)) t = "";
		bool inv = s.one_in(12), nodst = s.one_in(6), nosrc = s.one_in(12); int o = lib_opt(opt); bool macro = s.flip();
		Mem m(t); SV src = inv ? SV{ nullptr, 0 } : SV{ m.p, (int)t.size() }, w = src;
		Mem dst(sz), d2(sz); std::string pat(sz, '\x3c'); memcpy(dst.p, pat.data(), sz); memcpy(d2.p, pat.data(), sz);
		TR("type %d, %s%s, options 0x%x%s", k, nosrc ? "no source" : inv ? "invalid source" : show(t).c_str(), nodst ? ", no destination" : "", opt, macro ? " (generic)" : "");
		if(!t.empty() || inv || nosrc) nontrivial();
		auto call = [&](void* d, SV* v) { return macro ? vn_value(k, d, v, o) : vn_consume(k, d, v, o); };
		if(nosrc || inv) {
			int err = call(nodst ? nullptr : dst.p, nosrc ? nullptr : &w);
			CHECK(err == EINVAL, "type %d: %s source gives error %d", k, nosrc ? "omitted" : "invalid", err);
			CHECK(!memcmp(dst.p, pat.data(), sz), "destination modified on failure"); CHECK(w.data == src.data && w.size == src.size, "source modified on failure");
			LABEL("no source");
			if(!nosrc) { Mem df(sz), out(sz); for(size_t j = 0; j < sz; j++) df.p[j] = '\x11'; vn_default(k, out.p, src, df.p, o); CHECK(!memcmp(out.p, df.p, cmp), "default not returned for an invalid source"); }
			continue;
		}
		int err = call(dst.p, &w);
		CHECK(err == 0 || err == EINVAL || err == ERANGE, "error code %d", err);
		if(err) {
			CHECK(!memcmp(dst.p, pat.data(), sz), "type %d of %s: destination modified although it failed with %d", k, show(t).c_str(), err);
			CHECK(w.data == src.data && w.size == src.size, "type %d of %s: source modified although it failed with %d", k, show(t).c_str(), err);
			LABEL("failed");
		} else {
			CHECK(w.size >= 0 && w.size < src.size && (w.size == 0 || w.data == src.data + (src.size - w.size)), "type %d of %s: remaining source is not its tail", k, show(t).c_str());
			LABEL("succeeded");
		}
		// without a destination: same verdict, same consumption
		SV w2 = src; int err2 = call(nullptr, &w2);
		CHECK(err2 == err && w2.size == w.size && w2.data == w.data, "type %d of %s: omitting the destination changes the outcome (%d/%d)", k, show(t).c_str(), err, err2);
		// default-value form: value on success, exactly the default on failure
		Mem df(sz), out(sz); if(flt) { memset(df.p, 0, sz); if(k == N_F) { float f = -7.25f; memcpy(df.p, &f, 4); } else if(k == N_D) { double f = 1e9 + 0.5; memcpy(df.p, &f, 8); } else { long double f = -3.5L; memcpy(df.p, &f, 10); } } else store(IT[k], df.p, s.u64());
		SV keep = src; vn_default(k, out.p, src, df.p, o);
		CHECK(keep.data == src.data && keep.size == src.size, "caller's view modified");
		if(err) CHECK(!memcmp(out.p, df.p, cmp), "type %d of %s: default not returned on failure", k, show(t).c_str());
		else if(flt) CHECK(same_bits(k - N_F, out.p, dst.p) || std::isnan(fload(k - N_F, dst.p)), "type %d of %s: default form differs from the consuming form", k, show(t).c_str());
		else CHECK(!memcmp(out.p, dst.p, cmp), "type %d of %s: default form differs from the consuming form", k, show(t).c_str());
		dst.verify(); out.verify();
		CHECK(!memcmp(m.p, t.data(), t.size()), "source bytes modified");
	}
}
