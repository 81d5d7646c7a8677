// C25 C26 (crypt), C27 (pack), C28 (stream I/O), C30 (URI example)
#include "bufworld.h"
#include <cerrno>
#include <cctype>
#include <sys/socket.h>
#include <unistd.h>

// ---------------------------------------------------------------- reference AES-256-CBC (written from FIPS-197, table free)
namespace ref {
static uint8_t S[256], IS[256]; static bool ready = false;
static uint8_t xt(uint8_t x) { return (uint8_t)((x << 1) ^ ((x & 0x80) ? 0x1b : 0)); }
static uint8_t mul(uint8_t a, uint8_t b) { uint8_t r = 0; while(b) { if(b & 1) r ^= a; a = xt(a); b >>= 1; } return r; }
static uint8_t M[256][6];
static void init() {
	if(ready) return;
	for(int i = 0; i < 256; i++) {
		uint8_t inv = 0; for(int j = 1; j < 256; j++) if(mul((uint8_t)i, (uint8_t)j) == 1) inv = (uint8_t)j;
		uint8_t r = 0x63; for(int k = 0; k < 5; k++) r ^= (uint8_t)((inv << k) | (inv >> (8 - k)));
		S[i] = r; IS[r] = (uint8_t)i;
		M[i][0] = mul((uint8_t)i, 2); M[i][1] = mul((uint8_t)i, 3); M[i][2] = mul((uint8_t)i, 9); M[i][3] = mul((uint8_t)i, 11); M[i][4] = mul((uint8_t)i, 13); M[i][5] = mul((uint8_t)i, 14);
	}
	ready = true;
}
struct Key { uint8_t w[240]; };
static void expand(const uint8_t* k, Key& o) {
	memcpy(o.w, k, 32); uint8_t rc = 1;
	for(int i = 8; i < 60; i++) {
		uint8_t t[4]; memcpy(t, o.w + 4 * (i - 1), 4);
		if(i % 8 == 0) { uint8_t x = t[0]; t[0] = S[t[1]] ^ rc; t[1] = S[t[2]]; t[2] = S[t[3]]; t[3] = S[x]; rc = xt(rc); }
		else if(i % 8 == 4) for(auto& x : t) x = S[x];
		for(int j = 0; j < 4; j++) o.w[4 * i + j] = o.w[4 * (i - 8) + j] ^ t[j];
	}
}
static void add(uint8_t* b, const uint8_t* k) { for(int i = 0; i < 16; i++) b[i] ^= k[i]; }
static void enc(uint8_t* b, const Key& k) {
	add(b, k.w);
	for(int r = 1; r <= 14; r++) {
		uint8_t t[16]; for(int c = 0; c < 4; c++) for(int i = 0; i < 4; i++) t[4 * c + i] = S[b[4 * ((c + i) % 4) + i]];
		if(r < 14) for(int c = 0; c < 4; c++) { uint8_t* q = t + 4 * c; uint8_t a0 = q[0], a1 = q[1], a2 = q[2], a3 = q[3];
			b[4*c] = M[a0][0] ^ M[a1][1] ^ a2 ^ a3; b[4*c+1] = a0 ^ M[a1][0] ^ M[a2][1] ^ a3; b[4*c+2] = a0 ^ a1 ^ M[a2][0] ^ M[a3][1]; b[4*c+3] = M[a0][1] ^ a1 ^ a2 ^ M[a3][0]; }
		else memcpy(b, t, 16);
		add(b, k.w + 16 * r);
	}
}
static void dec(uint8_t* b, const Key& k) {
	add(b, k.w + 224);
	for(int r = 13; r >= 0; r--) {
		uint8_t t[16]; for(int c = 0; c < 4; c++) for(int i = 0; i < 4; i++) t[4 * ((c + i) % 4) + i] = IS[b[4 * c + i]];
		add(t, k.w + 16 * r);
		if(r) for(int c = 0; c < 4; c++) { uint8_t* q = t + 4 * c; uint8_t a0 = q[0], a1 = q[1], a2 = q[2], a3 = q[3];
			b[4*c] = M[a0][5] ^ M[a1][3] ^ M[a2][4] ^ M[a3][2]; b[4*c+1] = M[a0][2] ^ M[a1][5] ^ M[a2][3] ^ M[a3][4]; b[4*c+2] = M[a0][4] ^ M[a1][2] ^ M[a2][5] ^ M[a3][3]; b[4*c+3] = M[a0][3] ^ M[a1][4] ^ M[a2][2] ^ M[a3][5]; }
		else memcpy(b, t, 16);
	}
}
static std::string cbc_enc_raw(std::string p, const uint8_t* key, const uint8_t* iv) { // whole blocks, no padding
	Key k; expand(key, k); uint8_t x[16]; memcpy(x, iv, 16);
	for(size_t i = 0; i < p.size(); i += 16) { uint8_t b[16]; memcpy(b, &p[i], 16); add(b, x); enc(b, k); memcpy(x, b, 16); memcpy(&p[i], b, 16); }
	return p;
}
static std::string encrypt(std::string p, const uint8_t* key, const uint8_t* iv) {
	size_t pad = 16 - p.size() % 16; p.append(pad, (char)pad); return cbc_enc_raw(p, key, iv);
}
static std::string cbc_dec_raw(std::string c, const uint8_t* key, const uint8_t* iv) {
	Key k; expand(key, k); uint8_t x[16]; memcpy(x, iv, 16);
	for(size_t i = 0; i < c.size(); i += 16) { uint8_t b[16], n[16]; memcpy(b, &c[i], 16); memcpy(n, b, 16); dec(b, k); add(b, x); memcpy(x, n, 16); memcpy(&c[i], b, 16); }
	return c;
}
static bool decrypt(const std::string& c, const uint8_t* key, const uint8_t* iv, std::string& out) {
	out.clear(); if(c.empty() || c.size() % 16) return false;
	std::string p = cbc_dec_raw(c, key, iv); unsigned pad = (unsigned char)p.back();
	if(pad < 1 || pad > 16) return false;
	for(size_t i = p.size() - pad; i < p.size(); i++) if((unsigned char)p[i] != pad) return false;
	out = p.substr(0, p.size() - pad); return true;
}
static void kat() { // FIPS-197 C.3 and SP 800-38A F.2.5
	static bool done = false; if(done) return; init(); done = true;
	uint8_t k[32], b[16]; for(int i = 0; i < 32; i++) k[i] = (uint8_t)i; for(int i = 0; i < 16; i++) b[i] = (uint8_t)(i * 17);
	static const uint8_t want[16] = { 0x8e,0xa2,0xb7,0xca,0x51,0x67,0x45,0xbf,0xea,0xfc,0x49,0x90,0x4b,0x49,0x60,0x89 };
	Key e; expand(k, e); enc(b, e); bool ok = !memcmp(b, want, 16); dec(b, e); for(int i = 0; i < 16; i++) ok &= b[i] == i * 17;
	static const uint8_t k2[32] = { 0x60,0x3d,0xeb,0x10,0x15,0xca,0x71,0xbe,0x2b,0x73,0xae,0xf0,0x85,0x7d,0x77,0x81,0x1f,0x35,0x2c,0x07,0x3b,0x61,0x08,0xd7,0x2d,0x98,0x10,0xa3,0x09,0x14,0xdf,0xf4 };
	static const uint8_t p2[16] = { 0x6b,0xc1,0xbe,0xe2,0x2e,0x40,0x9f,0x96,0xe9,0x3d,0x7e,0x11,0x73,0x93,0x17,0x2a }, c2[16] = { 0xf5,0x8c,0x4c,0x04,0xd6,0xe5,0xf1,0xba,0x77,0x9e,0xab,0xfb,0x5f,0x7b,0xfb,0xd6 };
	uint8_t iv[16]; for(int i = 0; i < 16; i++) iv[i] = (uint8_t)i;
	std::string r = cbc_enc_raw(std::string((const char*)p2, 16), k2, iv); ok &= !memcmp(r.data(), c2, 16);
	if(!ok) { fprintf(stderr, "reference AES self test failed\n"); _Exit(3); }
}
}

struct KeyIv { Mem k, v; std::string sk, sv; };
static void gen_keyiv(Src& s, KeyIv& o) {
	o.sk.resize(32); o.sv.resize(16); int m = (int)s.below(4); Rng g(s.u32());
	for(size_t i = 0; i < 32; i++) o.sk[i] = m == 0 ? 0 : m == 1 ? (char)i : m == 2 ? (char)0xff : (char)g.next();
	m = (int)s.below(4);
	for(size_t i = 0; i < 16; i++) o.sv[i] = m == 0 ? 0 : m == 1 ? (char)(i * 3) : m == 2 ? (char)0xff : (char)g.next();
	o.k.make(32, (unsigned)s.below(4)); memcpy(o.k.p, o.sk.data(), 32); o.v.make(16, (unsigned)s.below(4)); memcpy(o.v.p, o.sv.data(), 16);
}
// a key and vector related to another one: equal in most bytes, or in one of the two
static void near_keyiv(Src& s, KeyIv& o, const KeyIv& k) {
	o.sk = k.sk; o.sv = k.sv;
	switch(s.below(5)) { case 0: break; case 1: o.sk[s.below(32)] ^= (char)(1 << s.below(8)); break; case 2: o.sv[s.below(16)] ^= (char)(1 << s.below(8)); break; case 3: o.sk[31] ^= 1; break; default: o.sv.assign(16, (char)s.byte()); }
	o.k.make(32, (unsigned)s.below(4)); memcpy(o.k.p, o.sk.data(), 32); o.v.make(16, (unsigned)s.below(4)); memcpy(o.v.p, o.sv.data(), 16);
}
static void keyiv_same(KeyIv& o, const char* what) {
	CHECK(!memcmp(o.k.p, o.sk.data(), 32), "%s modified the key", what); CHECK(!memcmp(o.v.p, o.sv.data(), 16), "%s modified the initialisation vector", what);
	o.k.verify(); o.v.verify();
}
static int crypt_len(Src& s) {
	switch(s.below(6)) {
		case 0: case 1: return s.small_len(80);
		case 2: case 3: { int n = 16 * (int)s.below(8) + (int)s.below(3) - 1; return n < 0 ? 0 : n; }
		case 4: return 16 * (int)s.below(20);
		default: return s.one_in(60) ? s.edge_len() : s.one_in(6) ? (int)s.below(9000) : (int)s.below(300);
	}
}
static std::string gen_plain(Src& s, int len) {
	std::string t = gen_bytes(s, len);
	if(len && s.one_in(3)) { int p = 1 + (int)s.below(18); for(int i = 0; i < p && i < len; i++) t[(size_t)(len - 1 - i)] = (char)p; } // looks like padding
	return t;
}
static Buf& make_buf(World& w, Src& s, const std::string& t, int capreq, bool allow_small, std::unique_ptr<Mem>& own) {
	(void)own;
	if(s.one_in(3)) { // fixed
		int cap = capreq;
		switch(s.below(4)) { case 0: cap = capreq; break; case 1: cap = capreq + (int)s.below(40); break; case 2: cap = allow_small ? (int)t.size() + (int)s.below((uint64_t)(capreq - (int)t.size()) + 1) : capreq; break; case 3: cap = allow_small && capreq > (int)t.size() ? capreq - 1 : capreq + 1; break; }
		own = std::make_unique<Mem>(vb_header() + (size_t)cap + 1, 0);
		Buf& d = w.add(vb_create_fixed(own->p, own->n), cap);
		TR("b%d = fixed, capacity %d", d.id, cap); return d;
	}
	return w.new_dynamic(w.new_ctl((int)s.below(4)));
}
static void load(Buf& d, World& w, const std::string& t) {
	Mem m(t); SV r = vb_assign(&d.b, SV{ m.p, (int)t.size() }); w.after(d, "assign", r, t);
}
static void end_buf(World& w, Buf& d) { w.finish_all(); (void)d; }

static void do_encrypt(World& w, Buf& d, KeyIv& k, bool& wasok) {
	std::string want = ref::encrypt(d.m, (uint8_t*)k.sk.data(), (uint8_t*)k.sv.data());
	bool fits = d.dyn || (int)want.size() <= d.cap;
	TR("encrypt(b%d, %zu bytes) -> expect %s", d.id, d.m.size(), fits ? fmtstr("%zu bytes", want.size()).c_str() : "unchanged (fixed buffer too small)");
	int cap0 = d.cap;
	g_expect_no_alloc = !d.dyn;
	SV r = vb_encrypt(&d.b, (uint8_t*)k.k.p, (uint8_t*)k.v.p);
	g_expect_no_alloc = false;
	keyiv_same(k, "encrypt");
	if(fits) { d.m = want; w.verify(d, "encrypt"); check_view(r, d.b, "encrypt"); }
	else w.verify(d, "encrypt (too small)");
	CHECK(vb_cap(d.b) >= cap0, "encrypt reduced the capacity"); d.cap = vb_cap(d.b);
	if(d.dyn) CHECK(d.ctl->blocks.size() == 1, "encrypt left %zu blocks in the allocator", d.ctl->blocks.size());
	wasok = fits;
}
static void do_decrypt(World& w, Buf& d, KeyIv& k, bool& ok) {
	std::string plain; ok = ref::decrypt(d.m, (uint8_t*)k.sk.data(), (uint8_t*)k.sv.data(), plain);
	TR("decrypt(b%d, %zu bytes, cap %d) -> expect %s", d.id, d.m.size(), d.cap, ok ? fmtstr("%zu bytes %s", plain.size(), show(plain).c_str()).c_str() : "failure");
	int cap0 = d.cap;
	g_expect_no_alloc = !d.dyn;
	SV r = vb_decrypt(&d.b, (uint8_t*)k.k.p, (uint8_t*)k.v.p);
	g_expect_no_alloc = false;
	keyiv_same(k, "decrypt");
	CHECK(vb_size(d.b) >= 0 && vb_size(d.b) <= (int)d.m.size(), "decrypt: size %d outside 0..%zu", vb_size(d.b), d.m.size());
	d.m = ok ? plain : std::string();
	w.verify(d, ok ? "decrypt" : "decrypt (invalid data)");
	if(ok) check_view(r, d.b, "decrypt"); else CHECK(r.data == nullptr, "decrypting invalid data reported a valid view");
	CHECK(vb_cap(d.b) >= cap0, "decrypt reduced the capacity"); d.cap = vb_cap(d.b);
	if(d.dyn) CHECK(d.ctl->blocks.size() == 1, "decrypt left %zu blocks in the allocator", d.ctl->blocks.size());
}

static void crypt_nothing(Src& s, bool enc) { // no buffer: an invalid view, no fault
	KeyIv k; gen_keyiv(s, k); SB* none = nullptr; SB** arg = s.flip() ? &none : nullptr;
	TR("%s without a buffer", enc ? "encrypt" : "decrypt");
	SV r = enc ? vb_encrypt(arg, (uint8_t*)k.k.p, (uint8_t*)k.v.p) : vb_decrypt(arg, (uint8_t*)k.k.p, (uint8_t*)k.v.p);
	CHECK(!r.data && !none, "%s without a buffer gave a view", enc ? "encrypt" : "decrypt"); keyiv_same(k, "the call"); LABEL("no buffer");
}
PROPERTY(C25, "at least one encryption that completed and was decrypted again, or a fixed buffer too small for its ciphertext") {
	ref::kat();
	if(s.one_in(40)) { crypt_nothing(s, true); return; }
	Cfg cfg = {}; cfg.weights[O_APPEND] = 1; cfg.alias_pct = 0; cfg.big = false;
	World w(s, cfg); std::unique_ptr<Mem> own;
	static const bool modest = getenv("VF_SMALL") != nullptr; bool mib = s.one_in(6000) && !modest; if(mib) LABEL("over 1 MiB");
	std::string t = gen_plain(s, mib ? (1 << 20) + (int)s.below(200) - 100 : crypt_len(s)); int need = ((int)t.size() / 16 + 1) * 16;
	Buf& d = make_buf(w, s, t, need, true, own);
	KeyIv k; gen_keyiv(s, k);
	load(d, w, t);
	TR("content %s", show(t).c_str());
	int layers = mib ? 1 : 1 + (int)s.below(3), done = 0; std::vector<std::string> st; bool ok; std::vector<std::unique_ptr<KeyIv>> ks;
	for(int i = 0; i < layers; i++) {
		std::string before = d.m;
		ks.push_back(std::make_unique<KeyIv>()); near_keyiv(s, *ks.back(), i ? *ks[(size_t)i - 1] : k);
		do_encrypt(w, d, *ks.back(), ok);
		if(!ok) { LABEL("fixed too small"); nontrivial(); break; }
		st.push_back(before); done++;
	}
	while(done--) {
		do_decrypt(w, d, *ks[(size_t)done], ok); CHECK(ok && d.m == st[(size_t)done], "decryption did not restore the original");
		LABEL("round trip"); nontrivial();
	}
	if(!d.dyn) LABEL("fixed buffer"); if(t.size() % 16 == 0) LABEL("whole blocks"); if(t.empty()) LABEL("empty content"); if(t.size() > 1000) LABEL("over 1000 bytes"); if(layers > 1) LABEL("layered");
	end_buf(w, d);
}

PROPERTY(C26, "a decryption of content that is not a standard ciphertext made by encryption under the same key and vector, or of a damaged one") {
	ref::kat();
	if(s.one_in(40)) { crypt_nothing(s, false); return; }
	Cfg cfg = {}; cfg.weights[O_APPEND] = 1; cfg.alias_pct = 0; cfg.big = false;
	World w(s, cfg); std::unique_ptr<Mem> own;
	KeyIv k; gen_keyiv(s, k); const uint8_t* kk = (const uint8_t*)k.sk.data(); const uint8_t* iv = (const uint8_t*)k.sv.data();
	std::string t; int how = (int)s.below(7); bool nt = true; int big = s.one_in(80) ? s.edge_len() : 0; if(big) LABEL("long content");
	auto len = [&](int small) { return big ? big : s.small_len(small); }; auto blocks_of = [&](int n) { return big ? big / 16 : (int)s.below((uint64_t)n); };
	if(how == 0) t = gen_bytes(s, len(100));                            // anything
	else if(how == 1) t = gen_bytes(s, 16 * (1 + blocks_of(6)));             // whole blocks of anything
	else if(how == 2) { t = ref::encrypt(gen_bytes(s, len(90)), kk, iv); size_t i = s.below(t.size()); t[i] = (char)(t[i] ^ (1 << s.below(8))); }
	else if(how == 3) { t = ref::encrypt(gen_bytes(s, len(90)), kk, iv); t.resize(t.size() - (s.flip() ? 16 : s.below(t.size()) + 0)); }
	else { // chosen plaintext of the last block: every padding situation
		std::string p = gen_bytes(s, 16 * (1 + blocks_of(4)));
		int pad = (int)s.below(20); if(pad >= 18) pad = (int)s.byte();
		int right = s.one_in(3) ? (int)s.below(17) : (pad < 16 ? pad : 16);
		if(!p.empty()) { for(int i = 0; i < right; i++) p[p.size() - 1 - (size_t)i] = (char)pad; p.back() = (char)pad; if(s.one_in(3) && pad >= 2 && pad <= 16) p[p.size() - (size_t)pad] = (char)(pad + 1 + (int)s.below(3)); }
		t = ref::cbc_enc_raw(p, kk, iv);
		if(how == 6) { t = ref::encrypt(gen_bytes(s, len(60)), kk, iv); nt = false; }
	}
	Buf& d = make_buf(w, s, t, (int)t.size(), false, own);
	load(d, w, t);
	TR("content %s", show(t).c_str());
	int rounds = 1 + (int)s.below(2); bool ok = false;
	if(s.one_in(4)) { // something decrypted just before with a related key
		KeyIv r; near_keyiv(s, r, k); std::string p = gen_bytes(s, 20), c = ref::encrypt(p, (const uint8_t*)r.sk.data(), (const uint8_t*)r.sv.data());
		World w2(s, cfg); Buf& e = w2.new_dynamic(w2.new_ctl(0)); load(e, w2, c); do_decrypt(w2, e, r, ok); CHECK(ok && e.m == p, "decryption under a related key"); end_buf(w2, e); LABEL("related key before");
	}
	for(int i = 0; i < rounds; i++) {
		bool blocks = !d.m.empty() && d.m.size() % 16 == 0;
		do_decrypt(w, d, k, ok);
		if(ok) { LABEL("accepted"); if(d.m.empty()) LABEL("accepted, empty plaintext"); } else if(blocks) LABEL("rejected: padding"); else LABEL("rejected: length");
	}
	if(s.flip()) { std::string x = d.m + "tail"; if(d.dyn || (int)x.size() <= d.cap) { SV r = vb_append(&d.b, SV{ "tail", 4 }); w.after(d, "append after decrypt", r, x); } }
	if(!d.dyn) LABEL("fixed buffer");
	end_buf(w, d);
	if(nt) nontrivial();
}

// ---------------------------------------------------------------- pack
static const int PW[8] = { 1, 1, 2, 2, 4, 4, 8, 8 };
static uint64_t trunc_to(int type, uint64_t v) {
	int bits = PW[type] * 8; if(bits < 64) v &= ((uint64_t)1 << bits) - 1;
	if((type & 1) && bits < 64 && (v >> (bits - 1))) v |= ~(uint64_t)0 << bits;
	return v;
}
static std::string wire(int width, bool be, uint64_t v) { std::string r; for(int i = 0; i < width; i++) r += (char)(v >> (8 * (be ? width - 1 - i : i))); return r; }
static uint64_t gen_int(Src& s) {
	switch(s.below(5)) {
		case 0: return s.below(300); case 1: return 0x0102030405060708ull << (8 * s.below(4));
		case 2: { uint64_t b = (uint64_t)1 << s.below(64); return b - s.below(3) + 1; }
		case 3: return ~s.below(300); default: return s.u64();
	}
}
PROPERTY(C27, "a sequence of at least two packed values, one of them wider than a byte") {
	Cfg cfg = {}; cfg.weights[O_APPEND] = 3; cfg.weights[O_CHAR] = 1; cfg.weights[O_STRIP] = 0; cfg.alias_pct = 0; cfg.big = false;
	World w(s, cfg);
	bool dyn = !s.one_in(4);
	if(dyn) w.new_dynamic(w.new_ctl((int)s.below(4)));
	std::unique_ptr<Mem> own;
	if(!dyn) { own = std::make_unique<Mem>(vb_header() + 400 + 1, 0); w.add(vb_create_fixed(own->p, own->n), 400); }
	Buf& d = *w.bufs[0];
	if(s.flip()) load(d, w, gen_bytes(s, dyn && s.one_in(12) ? s.edge_len() : s.small_len(20)));
	size_t skip = d.m.size();
	struct Item { int type; bool be; uint64_t v; }; std::vector<Item> items; int wide = 0, n = 1 + s.small_len(20);
	for(int i = 0; i < n; i++) {
		int type = (int)s.below(8); bool be = s.flip(); uint64_t v = gen_int(s), tv = trunc_to(type, v); std::string next = d.m;
		if(s.one_in(6)) { // other expression forms
			int e = (int)s.below(8); static const int T[8] = { 2, 5, 6, 6, 4, 2, 6, -1 }; static const bool BE[8] = { true, false, true, false, true, false, true, false };
			uint64_t val; type = T[e]; be = BE[e];
			switch(e) { case 2: val = ~v; break; case 3: val = v ^ 0x55; break; case 6: val = (uint64_t)(uint32_t)v + 1; break; default: val = v; }
			if(e == 7) { type = (v & 1) ? 2 : 5; be = !(v & 1); }
			tv = trunc_to(type, val);
			TR("pack expression form %d: %s%d 0x%llx %s", e, type & 1 ? "int" : "uint", PW[type] * 8, (unsigned long long)tv, be ? "BE" : "LE");
			next += wire(PW[type], be, tv); if(!d.dyn && (int)next.size() > d.cap) break;
			vp_pack_expr(&d.b, e, v); LABEL("expression");
		} else {
			TR("pack %s%d 0x%llx %s", type & 1 ? "int" : "uint", PW[type] * 8, (unsigned long long)tv, be ? "BE" : "LE");
			next += wire(PW[type], be, tv);
			if(!d.dyn && (int)next.size() > d.cap) { vp_pack(&d.b, type, be, v); w.after(d, "pack into a full fixed buffer", vb_view(&d.b), ""); LABEL("full fixed"); items.clear(); skip = 0; break; }
			vp_pack(&d.b, type, be, v);
		}
		w.after(d, "pack", vb_view(&d.b), next);
		items.push_back({ type, be, tv }); if(PW[type] > 1) wide++; if(type & 1) LABEL("signed");
		uint64_t sw = vp_swap(type, tv);
		CHECK(wire(PW[type], true, sw) == wire(PW[type], false, tv), "byte swap of 0x%llx gives 0x%llx", (unsigned long long)tv, (unsigned long long)sw);
		CHECK(vp_swap(type, sw) == tv, "byte swap twice of 0x%llx is not the identity", (unsigned long long)tv);
		for(int op = 0; op < 4; op++) CHECK(vp_conv(type, op, tv) == ((op & 1) ? sw : tv), "endian conversion %d of 0x%llx", op, (unsigned long long)tv);
	}
	if(s.one_in(4)) { std::string t = gen_bytes(s, s.one_in(6) ? s.edge_len() : s.small_len(30)); if(d.dyn || (int)(d.m.size() + t.size()) <= d.cap) { Mem tm(t); TR("append %zu more bytes", t.size()); SV r = vb_append(&d.b, SV{ tm.p, (int)t.size() }); w.after(d, "append", r, d.m + t); } }
	std::string all = d.m; Mem m(all); SV v = { m.p + skip, (int)(all.size() - skip) };
	if(!items.empty()) {
		size_t at = skip, upto = items.size() - (s.one_in(4) ? s.below(items.size()) : 0);
		for(size_t i = 0; i < upto; i++) {
			Item& it = items[i]; uint64_t got = vp_unpack(&v, it.type, it.be);
			CHECK(got == it.v, "unpacked 0x%llx, packed 0x%llx (%s%d %s)", (unsigned long long)got, (unsigned long long)it.v, it.type & 1 ? "int" : "uint", PW[it.type] * 8, it.be ? "BE" : "LE");
			at += (size_t)PW[it.type];
			CHECK((size_t)v.size == all.size() - at && (v.size == 0 || v.data == m.p + at), "unpacking consumed the wrong number of bytes: %d left, expected %zu", v.size, all.size() - at);
		}
		CHECK(!memcmp(m.p, all.data(), all.size()), "unpacking modified the source");
	}
	if(items.size() >= 2 && wide) nontrivial();
	w.finish_all();
}

// ---------------------------------------------------------------- stream I/O
struct Io {
	bool active = false, real = false; int fd = 0;
	int calls = 0; bool is_read = false; const void* buf = nullptr; size_t len = 0; std::string seen;
	long ret = 0; int err = 0; std::string give;
};
static Io g_io;
extern "C" ssize_t vf_read(int fd, void* dst, size_t n) {
	CHECK(g_io.active, "read() called unexpectedly"); CHECK(fd == g_io.fd, "read() from file descriptor %d instead of %d", fd, g_io.fd);
	g_io.calls++; g_io.is_read = true; g_io.buf = dst; g_io.len = n;
	if(g_io.real) { ssize_t r = ::read(fd, dst, n); g_io.ret = r; g_io.give.assign((char*)dst, r > 0 ? (size_t)r : 0); return r; }
	if(g_io.ret < 0) { errno = g_io.err; return -1; }
	size_t k = (size_t)g_io.ret; if(k > n) k = n; if(k > g_io.give.size()) k = g_io.give.size();
	if(k) memcpy(dst, g_io.give.data(), k);
	g_io.ret = (long)k; g_io.give.resize(k); return (ssize_t)k;
}
extern "C" ssize_t vf_write(int fd, const void* src, size_t n) {
	CHECK(g_io.active, "write() called unexpectedly"); CHECK(fd == g_io.fd, "write() to file descriptor %d instead of %d", fd, g_io.fd);
	g_io.calls++; g_io.is_read = false; g_io.buf = src; g_io.len = n; g_io.seen.assign((const char*)src, n);
	if(g_io.real) { ssize_t r = ::write(fd, src, n); g_io.ret = r; return r; }
	if(g_io.ret < 0) { errno = g_io.err; return -1; }
	size_t k = (size_t)g_io.ret; if(k > n) k = n; g_io.ret = (long)k; return (ssize_t)k;
}
static int any_fd(Src& s) { switch(s.below(8)) { case 0: return (int)s.below(3); case 1: return (int)s.pick({ 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 1000, 1023, 1024, 4096, 65535, 65536 }); case 2: return (int)(s.u32() >> (1 + s.below(31))); case 3: return INT_MAX - (int)s.below(2); default: return (int)s.below(5) + 3; } }
static void plan(Src& s, size_t n, bool rd) {
	g_io = Io(); g_io.active = true; g_io.fd = any_fd(s);
	if(s.one_in(24)) { g_io.fd = s.flip() ? -1 : -1 - (int)(s.u32() >> (1 + s.below(31))); g_io.ret = -1; g_io.err = EBADF; LABEL("negative descriptor"); return; }
	static const int E[] = { EINTR, EAGAIN, EIO, EPIPE, ENOSPC };
	switch(s.weighted({ 4, 4, 2, 2, 1 })) {
		case 0: g_io.ret = (long)n; break; case 1: g_io.ret = (long)s.below(n + 1); break; case 2: g_io.ret = -1; g_io.err = s.pick(E); break; case 3: g_io.ret = n ? 1 : 0; break; default: g_io.ret = 0; break;
	}
	if(rd && g_io.ret > 0) g_io.give = gen_bytes(s, (int)g_io.ret);
}
static int st_short, st_err, st_zero, st_full;
static void count(long ret, size_t n) { if(ret < 0) st_err++; else if(ret == 0) st_zero++; else if((size_t)ret < n) st_short++; else st_full++; }
// a descriptor that cannot be open may be refused without asking the system, with the system's answer
static bool no_call(int err) { return g_io.calls == 0 && g_io.fd < 0 && g_io.ret < 0 && g_io.err == err; }
static void do_read(World& w, Buf& d, Src& s, std::string* pipe) {
	size_t room = (size_t)(d.cap - (int)d.m.size());
	if(pipe) { plan(s, room < pipe->size() ? room : pipe->size(), false); if(g_io.ret > 0) g_io.give = pipe->substr(0, (size_t)g_io.ret); }
	else if(!g_io.real) plan(s, room, true);
	g_expect_no_alloc = true; errno = 0;
	int r = vio_append_read(&d.b, g_io.fd); int e = errno;
	g_expect_no_alloc = false; g_io.active = false;
	TR("append_read(b%d {size %zu, cap %d}) -> %d %s", d.id, d.m.size(), d.cap, r, show(g_io.give).c_str());
	CHECK(no_call(EBADF) || (g_io.calls == 1 && g_io.is_read), "append_read issued %d system calls", g_io.calls);
	if(g_io.calls) CHECK(g_io.len == room, "append_read requested %zu bytes with %zu free", g_io.len, room);
	CHECK(r == g_io.ret, "append_read returned %d, read() returned %ld", r, g_io.ret);
	if(g_io.ret < 0 && !g_io.real) CHECK(e == g_io.err, "errno lost");
	int cap0 = d.cap;
	if(r > 0) d.m += g_io.give;
	w.verify(d, "append_read"); CHECK(vb_cap(d.b) == cap0, "append_read changed the capacity");
	if(pipe && r > 0) pipe->erase(0, (size_t)r);
	count(r, room); w.ops++;
}
static void do_write(World& w, Buf& d, Src& s, std::string* pipe) {
	size_t n = d.m.size();
	if(!g_io.real) plan(s, n, false);
	errno = 0; g_expect_no_alloc = true;
	int r = vio_write(g_io.fd, &d.b); int e = errno;
	g_expect_no_alloc = false; g_io.active = false;
	TR("write(b%d {size %zu}) -> %d", d.id, n, r);
	CHECK(no_call(EBADF) || (g_io.calls == 1 && !g_io.is_read), "write issued %d system calls", g_io.calls);
	if(g_io.calls) CHECK(g_io.seen == d.m, "write offered %s, content is %s", show(g_io.seen).c_str(), show(d.m).c_str());
	CHECK(r == g_io.ret, "write returned %d, write() returned %ld", r, g_io.ret);
	if(g_io.ret < 0 && !g_io.real) CHECK(e == g_io.err, "errno lost");
	int cap0 = d.cap;
	if(r > 0) { if(pipe) *pipe += d.m.substr(0, (size_t)r); d.m.erase(0, (size_t)r); }
	w.verify(d, "write"); CHECK(vb_cap(d.b) == cap0, "write changed the capacity");
	count(r, n); w.ops++;
}
PROPERTY(C28, "at least one short, failing or zero-length transfer and one transfer that moved bytes") {
	Cfg cfg = {}; cfg.weights[O_APPEND] = 4; cfg.weights[O_CHAR] = 1; cfg.weights[O_SHRINK] = 1; cfg.weights[O_GROW] = 2; cfg.alias_pct = 2; cfg.big = true;
	World w(s, cfg); st_short = st_err = st_zero = st_full = 0; g_io = Io();
	auto mk = [&]() -> Buf& { return s.one_in(3) ? w.new_fixed() : w.new_dynamic(w.new_ctl((int)s.below(4))); };
	int mode = (int)s.below(4);
	if(mode == 0) { // random history on one buffer
		Buf& d = mk(); int n = 2 + s.small_len(24);
		for(int i = 0; i < n; i++) switch(s.below(3)) { case 0: w.one(d); break; case 1: do_read(w, d, s, nullptr); break; default: do_write(w, d, s, nullptr); }
		LABEL("history");
	} else if(mode == 1) { // producer -> channel -> consumer, nothing lost, duplicated or reordered
		Buf& a = mk(); Buf& b = mk(); std::string channel, sent = b.m + a.m, got;
		int n = 4 + s.small_len(40);
		for(int i = 0; i < n; i++) switch(s.below(5)) {
			case 0: { std::string t = gen_bytes(s, s.small_len(50)); if(!a.dyn && (int)(a.m.size() + t.size()) > a.cap) t.resize((size_t)(a.cap - (int)a.m.size()));
				Mem m(t); TR("append(b0, %s)", show(t).c_str()); SV r = vb_append(&a.b, SV{ m.p, (int)t.size() }); sent += t; w.after(a, "append", r, a.m + t); } break;
			case 1: do_write(w, a, s, &channel); break;
			case 2: do_read(w, b, s, &channel); break;
			case 3: if(b.dyn) { int g = (int)b.m.size() + (int)s.below(60); SV r = vb_grow(&b.b, g); w.after(b, "grow", r, b.m, true, false, g < b.cap ? b.cap : g); } break;
			default: { // consumer takes some of what it has
				size_t k = s.below(b.m.size() + 1); got += b.m.substr(0, k); std::string rest = b.m.substr(k); SV v = { vb_cstr(b.b) + k, (int)rest.size() };
				TR("consume %zu bytes of b1", k); SV r = vb_assign(&b.b, v); w.after(b, "assign tail", r, rest); } break;
		}
		CHECK(got + b.m + channel + a.m == sent, "bytes lost, duplicated or reordered between producer and consumer");
		LABEL("producer/consumer");
	} else if(mode == 2) { // views
		std::string t = gen_bytes(s, s.one_in(10) ? (s.one_in(4) ? s.edge_len() * (1 + (int)s.below(6)) : s.flip() ? s.edge_len() : (int)s.below(4000)) : s.small_len(60)), out; Mem m(t); SV v = { m.p, (int)t.size() }; size_t at = 0;
		bool inv = s.one_in(10);
		if(inv) { v = SV{ nullptr, 0 }; g_io = Io(); CHECK(vio_view_write(3, &v) == 0 && g_io.calls == 0, "writing an invalid view"); CHECK(!v.data && v.size == 0, "invalid view changed"); CHECK(vio_view_write(3, nullptr) == 0 && g_io.calls == 0, "writing no view"); LABEL("invalid view"); nontrivial(); return; }
		int n = 1 + s.small_len(12);
		for(int i = 0; i < n && v.data; i++) {
			plan(s, t.size() - at, false); errno = 0; SV v0 = v;
			int r = vio_view_write(g_io.fd, &v); int e = errno; g_io.active = false;
			TR("view write(%zu left) -> %d", t.size() - at, r);
			CHECK(no_call(EBADF) || (g_io.calls == 1 && !g_io.is_read), "view write issued %d system calls", g_io.calls);
			if(g_io.calls) CHECK(g_io.seen == t.substr(at), "view write offered %s", show(g_io.seen).c_str());
			CHECK(r == g_io.ret, "view write returned %d, write() %ld", r, g_io.ret);
			if(r < 0) CHECK(e == g_io.err, "errno lost");
			count(r, t.size() - at);
			if(r > 0) { out += g_io.seen.substr(0, (size_t)r); at += (size_t)r; }
			if(r <= 0) CHECK(v.data == v0.data && v.size == v0.size, "a failed write changed the view");
			CHECK((size_t)v.size == t.size() - at && (v.size == 0 || v.data == m.p + at), "view after writing: %d left, expected %zu", v.size, t.size() - at);
			if(v.size == 0) break;
		}
		CHECK(out == t.substr(0, at) && !memcmp(m.p, t.data(), t.size()), "written bytes differ, or the text was modified");
		LABEL("view");
	} else { // a real non-blocking stream socket pair, with a small kernel buffer
		int sv[2]; if(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv)) { LABEL("no socket"); return; }
		int sz = 2048; setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
		Buf& a = mk(); Buf& b = mk(); std::string sent = b.m + a.m, channel, got; int n = 4 + s.small_len(24);
		auto arm = [&](int fd) { g_io = Io(); g_io.active = g_io.real = true; g_io.fd = fd; };
		for(int i = 0; i < n; i++) switch(s.below(4)) {
			case 0: { std::string t = gen_bytes(s, s.one_in(6) ? (int)s.below(12000) : s.small_len(60)); if(!a.dyn && (int)(a.m.size() + t.size()) > a.cap) t.resize((size_t)(a.cap - (int)a.m.size()));
				Mem m(t); SV r = vb_append(&a.b, SV{ m.p, (int)t.size() }); sent += t; w.after(a, "append", r, a.m + t); } break;
			case 1: arm(sv[0]); do_write(w, a, s, &channel); break;
			case 2: { arm(sv[1]); size_t k = b.m.size(); do_read(w, b, s, nullptr); std::string in = b.m.substr(k); CHECK(channel.compare(0, in.size(), in) == 0, "bytes read differ from the bytes written"); channel.erase(0, in.size()); } break;
			default: { size_t k = s.below(b.m.size() + 1); got += b.m.substr(0, k); std::string rest = b.m.substr(k); SV v = { vb_cstr(b.b) + k, (int)rest.size() }; SV r = vb_assign(&b.b, v); w.after(b, "assign tail", r, rest); } break;
		}
		close(sv[0]); close(sv[1]);
		CHECK(got + b.m + channel + a.m == sent, "bytes lost, duplicated or reordered through the socket");
		LABEL("socket");
	}
	SB* none = nullptr; if(s.one_in(8)) { g_io = Io(); CHECK(vio_append_read(&none, 3) == 0 && vio_write(3, &none) == 0 && vio_append_read(nullptr, 3) == 0 && vio_write(3, nullptr) == 0 && g_io.calls == 0, "transfer without a buffer"); }
	if((st_short || st_err || st_zero) && (st_short || st_full)) nontrivial();
	if(st_short) LABEL("short"); if(st_err) LABEL("error"); if(st_zero) LABEL("zero"); if(st_full) LABEL("complete");
	w.finish_all();
}

// ---------------------------------------------------------------- URI example
extern "C" int vf_uri_main(int argc, const char* argv[]);
struct Comp { bool has[5]; std::string v[5]; };
static const char* const CN[5] = { "scheme", "host", "path", "user", "port" };
static Comp run_uri(const std::string& uri) {
	Mem m(cstr_mem(uri)); const char* argv[3] = { "parse-uri", m.p, nullptr };
	char* out = nullptr; size_t n = 0; FILE* real = stdout; FILE* f = open_memstream(&out, &n); if(!f) { fprintf(stderr, "open_memstream\n"); _Exit(3); }
	stdout = f; int rc = vf_uri_main(2, argv); fflush(f); stdout = real; fclose(f);
	std::string text(out, n); free(out);
	CHECK(rc == 0, "the example exited with %d", rc);
	CHECK(!memcmp(m.p, uri.c_str(), uri.size() + 1), "the uri was modified");
	Comp c = {}; size_t i = 0;
	while(i < text.size()) {
		size_t e = text.find('\n', i); CHECK(e != std::string::npos, "unterminated output line in %s", show(text).c_str());
		std::string l = text.substr(i, e - i); i = e + 1; if(l.empty()) continue;
		int k = -1; for(int j = 0; j < 5; j++) if(l.compare(0, strlen(CN[j]), CN[j]) == 0) k = j;
		size_t q = l.find('"');
		CHECK(k >= 0 && q != std::string::npos && l.size() > q + 1 && l.back() == '"', "unexpected output line %s", show(l).c_str());
		CHECK(!c.has[k], "%s reported twice", CN[k]);
		c.has[k] = true; c.v[k] = l.substr(q + 1, l.size() - q - 2);
	}
	return c;
}
static std::string word(Src& s, const char* first, const char* rest, int max) { std::string r = gen_text(s, 1, first); return r + gen_text(s, s.one_in(12) ? (int)s.below(s.one_in(4) ? 400 : 60) : s.small_len(max), rest); }
PROPERTY(C30, "a composed URI with at least two components, or non-empty arbitrary text") {
	static const char* AL = "abcdehmnoprstxyzABZ"; static const char* AN = "abctz019-._AZ"; 
	if(s.one_in(3)) { // arbitrary text
		std::string t; int len = s.small_len(60), how = (int)s.below(3);
		if(how == 0) t = gen_text(s, len, "a:/@1.h");
		else if(how == 1) { t = gen_bytes(s, len); for(char& c : t) if(!c || c == '\n') c = ':'; }
		else { static const char* P[] = { "http", ":", "//", "/", "@", "host", "80", "://", ":80", "", "x.y" }; for(int i = 0; i < len / 3 + 1; i++) t += s.pick(P); }
		TR("uri %s", show(t).c_str());
		Comp c = run_uri(t);
		for(int i = 0; i < 5; i++) if(c.has[i]) CHECK(t.find(c.v[i]) != std::string::npos, "%s %s is not a piece of the text %s", CN[i], show(c.v[i]).c_str(), show(t).c_str());
		if(!t.empty()) nontrivial();
		LABEL("arbitrary");
		return;
	}
	Comp want = {}; std::string uri;
	auto set = [&](int i, const std::string& v) { want.has[i] = true; want.v[i] = v; };
	auto path = [&](bool alpha) { std::string p = word(s, alpha ? AL : AN, AN, 12); int k = (int)s.below(3); for(int i = 0; i < k; i++) p += "/" + word(s, AN, AN, 8); return p; };
	if(s.one_in(4)) { // scheme: or scheme:path
		set(0, word(s, AL, "abctz019+-.", 8)); uri = want.v[0] + ":";
		if(!s.one_in(3)) { set(2, path(true)); uri += want.v[2]; }
		LABEL("scheme only");
	} else {
		if(s.flip()) { set(0, word(s, AL, "abctz019+-.", 8)); uri = want.v[0] + "://"; LABEL("with scheme"); }
		if(s.flip()) { set(3, word(s, AN, AN, 10)); uri += want.v[3] + "@"; LABEL("with user"); }
		set(1, word(s, AN, AN, 14)); uri += want.v[1];
		if(s.flip()) { set(4, word(s, "0123456789", "0123456789", 4)); uri += ":" + want.v[4]; LABEL("with port"); }
		if(s.flip()) { set(2, path(false)); uri += "/" + want.v[2]; LABEL("with path"); }
	}
	TR("uri %s", show(uri).c_str());
	Comp c = run_uri(uri); int n = 0;
	for(int i = 0; i < 5; i++) {
		CHECK(c.has[i] == want.has[i], "uri %s: %s %s", show(uri).c_str(), CN[i], c.has[i] ? "reported although absent" : "not reported");
		CHECK(c.v[i] == want.v[i], "uri %s: %s reported as %s, expected %s", show(uri).c_str(), CN[i], show(c.v[i]).c_str(), show(want.v[i]).c_str());
		n += want.has[i];
	}
	if(n >= 2) nontrivial();
}
