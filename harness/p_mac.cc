// C35: the interface macros behave like functions, whatever their argument expressions
#include "bufworld.h"
#include <cmath>

static const size_t NSIZE[N_TYPES] = { 1, sizeof(short), sizeof(int), sizeof(long), sizeof(long long), 1, sizeof(short), sizeof(int), sizeof(long), sizeof(long long), sizeof(float), sizeof(double), sizeof(long double) };
static const size_t NBYTES[N_TYPES] = { 1, sizeof(short), sizeof(int), sizeof(long), sizeof(long long), 1, sizeof(short), sizeof(int), sizeof(long), sizeof(long long), sizeof(float), sizeof(double), 10 };
static const int PW[8] = { 1, 1, 2, 2, 4, 4, 8, 8 };
static uint64_t narrow(int type, uint64_t v) {
	int bits = PW[type] * 8; if(bits < 64) v &= ((uint64_t)1 << bits) - 1;
	if((type & 1) && bits < 64 && (v >> (bits - 1))) v |= ~(uint64_t)0 << bits;
	return v;
}
static std::string wire(int width, bool be, uint64_t v) { std::string r; for(int i = 0; i < width; i++) r += (char)(v >> (8 * (be ? width - 1 - i : i))); return r; }
struct Got { int extra, calls; bool runtime; };
static void got(SB* b, int want, void* user) {
	Got* g = (Got*)user; g->calls++;
	CHECK(g->runtime || want == g->extra, "capacity expression evaluated to %d", want);
	if(g->runtime) { CHECK(vb_cap(b) >= want && vb_cap(b) < want + 16, "a space for %d characters has capacity %d", want, vb_cap(b)); want = vb_cap(b); }
	CHECK(vb_cap(b) == want && vb_size(b) == 0 && vb_cstr(b)[0] == 0 && !vb_is_dynamic(b), "space declared with a capacity of %d has capacity %d, size %d", want, vb_cap(b), vb_size(b));
	std::string t((size_t)want, 'q'), u; Mem m(t);
	for(int round = 0; round < 2; round++) {
		if(round) { SV e = vb_assign(&b, SV{ m.p, 0 }); CHECK(e.size == 0, "emptying"); }
		SV r = vb_append(&b, SV{ m.p, want }); CHECK(r.size == want, "a space declared with a capacity of %d does not hold %d characters", want, want); check_state(b, t, "filled");
	}
	SV r = vb_append_char(&b, 'x'); CHECK(r.size == 0, "a space declared with a capacity of %d holds more", want); check_state(b, "", "overfilled");
}
// the operand standing for a source: a view, or a C string
struct Operand { std::string text; std::unique_ptr<Mem> mem, other; bool valid = true; };
static void source(Src& s, const MI& f, MA& a, Operand& o, const std::string& text) {
	o.text = text; a.w = { "unused", 6 }; a.s = "unused";
	if(f.kind == 0) { if(s.one_in(14)) { o.text.clear(); o.valid = false; a.w = { nullptr, 0 }; } else { o.mem = std::make_unique<Mem>(o.text); a.w = { o.mem->p, (int)o.text.size() }; } }
	else if(f.kind == 3) o.text = f.lit;
	else if(f.kind < 3) {
		for(char& c : o.text) if(!c) c = '0';
		if(f.kind == 2 && o.text.size() > 50) o.text.resize(50);
		o.mem = std::make_unique<Mem>("P" + o.text + std::string(1, 0)); a.s = o.mem->p + 1;
	}
}
static void counted(const MI& f, const MA& a, int k) {
	static const char* const NM[3] = { "first", "source", "position, option or allocator" };
	for(int i = 0; i < 3; i++) if(f.want[i] >= 0) CHECK(a.n[i] == f.want[i], "call site %d (operation %d): its %s operand was evaluated %ld times instead of %d", k, f.op, NM[i], a.n[i], f.want[i]);
	CHECK(a.n[3] != 99, "call site %d (operation %d): wrong result in a condition", k, f.op);
}
static std::string number(Src& s) {
	std::string t = s.one_in(5) ? std::string(s.below(3), ' ') : ""; if(s.one_in(3)) t += s.pick({ "-", "+" }); if(s.one_in(4)) t += s.pick({ "0x", "0b", "0B", "0X" });
	t += s.one_in(10) ? gen_text(s, s.small_len(6), "0123456789abcdefxyz. -") : s.flip() ? std::to_string(s.u64() >> s.below(64)) : gen_text(s, 1 + (int)s.below(4), "01");
	if(s.one_in(4)) t += "." + std::to_string(s.below(1000)); if(s.one_in(6)) t += "e" + std::to_string(s.below(9)); if(s.one_in(3)) t += gen_text(s, s.small_len(4), " x,-1");
	return t;
}
PROPERTY(C35, "a call site with a counted operand, a C string source or a capacity, packing or number expression") {
	static int count = vm_count(); MI f; int k; do { k = (int)s.below((uint64_t)count); vm_info(k, &f); } while(f.op < 0 && !s.exhausted()); if(f.op < 0) return;
	MA a; memset(&a, 0, sizeof a); a.vc = f.op < 20 ? 2 : 0; a.n9 = s.flip() ? 9 : 41; a.v = { "unused", 6 }; a.w = a.v; a.s = "unused"; for(SV& c : a.c) c = a.v; a.dst = &a; a.num = s.flip() ? s.u64() : s.u64() >> s.below(64); a.i = 3;
	if(f.want[0] > 0 || f.want[1] > 0 || f.want[2] > 0 || f.kind == 1 || f.kind == 2 || f.op == 9 || f.op == 10 || f.op >= 40) nontrivial();
	Operand o; Cfg cfg = {}; cfg.big = false; World w(s, cfg);
	static const char* const NM[] = { "append", "prepend", "insert_at_index", "insert_before", "insert_after", "strip", "cat" };
	auto buffer = [&](size_t room) -> Buf& {
		std::string t = gen_bytes(s, s.small_len(30));
		if(s.one_in(4)) { // fixed, large enough
			auto d = std::make_unique<Buf>(); d->dyn = false; int cap = (int)(t.size() + room + s.below(4)); d->mem = std::make_unique<Mem>(vb_header() + (size_t)cap + 1); d->b = vb_create_fixed(d->mem->p, d->mem->n); d->cap = cap; w.bufs.push_back(std::move(d));
		} else w.new_dynamic(w.new_ctl((int)s.below(4)));
		Buf& d = *w.bufs[0]; Mem m(t); SV r = vb_assign(&d.b, SV{ m.p, (int)t.size() }); w.after(d, "assign", r, t); return d;
	};
	if(f.op <= 6) {
		LABEL("buffer macro");
		std::string text = gen_bytes(s, s.small_len(60)); Buf& d = buffer(f.op == 6 ? (size_t)f.extra * 40 + 4 : text.size() + 4); int n = (int)d.m.size(); std::string next = d.m;
		source(s, f, a, o, f.op == 5 && n && s.flip() ? d.m.substr(s.below((uint64_t)n), 1 + s.below(3)) : text);
		int from = (int)s.below((uint64_t)n + 1), len = (int)s.below((uint64_t)(n - from) + 1); std::vector<std::unique_ptr<Mem>> keep;
		switch(f.op) {
			case 0: next += o.text; break;
			case 1: next = o.text + next; break;
			case 2: { a.i = s.one_in(4) ? s.range(-30000, 30000) : (int)s.below((uint64_t)n + 1) - (s.flip() ? n : 0); int at = a.i > n ? n : a.i < 0 ? (a.i + n < 0 ? 0 : a.i + n) : a.i; next.insert((size_t)at, o.text); } break;
			case 3: case 4: a.v = { vb_cstr(d.b) + from, len }; next.insert((size_t)(f.op == 3 ? from : from + len), o.text); break;
			case 5: { std::string kept; for(char c : next) if(o.text.find(c) == std::string::npos) kept += c; next = kept; } break;
			default: next.clear(); for(int i = 0; i < f.extra; i++) { std::string t = gen_bytes(s, s.small_len(f.extra > 40 ? 8 : 40)); keep.push_back(std::make_unique<Mem>(t)); a.c[i] = s.one_in(20) ? SV{ nullptr, 0 } : SV{ keep.back()->p, (int)t.size() }; if(a.c[i].data) next += t; }
		}
		TR("call site %d: %s(%s)", k, NM[f.op], show(o.text).c_str());
		a.b = d.b; vm_call(k, &a); d.b = a.b; counted(f, a, k);
		w.after(d, NM[f.op], a.size_only ? SV{ vb_cstr(d.b), a.out.size } : a.out, next); w.finish_all();
	} else if(f.op <= 8) {
		LABEL("create macro");
		source(s, f, a, o, gen_bytes(s, s.small_len(60))); if(f.op == 7) { a.i = s.small_len(300); o.text.clear(); }
		Ctl* c = w.new_ctl((int)s.below(4)); a.app = c; TR("call site %d: create(%s)", k, f.op == 7 ? std::to_string(a.i).c_str() : show(o.text).c_str());
		vm_call(k, &a); counted(f, a, k); CHECK(a.b, "no buffer was created");
		auto d = std::make_unique<Buf>(); d->b = a.b; d->ctl = c; d->m = o.text; d->cap = vb_cap(a.b); if(f.op == 7) CHECK(d->cap == a.i, "created with capacity %d but has %d", a.i, d->cap);
		w.bufs.push_back(std::move(d)); w.verify(*w.bufs[0], "create"); Mem m("more"); SV r = vb_append(&w.bufs[0]->b, SV{ m.p, 4 }); w.after(*w.bufs[0], "append", r, o.text + "more"); w.finish_all();
	} else if(f.op <= 10) {
		LABEL("capacity expression");
		Got g = { f.extra, 0, f.op == 10 }; a.got = got; a.user = &g; TR("call site %d: a capacity given as an expression (%d)", k, f.extra); vm_call(k, &a); CHECK(g.calls == 1, "harness");
	} else if(f.op <= 30) {
		LABEL("view macro");
		std::string t = gen_bytes(s, s.small_len(40)), u = t.empty() || s.one_in(3) ? gen_bytes(s, s.small_len(5)) : t.substr(s.one_in(3) ? 0 : s.below(t.size()), 1 + s.below(4)); if(s.one_in(4)) for(char& c : u) if(c >= 'a' && c <= 'z') c ^= 0x20; if(s.one_in(6)) u = t;
		Mem m(t); if(s.one_in(16)) a.v = { nullptr, 0 }; else a.v = { m.p, (int)t.size() };
		source(s, f, a, o, u); Mem um(o.text); SV uv = { um.p, (int)o.text.size() }; if(!o.valid) uv = SV{ nullptr, 0 };
		TR("call site %d: view operation %d on %s, %s", k, f.op, a.v.data ? show(t).c_str() : "invalid", uv.data ? show(o.text).c_str() : "invalid");
		SV r = { nullptr, 0 }; bool q = false;
		switch(f.op) {
			case 20: q = vs_match(a.v, uv); break; case 21: q = vs_match_nc(a.v, uv); break; case 22: q = vs_starts(a.v, uv); break; case 23: q = vs_starts_nc(a.v, uv); break;
			case 24: case 25: case 26: r = vs_trim(f.op - 24, a.v, uv); break;
			case 27: case 28: case 29: case 30: r = vs_find(f.op >= 29, (f.op - 27) & 1, a.v, uv); break;
			default: FAIL("harness");
		}
		vm_call(k, &a); counted(f, a, k);
		if(f.op < 24) CHECK(a.r == (int)q, "call site %d: %d, with plain operands %d", k, a.r, (int)q);
		else CHECK(a.out.size == r.size && (a.size_only || a.out.data == r.data), "call site %d: a view of %d bytes, with plain operands one of %d", k, a.out.size, r.size);
		m.verify(); um.verify();
	} else if(f.op < 60) {
		LABEL("number macro");
		int type = f.op - 40; std::string t = number(s); Mem m(t), d1(NSIZE[type] * 2), d2(NSIZE[type]); memset(d1.p, 0x3C, d1.n); memset(d2.p, 0x3C, d2.n);
		static const int O[] = { 0, 0, 1, 2, 3, 4, 5, 6 }; a.o = vn_opt(s.pick(O)); if(s.one_in(4)) a.o |= vn_opt(4 + (int)s.below(3));
		a.v = { m.p, (int)t.size() }; a.dst = d1.p + NSIZE[type]; a.dst_size = NSIZE[type]; SV v2 = a.v; int e2 = vn_value(type, d2.p, &v2, a.o);
		TR("call site %d: type %d of %s, options 0x%x", k, type, show(t).c_str(), a.o);
		vm_call(k, &a); counted(f, a, k);
		CHECK(a.r == e2 && a.v_after.data == v2.data && a.v_after.size == v2.size && !memcmp(d1.p + NSIZE[type], d2.p, NBYTES[type]), "call site %d: error %d, %d bytes left; with plain operands error %d, %d bytes left", k, a.r, a.v_after.size, e2, v2.size);
		for(size_t i = 0; i < NSIZE[type]; i++) CHECK(d1.p[i] == 0x3C, "call site %d: wrote before the destination", k);
		d1.verify(); d2.verify(); m.verify();
	} else if(f.op < 70) {
		LABEL("pack macro");
		int type = f.op - 60; if((type == 5 && (int32_t)a.num == INT32_MAX) || (type == 7 && (int64_t)a.num == INT64_MAX)) a.num--;
		Buf& d = buffer(8); TR("call site %d: pack type %d %s 0x%llx", k, type, f.extra ? "BE" : "LE", (unsigned long long)narrow(type, a.num));
		std::string next = d.m + wire(PW[type], f.extra, narrow(type, a.num)); a.b = d.b; vm_call(k, &a); d.b = a.b; counted(f, a, k); w.after(d, "pack", vb_view(&d.b), next); w.finish_all();
	} else if(f.op < 80) {
		LABEL("unpack macro");
		int type = f.op - 70; std::string t = wire(PW[type], f.extra, a.num) + gen_bytes(s, s.small_len(8)); Mem m(t); a.v = { m.p, (int)t.size() };
		TR("call site %d: unpack type %d %s from %s", k, type, f.extra ? "BE" : "LE", show(t).c_str());
		vm_call(k, &a); counted(f, a, k);
		CHECK(a.wide == narrow(type, a.num), "call site %d: unpacked 0x%llx", k, (unsigned long long)a.wide);
		CHECK(a.out.size == (int)t.size() - PW[type] && (a.out.size == 0 || a.out.data == m.p + PW[type]), "call site %d: %d bytes left of %zu", k, a.out.size, t.size()); m.verify();
	} else if(f.op < 90) {
		LABEL("swap macro");
		int type = f.op - 80; TR("call site %d: swap type %d 0x%llx", k, type, (unsigned long long)narrow(type, a.num)); vm_call(k, &a); counted(f, a, k);
		CHECK(wire(PW[type], true, a.wide) == wire(PW[type], false, a.num), "call site %d: swapping 0x%llx gives 0x%llx", k, (unsigned long long)narrow(type, a.num), (unsigned long long)a.wide);
	} else if(f.op == 90) {
		LABEL("literal macro"); vm_call(k, &a); TR("call site %d: a view of a literal", k);
		CHECK(a.out.size == a.r && !memcmp(a.out.data, a.lit, (size_t)a.r), "call site %d: a view of %d bytes of a literal of %d", k, a.out.size, a.r);
	} else {
		LABEL("print macro");
		std::string t = gen_bytes(s, s.small_len(80)); for(char& c : t) if(!c) c = '0'; Mem m(t); a.v = { m.p, (int)t.size() }; TR("call site %d: print %s", k, show(t).c_str());
		vm_call(k, &a); std::string want = "<" + t + "|42>"; CHECK(a.r == (int)want.size() && a.print == want, "call site %d: printed %s", k, show(a.print, strlen(a.print)).c_str());
	}
}
