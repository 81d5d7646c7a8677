// Buffer properties C01-C09.
#include "bufworld.h"
#include <cwchar>

#define W(...) { __VA_ARGS__ }
//                       app pre ins bef aft asg cat vct chr stp use ptf prn shr grw viw bst
static const Cfg CFG_ALL   = { W(6, 5, 5, 3, 3, 4, 5, 2, 4, 4, 4, 3, 2, 3, 3, 1, 1), 3 };
static const Cfg CFG_ALIAS = { W(6, 6, 8, 5, 5, 4, 5, 2, 2, 4, 2, 1, 1, 3, 2, 1, 0), 13 };
static const Cfg CFG_INS   = { W(2, 1, 12, 7, 7, 3, 1, 0, 1, 1, 1, 1, 0, 1, 1, 0, 0), 3 };
static const Cfg CFG_FETCH = { W(3, 1, 1, 0, 0, 2, 1, 0, 1, 1, 14, 1, 0, 2, 4, 0, 0), 1 };
static const Cfg CFG_CAP   = { W(6, 4, 4, 2, 2, 5, 5, 2, 6, 3, 4, 3, 3, 6, 6, 1, 2), 4 };

PROPERTY(C01, "at least 4 operations, at least one of which changed the allocated capacity or moved the buffer") {
	World w(s, CFG_ALL);
	Ctl* c = w.new_ctl((int)s.below(4));
	int nb = 1 + (s.one_in(3) ? 1 + (int)s.below(2) : 0);
	for(int i = 0; i < nb; i++) w.new_dynamic(c);
	w.run(1 + (s.one_in(10) ? (int)s.below(150) : s.small_len(40)));
	w.finish_all();
	if(w.ops >= 4 && (w.relocs || w.grew)) nontrivial();
	if(w.relocs) LABEL("relocated"); if(w.aliases) LABEL("self source"); if(w.large) LABEL("large content"); if(w.cats) LABEL("cat"); if(w.prints) LABEL("formatted"); if(w.shrinks) LABEL("shrink");
}

struct StackCase { World* w; int ops; };
static void on_stack(SB* b, int cap, void* u) {
	StackCase* c = (StackCase*)u;
	TR("b0 = stack buffer of capacity %d", cap);
	c->w->add(b, cap);
	c->w->run(c->ops);
	c->w->finish_all();
	// memory of this buffer goes out of scope here
}
PROPERTY(C02, "at least 3 operations on fixed buffers, at least one result that did not fit or an operation sized to the exact remaining space") {
	Cfg cfg = CFG_ALL; cfg.alias_pct = 4;
	World w(s, cfg);
	int how = (int)s.below(10), n = 1 + s.small_len(30);
	if(how < 7) {
		int nb = 1 + (s.one_in(3) ? 1 : 0);
		for(int i = 0; i < nb; i++) w.new_fixed();
		if(s.one_in(6)) w.new_dynamic(w.new_ctl((int)s.below(4)));
		w.run(n);
		w.finish_all();
	} else if(how < 9) {
		StackCase c{ &w, n }; vb_on_stack((int)s.below((uint64_t)vb_stack_count()), on_stack, &c);
		LABEL("stack");
	} else {
		int cap = 0; SB* b = vb_file_scope(&cap);
		SB* t = b; vb_assign(&t, SV{ "", 0 });
		TR("b0 = file scope buffer of capacity %d", cap);
		w.add(b, cap); w.run(n); w.finish_all(); LABEL("file scope");
	}
	if(w.ops >= 3 && (w.empties || w.exact)) nontrivial();
	if(w.empties) LABEL("emptied"); if(w.aliases) LABEL("self source"); if(w.prints) LABEL("formatted");
}

// twin run: the same operation with a separate copy of the bytes must give the same result
PROPERTY(C03, "at least one operation whose source was a non-empty view of the destination, with non-trivial content") {
	World w(s, CFG_ALIAS);
	Ctl* c = w.new_ctl((int)s.below(4));
	bool dyn = !s.one_in(3);
	Buf& d = dyn ? w.new_dynamic(c) : w.new_fixed();
	if(s.flip()) { // start from content exactly filling, or leaving little room
		int len = s.flip() ? d.cap : d.cap - s.small_len(d.cap < 0 ? 0 : d.cap); if(len > 4000 && !s.one_in(8)) len = 4000; if(len < 0) len = 0;
		std::string t = gen_bytes(s, len); Mem m(t);
		TR("assign(b0, %s)", show(t).c_str());
		SV r = vb_assign(&d.b, SV{ m.p, len }); w.after(d, "assign", r, t);
	}
	int n = 1 + s.small_len(16), twins = 0;
	for(int i = 0; i < n; i++) {
		if(s.one_in(3)) { w.one(d); continue; }
		static const Op OPS[] = { O_APPEND, O_PREPEND, O_INSERT, O_BEFORE, O_AFTER, O_ASSIGN, O_STRIP };
		Op op = s.pick(OPS);
		Source o; w.make_source(o, d, true, op != O_ASSIGN);
		int idx = 0, a = 0, b = 0; SV pos = { nullptr, 0 };
		if(op == O_INSERT) idx = (int)s.below(2 * d.m.size() + 3) - (int)d.m.size() - 1;
		if(op == O_BEFORE || op == O_AFTER) pos = w.pos_view(d, a, b);
		if(op == O_STRIP && (o.val.size() > 400 || d.m.size() > 20000)) continue; // affordable also where every removal moves the rest
		if(d.m.size() > 150000) { w.one(d); continue; }
		// the twin: same capacity, same content, separate source bytes
		Ctl* c2 = w.new_ctl(0); SB* t = nullptr; Mem fm;
		if(dyn) t = vb_create_empty((size_t)d.cap, c2, 0); else { fm.make(vb_header() + (size_t)d.cap + 1, 0); t = vb_create_fixed(fm.p, fm.n); }
		CHECK(t, "creating a twin buffer failed");
		{ Mem m(d.m); vb_assign(&t, SV{ m.p, (int)d.m.size() }); }
		check_state(t, d.m, "twin setup");
		Mem copy(o.val); SV tv = o.valid ? SV{ copy.p, (int)o.val.size() } : SV{ nullptr, 0 };
		SV tpos = pos; if(a >= 0 && pos.data) tpos.data = vb_cstr(t) + a;
		TR("op %d (b0 %s, index %d, at [%d,%d), %s)", (int)op, show(d.m).c_str(), idx, a, b, o.desc.c_str());
		SV tr;
		switch(op) {
			case O_APPEND: tr = vb_append(&t, tv); break; case O_PREPEND: tr = vb_prepend(&t, tv); break;
			case O_INSERT: tr = vb_insert_at(&t, idx, tv); break; case O_BEFORE: tr = vb_insert_before(&t, tpos, tv); break;
			case O_AFTER: tr = vb_insert_after(&t, tpos, tv); break; case O_STRIP: tr = vb_strip(&t, tv); break;
			default: tr = vb_assign(&t, tv); break;
		}
		check_view(tr, t, "twin");
		std::string expect(vb_cstr(t), (size_t)vb_size(t));
		g_expect_no_alloc = !dyn;
		SV r = w.call(d, op, o, idx, pos);
		g_expect_no_alloc = false;
		w.after(d, "operation on own content vs. on a copy", r, expect);
		CHECK(vb_cap(d.b) == vb_cap(t), "capacity differs from the run with a separate copy: %d vs %d", vb_cap(d.b), vb_cap(t));
		if(o.alias && o.val.size()) twins++;
		vb_destroy(&t);
	}
	w.finish_all();
	if(twins) nontrivial();
	LABEL(dyn ? "dynamic" : "fixed"); if(w.relocs) LABEL("relocated"); if(w.empties) LABEL("emptied");
}

PROPERTY(C04, "at least 2 dynamic buffers or allocators, at least 4 operations, at least one resize of a block") {
	World w(s, CFG_ALL); w.cfg.alias_pct = 5; w.cfg.weights[O_CRYPT] = 2; g_encrypt = vb_encrypt; g_decrypt = vb_decrypt;
	int mode = (int)s.below(4); DefaultCtl def(mode);
	int na = 1 + (int)s.below(3), nb = 1 + (int)s.below(4);
	for(int i = 0; i < na; i++) w.new_ctl((int)s.below(4));
	bool usedef = false;
	for(int i = 0; i < nb; i++) {
		if(vb_has_default() && s.one_in(3)) { w.new_dynamic(&def.c, true); usedef = true; }
		else if(i && s.one_in(6)) w.new_fixed();
		else w.new_dynamic(w.ctls[s.below((uint64_t)na)].get());
	}
	int n = 1 + s.small_len(40);
	for(int i = 0; i < n && !s.exhausted(); i++) {
		Buf& d = *w.bufs[s.below(w.bufs.size())];
		if(!d.b) continue;
		if(s.one_in(16)) { w.finish(d, (int)s.below(2)); if(w.bufs.size() < 8) { if(s.flip()) w.new_dynamic(w.ctls[s.below((uint64_t)na)].get()); } continue; }
		w.one(d);
		for(auto& e : w.bufs) if(e.get() != &d && e->b) w.verify(*e, "other buffer after an operation");
	}
	w.finish_all();
	CHECK(def.c.blocks.empty(), "default allocator: %zu blocks leaked", def.c.blocks.size());
	if((nb > 1 || na > 1) && w.ops >= 4 && w.relocs) nontrivial();
	if(usedef) LABEL("default allocator"); if(w.relocs) LABEL("moved"); if(w.shrinks) LABEL("shrink"); if(w.cats) LABEL("cat");
}

PROPERTY(C05, "at least one automatic extension and at least 3 operations, or a shrink/grow of non-empty content") {
	World w(s, CFG_CAP);
	Ctl* c = w.new_ctl((int)s.below(4));
	w.new_dynamic(c);
	if(s.one_in(5)) w.new_fixed();
	w.run(2 + s.small_len(30));
	w.finish_all();
	if((w.grew && w.ops >= 3) || (w.shrinks && w.ops > 3)) nontrivial();
	if(w.grew) LABEL("extended"); if(w.shrinks) LABEL("shrink"); if(w.exact) LABEL("around free space");
}

// ---------------------------------------------------------------- formatted printing
struct Fmt { std::string f; int shape; FA a; bool fails; std::unique_ptr<Mem> m1, m2; };
static void put_lit(Src& s, std::string& f, int max) {
	std::string t = gen_text(s, s.small_len(max), "abc XYZ:,[]-\n\xe9"); for(char ch : t) f += ch; if(s.one_in(6)) f += "%%";
}
static std::string int_spec(Src& s, bool prnf, const char* len, int maxw) {
	std::string r = "%";
	if(prnf) { if(s.one_in(4)) r += '-'; if(s.one_in(4)) r += '+'; if(s.one_in(4)) r += '0'; }
	else for(char ch : std::string("-+ 0#")) if(s.one_in(4)) r += ch;
	if(s.one_in(3)) r += std::to_string(s.below((uint64_t)(s.one_in(8) ? (prnf ? 200 : maxw) : 30)));
	if(s.one_in(4) && !prnf) r += "." + std::to_string(s.below(25));
	r += len;
	r += s.pick({ "d", "u", "x" }); if(r.back() != 'd') { size_t p; while((p = r.find_first_of("+ ")) != std::string::npos) r.erase(p, 1); if(r.back() == 'u') while((p = r.find('#')) != std::string::npos) r.erase(p, 1); }
	else { size_t p; while((p = r.find('#')) != std::string::npos) r.erase(p, 1); }
	return r;
}
static void gen_fmt(Src& s, Fmt& o, bool prnf, bool allow_fail) {
	memset(&o.a, 0, sizeof o.a); o.fails = false;
	o.a.i = s.one_in(4) ? (int)s.u32() : (int)s.below(1000) - 300; o.a.j = (int)s.below(60) - 20; o.a.k = (int)s.u32(); o.a.ll = (long long)s.u64();
	auto str = [&](int max) { int l = s.one_in(20) ? (int)s.below(s.one_in(6) ? 70000 : 3000) : s.small_len(max); std::string t = gen_bytes(s, l); for(char& ch : t) if(!ch || ch == '\v') ch = '.'; return t; };
	o.m1 = std::make_unique<Mem>(cstr_mem(str(80))); o.m2 = std::make_unique<Mem>(cstr_mem(str(20))); o.a.s = o.m1->p; o.a.t = o.m2->p;
	std::string& f = o.f; f.clear();
	auto sspec = [&]() { std::string r = "%"; if(s.one_in(5)) r += '-'; if(s.one_in(3)) r += std::to_string(1 + s.below(s.one_in(8) && !prnf ? 2000 : 40)); if(s.one_in(4)) r += "." + std::to_string(1 + s.below(30)); return r + "s"; };
	put_lit(s, f, 10);
	switch(s.below(prnf ? 9 : 13)) {
		case 0: o.shape = SH_NONE; f += gen_text(s, s.small_len(100), "abcdefg \t:;"); break;
		case 1: o.shape = SH_I; f += int_spec(s, prnf, "", 3000); break;
		case 2: o.shape = SH_S; f += sspec(); break;
		case 3: o.shape = SH_IS; f += int_spec(s, prnf, "", 300); put_lit(s, f, 4); f += sspec(); break;
		case 4: o.shape = SH_IIS; f += int_spec(s, prnf, "", 300); put_lit(s, f, 4); f += int_spec(s, prnf, "", 300); f += sspec(); break;
		case 5: o.shape = SH_SIS; f += sspec(); put_lit(s, f, 4); f += int_spec(s, prnf, "", 300); f += sspec(); break;
		case 6: o.shape = SH_III; f += int_spec(s, prnf, "", 300); f += int_spec(s, prnf, "", 300); f += int_spec(s, prnf, "", 300); break;
		case 7: o.shape = SH_I; o.a.i = 'a' + (int)s.below(26); if(!prnf && s.one_in(4)) o.a.i = 0; f += "%c"; break;
		case 8: o.shape = SH_D; o.a.d = prnf ? (double)((int)s.below(20001) - 10000) / 8 : s.one_in(3) ? (double)(int)s.u32() / 1024 : (double)s.below(100000) / 100; f += prnf ? "%f" : s.pick({ "%f", "%g", "%.3f", "%e", "%12.1f", "%a", "%.40f" }); break;
		case 9: o.shape = SH_LL; f += int_spec(s, false, "ll", 100); break;
		case 10: o.shape = SH_IS; o.a.i = s.one_in(6) ? (int)s.below(20000) : (int)s.below(100) - 50; f += s.pick({ "%*s", "%.*s", "%-*s" }); if(f.find('.') != std::string::npos && o.a.i < 0 && s.flip()) o.a.i = -o.a.i; break;
		case 11: o.shape = SH_ISD; o.a.d = 1.0 / (1 + (double)s.below(50)); f += int_spec(s, false, "", 100); f += sspec(); f += "%.9g"; break;
		case 12: {
			o.shape = SH_WS; static const int good[] = { 'w', 'i', 'd', 'e', 0 }, bad[] = { 'o', 'k', 0x20AC, 'x', 0 };
			o.fails = allow_fail && s.flip(); o.a.ws = o.fails ? bad : good; f += "%ls";
		} break;
	}
	put_lit(s, f, 10);
}
PROPERTY(C06, "a formatted print whose output is non-empty and either overflows a fixed buffer, forces a dynamic buffer to extend, fails in the formatter, or follows existing content") {
	World w(s, CFG_ALL);
	Ctl* c = w.new_ctl((int)s.below(4));
	Buf& d = s.one_in(3) ? w.new_fixed() : w.new_dynamic(c);
	int n = 1 + s.small_len(8); bool nt = false;
	for(int i = 0; i < n; i++) {
		if(i && s.one_in(3)) { w.one(d); continue; }
		bool pf = vb_has_printf() && (!vb_has_prnf() || !s.one_in(3)); if(!pf && !vb_has_prnf()) return;
		Fmt f; gen_fmt(s, f, !pf, true);
		int form = (int)s.below(4);
		if(s.one_in(3) && f.shape == SH_S && !f.fails) { // aim at the exact free space
			int base = pf ? vf_snprintf(nullptr, 0, f.shape, f.f.c_str(), &f.a) : -1;
			int room = form < 2 ? d.cap : d.cap - (int)d.m.size(), extra = room - base + (int)s.below(3) - 1;
			if(base >= 0 && extra > 0 && extra < 70000) f.f += std::string((size_t)extra, '#');
		}
		int len; std::string txt;
		if(pf) { len = vf_snprintf(nullptr, 0, f.shape, f.f.c_str(), &f.a); if(len >= 0) { txt.resize((size_t)len + 1); vf_snprintf(&txt[0], txt.size(), f.shape, f.f.c_str(), &f.a); txt.resize((size_t)len); } }
		else { txt.resize(300000); len = vf_snprnf(&txt[0], txt.size(), f.shape, f.f.c_str(), &f.a); if(len >= 0) txt.resize((size_t)len); }
		std::string next;
		if(len >= 0) next = form < 2 ? txt : d.m + txt;
		TR("%s(b0 {size %zu, cap %d}, %s, ...) form %d -> %d chars %s", pf ? "printf" : "prnf", d.m.size(), d.cap, show(f.f).c_str(), form, len, show(txt).c_str());
		bool had = !d.m.empty(); int cap0 = d.cap;
		w.expect_result(d, next);
		SB* old = d.b;
		g_expect_no_alloc = !d.dyn;
		Mem fm(cstr_mem(f.f));
		SV r = pf ? vb_printf(&d.b, form, f.shape, fm.p, &f.a) : vb_prnf(&d.b, form, f.shape, fm.p, &f.a);
		g_expect_no_alloc = false;
		if(!d.dyn) CHECK(d.b == old, "fixed buffer moved");
		w.after(d, pf ? "printf" : "prnf", r, next);
		if(len < 0) { LABEL("formatter failed"); nt = true; }
		else if(len > 0 && (had || d.cap != cap0 || next.empty())) nt = true;
		if(len > 0 && next.empty()) LABEL("emptied: did not fit"); if(len > 1000) LABEL("output over 1000"); if(pf) LABEL("printf"); else LABEL("prnf"); if(d.cap != cap0) LABEL("extended");
	}
	w.finish_all();
	if(nt) nontrivial();
}

PROPERTY(C07, "at least one insertion of non-empty text at an interior position, by a negative index, at an end of non-empty content, or at a position outside the buffer") {
	World w(s, CFG_INS);
	Ctl* c = w.new_ctl((int)s.below(4));
	Buf& d = s.one_in(4) ? w.new_fixed() : w.new_dynamic(c);
	std::string t = gen_bytes(s, d.dyn && s.one_in(60) ? s.edge_len() : s.small_len(40)); if(!d.dyn && (int)t.size() > d.cap) t.resize((size_t)d.cap);
	{ Mem m(t); TR("assign(b0, %s)", show(t).c_str()); SV r = vb_assign(&d.b, SV{ m.p, (int)t.size() }); w.after(d, "assign", r, t); }
	w.run(1 + s.small_len(16));
	w.finish_all();
	if(w.interior || w.negidx || w.outside || w.ends) nontrivial();
	if(w.interior) LABEL("interior"); if(w.negidx) LABEL("negative index"); if(w.outside) LABEL("position outside"); if(w.ends) LABEL("at an end");
}

PROPERTY(C08, "at least one fetch that appended bytes or misreported its count") {
	World w(s, CFG_FETCH);
	Ctl* c = w.new_ctl((int)s.below(4));
	if(s.one_in(4)) w.new_fixed(); else w.new_dynamic(c);
	w.run(1 + s.small_len(16));
	w.finish_all();
	if(w.fetch_bad || w.fetch_some) nontrivial();
	if(w.fetch_bad) LABEL("bad count"); if(w.fetch_some) LABEL("bytes appended");
}

// ---------------------------------------------------------------- lifecycle
static int no_fetch(void*, int, void*) { FAIL("fetcher called although there is no buffer"); }
static bool inv(SV v) { return v.data == nullptr; }
static void null_calls(Src& s, SB** b) {
	Mem t(cstr_mem("text")); SV v = { t.p, 4 }, p = { t.p + 1, 2 }; FA a = {}; a.i = 5; a.s = t.p;
	int k = (int)s.below(26);
	if(s.one_in(4)) v = SV{ nullptr, 0 };
	TR("operation %d on %s", k, b ? "a NULL buffer" : "a NULL buffer address");
	SV r = { nullptr, 0 };
	switch(k) {
		case 0: r = vb_append(b, v); break; case 1: r = vb_append_s(b, s.flip() ? t.p : nullptr, 0); break;
		case 2: r = vb_prepend(b, v); break; case 3: r = vb_prepend_s(b, t.p, 1); break;
		case 4: r = vb_insert_at(b, s.any_int(3), v); break; case 5: r = vb_insert_at_s(b, -1, t.p, 0); break;
		case 6: r = vb_insert_before(b, p, v); break; case 7: r = vb_insert_before_s(b, p, t.p, 0); break;
		case 8: r = vb_insert_after(b, p, v); break; case 9: r = vb_insert_after_s(b, p, t.p, 0); break;
		case 10: r = vb_strip(b, v); break; case 11: r = vb_strip_s(b, t.p, 0); break;
		case 12: r = vb_assign(b, v); break; case 13: r = vb_append_char(b, 'x'); break;
		case 14: r = vb_view(b); break; case 15: r = vb_shrink(b); break; case 16: r = vb_grow(b, s.any_int(10)); break;
		case 17: { SV arr[3] = { v, p, v }; r = vb_cat(b, 1 + (int)s.below(3), arr); } break;
		case 18: { SV arr[3] = { v, p, v }; r = vb_vcat(b, (int)s.below(4), arr); } break;
		case 19: r = vb_append_using(b, no_fetch, nullptr); break;
		case 20: if(vb_has_printf()) r = vb_printf(b, (int)s.below(4), SH_IS, "%d %s", &a); break;
		case 21: if(vb_has_prnf()) r = vb_prnf(b, (int)s.below(4), SH_IS, "%d %s", &a); break;
		case 22: vb_destroy(b); break;
		case 23: { char* c = vb_to_cstr(b); CHECK(!c, "to_cstr of no buffer returned a string"); } break;
		case 24: r = vb_insert_after(b, SV{ nullptr, 0 }, v); break;
		case 25: r = vb_strip(b, SV{ nullptr, 0 }); break;
	}
	CHECK(inv(r), "operation %d on no buffer returned a valid view", k);
	if(b) CHECK(*b == nullptr, "operation %d on no buffer produced one", k);
}
PROPERTY(C09, "every case: each one creates, converts, destroys, rejects, or calls operations without a buffer") {
	nontrivial();
	World w(s, CFG_ALL); DefaultCtl def((int)s.below(4));
	switch(s.below(7)) {
		case 0: { // operations without a buffer
			SB* none = nullptr; int n = 1 + (int)s.below(6);
			for(int i = 0; i < n; i++) null_calls(s, s.flip() ? &none : nullptr);
			LABEL("no buffer");
		} break;
		case 1: { // unsuitable memory for a fixed buffer
			size_t h = vb_header(); unsigned mis; size_t len = s.flip() ? h + 1 + s.below(40) : s.below(h + 1);
			mis = (unsigned)s.below(16);
			Mem m(len, mis); bool null = s.one_in(6);
			bool ok = !null && len > h && ((uintptr_t)m.p % sizeof(void*)) == 0;
			TR("create_fixed(%s misaligned by %u, %zu bytes) header %zu -> expect %s", null ? "NULL" : "memory", (unsigned)((uintptr_t)m.p % sizeof(void*)), len, h, ok ? "a buffer" : "none");
			std::string before(m.p, m.n);
			SB* b = vb_create_fixed(null ? nullptr : m.p, len);
			CHECK((b != nullptr) == ok, "create_fixed returned %s", b ? "a buffer" : "none");
			if(b) { CHECK((char*)b == m.p && vb_cap(b) == (int)(len - h - 1), "fixed capacity %d", vb_cap(b)); check_state(b, "", "create_fixed"); LABEL("fixed accepted"); }
			else { CHECK(!memcmp(before.data(), m.p, m.n), "rejected memory was modified"); LABEL("fixed rejected"); }
		} break;
		case 2: { // over-large capacity, missing allocator function
			Ctl* c = w.new_ctl(0);
			static const size_t big[] = { (size_t)INT_MAX + 1, (size_t)INT_MAX + 2, (size_t)UINT_MAX, (size_t)UINT_MAX + 1, (size_t)UINT_MAX + 20, ~(size_t)0, ~(size_t)0 - 40, (size_t)1 << 40, (size_t)1 << 63 };
			size_t cap = s.flip() ? s.pick(big) : (size_t)s.u64() | ((size_t)1 << 31);
			TR("create with capacity %zu, or with an allocator without function", cap);
			g_expect_no_alloc = true;
			CHECK(!vb_create_empty(cap, c, 0) && !vb_create_macro_size(cap, c, 0), "capacity %zu accepted", cap);
			CHECK(!vb_create_null_allocfn(s.below(50)), "buffer created without an allocator function");
			CHECK(!vb_create_init_null_allocfn(SV{ "abc", 3 }), "buffer created without an allocator function");
			if(!vb_has_default()) {
				CHECK(!vb_create_empty(s.below(100), nullptr, 1) && !vb_create_macro_int((int)s.below(100), nullptr, 1) && !vb_create_init(SV{ "abc", 3 }, nullptr, 1, s.flip()), "buffer created although there is no default allocator");
			} else CHECK(!vb_create_empty(cap, nullptr, 1), "capacity %zu accepted with the default allocator", cap);
			g_expect_no_alloc = false;
			LABEL("rejected creation");
		} break;
		case 3: case 4: { // create, maybe edit, convert or destroy
			bool dflt = vb_has_default() && s.flip();
			Buf& d = s.one_in(4) ? w.new_fixed() : w.new_dynamic(dflt ? &def.c : w.new_ctl((int)s.below(4)), dflt);
			w.run((int)s.below(5));
			w.finish(d, (int)s.below(2));
			SB* none = d.b; CHECK(!none, "pointer not nulled");
			if(s.flip()) null_calls(s, &none);
			LABEL("lifecycle");
		} break;
		case 5: { // create with content, exactly
			bool dflt = vb_has_default() && s.flip(); Ctl* c = dflt ? &def.c : w.new_ctl((int)s.below(4));
			std::string t = gen_bytes(s, s.one_in(8) ? (int)s.below(5000) : s.small_len(100)); Mem m(t);
			TR("create(%s)", show(t).c_str());
			SB* b = vb_create_init(SV{ m.p, (int)t.size() }, c, dflt, s.flip());
			CHECK(b, "no buffer"); check_state(b, t, "create with content");
			m.release();
			check_state(b, t, "create with content, after the source is gone");
			if(s.flip()) { char* z = vb_to_cstr(&b); CHECK(!b && z, "to_cstr"); CHECK(strlen(z) == strlen(t.c_str()) && !memcmp(z, t.data(), t.size()) && z[t.size()] == 0, "to_cstr content"); CHECK(c->blocks.size() == 1 && c->block_size(z) >= t.size() + 1, "string is not a block of the allocator"); c->resize(z, 0); }
			else vb_destroy(&b);
			CHECK(!b && c->blocks.empty(), "blocks outstanding");
			LABEL("with content");
		} break;
		default: { // many at once, random order of destruction
			int n = 2 + (int)s.below(6); Ctl* c = w.new_ctl((int)s.below(4));
			for(int i = 0; i < n; i++) w.new_dynamic(c);
			w.run((int)s.below(8));
			for(int i = 0; i < n; i++) w.finish(*w.bufs[s.below((uint64_t)n)], (int)s.below(2));
			w.finish_all(); LABEL("several");
		}
	}
	w.finish_all();
	CHECK(def.c.blocks.empty(), "default allocator: %zu blocks leaked", def.c.blocks.size());
}
