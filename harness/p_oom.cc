// C37: the option that asserts the default allocator's success. The C library's allocator fails at a chosen request; assert()
// ends up here and is turned into an exception, so that the state at that moment can be judged.
#include "bufworld.h"

struct Asserted { };
static bool g_armed = false;
extern "C" [[noreturn]] void __assert_fail(const char* expr, const char* file, unsigned line, const char* func) {
	if(!g_armed) { fprintf(stderr, "%s:%u: %s: assertion failed: %s\n", file, line, func, expr); abort(); }
	CHECK(g_alloc_failed, "assertion '%s' failed although every allocation succeeded", expr);
	throw Asserted();
}
static const Cfg CFG_OOM = { { 6, 4, 4, 3, 3, 5, 5, 3, 4, 2, 2, 3, 3, 6, 6, 1, 1, 2 }, 4 };
struct Arm { Arm() { g_armed = true; g_alloc_failed = false; } ~Arm() { g_armed = false; g_alloc_failed = false; g_fail_in = -1; g_expect_no_alloc = false; } };

PROPERTY(C37, "an allocation of the default allocator failed, after at least one operation or with another buffer alive") {
	DefaultCtl def((int)s.below(4)); World w(s, CFG_OOM); g_encrypt = vb_encrypt; g_decrypt = vb_decrypt;
	Arm arm;
	int others = (int)s.below(3); // buffers that have nothing to do with the C library's allocator
	for(int i = 0; i < others; i++) { if(s.flip()) w.new_dynamic(w.new_ctl((int)s.below(4))); else w.new_fixed(); }
	g_fail_in = s.one_in(12) ? -1 : s.one_in(6) ? (long)s.below(60) : (long)s.below(7);
	long ops = 0; bool stopped = false; const char* at = "";
	
	try {
		int nb = 1 + (int)s.below(2), n = s.small_len(40);
		for(int i = 0; i < nb; i++) {
			at = "create";
			w.new_dynamic(&def.c, true);
			CHECK(!g_alloc_failed, "a buffer was created although an allocation failed");
		}
		at = "operation"; w.run(n);
		for(auto& e : w.bufs) { int how = s.one_in(3) ? 1 : 0; at = how ? "to_cstr" : "destroy"; w.cur = e.get(); w.finish(*e, how); w.cur = nullptr; }
		CHECK(!g_alloc_failed, "the operation returned although an allocation failed");
	} catch(Asserted&) { stopped = true; }
	ops = w.ops;
	g_expect_no_alloc = false;
	if(stopped) {
		CHECK(strcmp(at, "destroy"), "an assertion failed while a buffer was destroyed");
		CHECK(!w.cur || w.cur->dflt, "the failure hit an operation on a buffer with another allocator");
		TR("assertion failed in %s", at);
		// nothing but the operation that failed is affected, and no block is lost or released
		for(auto& e : w.bufs) if(e.get() != w.cur && e->b) w.verify(*e, "another buffer after a failed allocation");
		size_t live = 0; for(auto& e : w.bufs) if(e->dflt && (e->b || e.get() == w.cur)) live++;
		CHECK(def.c.blocks.size() >= live, "%zu buffers, but only %zu blocks are left after the failed allocation", live, def.c.blocks.size());
		if(w.cur) LABEL("failed in an operation"); else LABEL("failed in create");
		if(ops || w.bufs.size() > 0) nontrivial();
	} else LABEL("nothing failed");
	// the buffers with other memory live on
	if(stopped) { g_alloc_failed = false; g_fail_in = -1; for(auto& e : w.bufs) if(e.get() != w.cur && e->b && !e->dflt) w.finish(*e, 0); }
}
