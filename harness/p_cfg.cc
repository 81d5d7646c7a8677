// C29: the same checks in every documented build configuration (one binary per configuration).
#include "bufworld.h"
//                       app pre ins bef aft asg cat vct chr stp use ptf prn shr grw viw bst
static const Cfg CFG_CAP = { { 6, 4, 4, 2, 2, 5, 5, 2, 6, 3, 4, 3, 3, 6, 6, 1, 2 }, 4 };

// ---------------------------------------------------------------- build configurations
void check_numbers_simple(Src& s);
void check_views_simple(Src& s);
PROPERTY(C29, "at least 3 buffer operations or a non-empty view/number operation in this build configuration") {
	World w(s, CFG_CAP); w.cfg.alias_pct = 4; DefaultCtl def((int)s.below(4));
	if(s.one_in(4)) { check_numbers_simple(s); nontrivial(); LABEL("numbers"); return; }
	if(s.one_in(6)) { check_views_simple(s); nontrivial(); LABEL("views"); return; }
	bool fixed = s.one_in(5), dflt = s.flip();
	if(fixed) w.new_fixed();
	else if(dflt) {
		if(vb_has_default()) { w.new_dynamic(&def.c, true); LABEL("default allocator"); }
		else {
			g_expect_no_alloc = true;
			TR("create without an allocator in a build without default allocator");
			CHECK(!vb_create_empty(s.below(100), nullptr, 1) && !vb_create_macro_int((int)s.below(100), nullptr, 1) && !vb_create_init(SV{ "abc", 3 }, nullptr, 1, s.flip()), "buffer created although there is no default allocator");
			g_expect_no_alloc = false;
			LABEL("no default allocator");
			w.new_dynamic(w.new_ctl((int)s.below(4)));
		}
	} else w.new_dynamic(w.new_ctl((int)s.below(4)));
	w.run(1 + s.small_len(20));
	w.finish_all();
	CHECK(def.c.blocks.empty(), "default allocator: %zu blocks leaked", def.c.blocks.size());
	if(w.ops >= 3) nontrivial();
}
