// C38: the other properties with every source text in read-only memory
#include "engine.h"
PROPERTY(C38, "the case of the property drawn is non-trivial by that property's own rule") {
	static const char* const ID[] = { "C01", "C02", "C03", "C06", "C07", "C09", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C27", "C28", "C30" };
	const char* id = s.pick(ID); Prop* p = find_prop(id); TR("(a case of %s)", id); if(!p) FAIL("property %s missing", id);
	p->fn(s);
}
