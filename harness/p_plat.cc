// C32: the other properties, in builds whose plain char is unsigned and with other compilers and optimisation levels
#include "engine.h"
#include <iterator>
PROPERTY(C32, "the case of the property drawn is non-trivial by that property's own rule") {
	static const char* const ID[] = { "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C12", "C13", "C14", "C21", "C24", "C01", "C02" };
	const char* id = s.pick(ID); Prop* p = find_prop(id); TR("(a case of %s)", id); if(!p) FAIL("property %s missing", id);
	p->fn(s);
}
