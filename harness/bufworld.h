// Stateful model of buffers and an auditing allocator.
#pragma once
#include "engine.h"
#include "shim.h"
#include <climits>
#include <map>
#include <memory>

// ---------------------------------------------------------------- allocator
struct Ctl {
	uint64_t magic = 0xA110CA7E;
	int mode = 0;                 // 0 always move, 1 libc realloc, 2 never move, 3 move on every other call
	int id = 0;
	unsigned long calls = 0, allocs = 0, frees = 0;
	struct Blk { size_t size; size_t room; char* base; };
	std::map<char*, Blk> blocks;
	virtual void* resize(void* p, size_t n);
	char* fresh(size_t n, size_t room);
	void drop(std::map<char*, Blk>::iterator it);
	void check_canaries();
	bool owns(const void* p) const { return blocks.count((char*)p) != 0; }
	size_t block_size(const void* p) const { return blocks.at((char*)p).size; }
	virtual ~Ctl();
};
extern Ctl* g_default_ctl;     // receives the default allocator's calls
extern bool g_expect_no_alloc; // set while a call must not allocate
extern long g_fail_in;         // the C library's allocator fails after so many more successes; -1: never
extern bool g_alloc_failed;    // it has failed: the library must not go on
extern "C" void* vf_user_default_tag(void);
void register_ctl(Ctl*); void unregister_ctl(Ctl*);

// ---------------------------------------------------------------- sources
struct Source {
	SV v = { nullptr, 0 };
	bool valid = false;
	bool by_cstr = false; int nonconst = 0; const char* s = nullptr;  // pass through the C string overload
	std::string val;         // the bytes the operation should see
	bool alias = false;      // refers to the destination buffer
	int off = 0;
	std::unique_ptr<Mem> mem;
	std::string desc;
};

struct Buf {
	SB* b = nullptr;
	std::string m;           // model content
	int cap = 0;             // capacity seen after the last operation
	bool dyn = true;
	Ctl* ctl = nullptr;
	std::unique_ptr<Mem> mem; // fixed memory
	std::string before, after; // other text right before and after it
	void around(const char* what) const;
	bool dflt = false;        // created with the default allocator
	int id = 0;
};

enum Op { O_APPEND, O_PREPEND, O_INSERT, O_BEFORE, O_AFTER, O_ASSIGN, O_CAT, O_VCAT, O_CHAR, O_STRIP, O_USING, O_PRINTF, O_PRNF, O_SHRINK, O_GROW, O_VIEW, O_BURST, O_CRYPT, O_NOPS };
extern SV (*g_encrypt)(SB**, uint8_t*, uint8_t*); extern SV (*g_decrypt)(SB**, uint8_t*, uint8_t*); // for O_CRYPT
struct Cfg {
	int weights[O_NOPS];
	int alias_pct;          // out of 16
	bool big = true;        // allow large contents
};
struct World {
	Src& s; Cfg cfg;
	std::vector<std::unique_ptr<Ctl>> ctls;
	std::vector<std::unique_ptr<Buf>> bufs;
	// statistics of the case
	unsigned statics = 0;         // static spaces in use
	int ops = 0, relocs = 0, empties = 0, aliases = 0, exact = 0, grew = 0, shrinks = 0, large = 0;
	int interior = 0, negidx = 0, outside = 0, fetch_bad = 0, fetch_some = 0, prints = 0, cats = 0, ends = 0;
	Buf* cur = nullptr;           // the buffer operated on
	World(Src& s_, Cfg c) : s(s_), cfg(c) {}
	~World();
	Ctl* new_ctl(int mode);
	Buf& new_dynamic(Ctl* c, bool dflt = false);
	Buf& add(SB* b, int cap); // an existing fixed buffer
	Buf& new_fixed();
	std::string content(Buf& d, int maxlen);
	void make_source(Source& o, Buf& d, bool allow_alias, bool allow_cstr);
	SV pos_view(Buf& d, int& a, int& b);
	void step(Buf& d);
	void one(Buf& d);        // a step, during which no other allocator may be called
	void run(int nops);
	void finish(Buf& d, int how);
	void finish_all();
	void verify(Buf& d, const char* what);
	void after(Buf& d, const char* what, SV r, const std::string& expect, bool is_grow = false, bool is_shrink = false, int min = 0);
	void expect_result(Buf& d, std::string& next); // applies the fixed-capacity rule
	SV call(Buf& d, Op op, Source& src, int index, SV pos);
};
void check_state(SB* b, const std::string& m, const char* what);
void check_view(SV r, SB* b, const char* what);
struct DefaultCtl { // the default allocator's calls are audited for the duration of a case
	Ctl c; explicit DefaultCtl(int mode) { c.mode = mode; c.id = 99; register_ctl(&c); g_default_ctl = &c; }
	~DefaultCtl() { g_default_ctl = nullptr; }
};
