// Property engine: every property is a function of a finite choice sequence (bytes).
// The same function is driven by a seeded random generator, by libFuzzer, by the
// shrinker and by the replayer.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
};

// Choice source. Exhausted (or all-zero) input always yields the simplest choice.
struct Src {
	const uint8_t* p = nullptr; size_t n = 0, i = 0;   // replay mode
	Rng* rng = nullptr;                                // random mode
	uint8_t* rec = nullptr; size_t rec_cap = 0; volatile uint32_t* rec_len = nullptr;
	uint64_t sig = 0x1234567;                          // hash of the *values* drawn
	uint8_t byte();
	uint64_t raw(int nbytes);
	uint64_t below(uint64_t bound);                    // [0,bound)
	int range(int lo, int hi) { return (int)((int64_t)lo + (int64_t)below((uint64_t)((int64_t)hi - lo) + 1)); }
	bool flip() { return below(2) != 0; }
	bool one_in(unsigned k) { return below(k) == k - 1; } // zero choice -> false
	uint64_t u64() { uint64_t v = raw(8); mix(v); return v; }
	uint32_t u32() { uint32_t v = (uint32_t)raw(4); mix(v); return v; }
	bool exhausted() const { return !rng && i >= n; }
	void mix(uint64_t v) { sig = (sig ^ v) * 0x9E3779B97F4A7C15ull; sig ^= sig >> 29; }
	template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
	template<class T, size_t N> const T& pick(const T (&v)[N]) { return v[below(N)]; }
	// weighted index; first entry is the simplest
	int weighted(std::initializer_list<int> w) {
		int t = 0; for(int x : w) t += x;
		int r = (int)below((uint64_t)t), k = 0;
		for(int x : w) { if(r < x) return k; r -= x; k++; }
		return 0;
	}
	// a length: mostly small, sometimes up to max
	int small_len(int max);
	// an int from the whole range, biased to boundaries around the given anchors
	int any_int(int anchor);
	// a length next to a size at which narrow counters or fixed scratch space would give out
	int edge_len();
};

// reporting -------------------------------------------------------------
extern bool g_trace;                 // collect a readable description of the case
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define TR(...) do { if(g_trace) trace(__VA_ARGS__); } while(0)
[[noreturn]] void fail_case(const char* file, int line, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
#define FAIL(...) fail_case(__FILE__, __LINE__, __VA_ARGS__)
#define CHECK(c, ...) do { if(__builtin_expect(!(c), 0)) fail_case(__FILE__, __LINE__, __VA_ARGS__); } while(0)

int label_id(const char* name);
extern uint64_t g_labels[512];
#define LABEL(name) do { static int id_ = label_id(name); g_labels[id_]++; } while(0)
void nontrivial();                   // marks the current case as non-trivial
std::string show(const void* p, size_t n);   // printable form of bytes
inline std::string show(const std::string& s) { return show(s.data(), s.size()); }

// properties --------------------------------------------------------------
typedef void (*prop_fn)(Src&);
struct Prop { const char* id; prop_fn fn; const char* rule; Prop* next; Prop(const char* i, prop_fn f, const char* r); };
#define PROPERTY(ID, RULE) static void prop_##ID(Src& s); static Prop reg_##ID(#ID, prop_##ID, RULE); static void prop_##ID(Src& s)
Prop* find_prop(const char* id);

// where text lands in memory: an alignment of 0..15, half of the time 0, from a sequence the case chooses
extern thread_local uint32_t g_mem_seq;
inline unsigned mem_misalign() { g_mem_seq = g_mem_seq * 1664525u + 1013904223u; return (g_mem_seq >> 31) ? 0 : (g_mem_seq >> 24) & 15; }
// exact memory: any access outside [p,p+n) is caught (ASan redzone; canaries otherwise)
struct Mem {
	char* base = nullptr; char* p = nullptr; size_t n = 0; bool ro = false;
	Mem() {}
	explicit Mem(size_t len, unsigned misalign = 0) { make(len, misalign); }
#ifdef VF_RO
	Mem(const std::string& s); // in read-only memory
#else
	Mem(const std::string& s) { make(s.size(), mem_misalign()); if(s.size()) memcpy(p, s.data(), s.size()); }
#endif
	Mem(const Mem&) = delete; Mem& operator=(const Mem&) = delete;
	Mem(Mem&& o) noexcept { base = o.base; p = o.p; n = o.n; ro = o.ro; o.base = nullptr; }
	~Mem() { release(); }
	void make(size_t len, unsigned misalign);
	void verify() const;
	void release();
};
// zero-terminated copy in exact memory
inline Mem cstr_mem(const std::string& s) { return Mem(std::string(s.c_str(), s.size() + 1)); }

// content generators
std::string gen_bytes(Src& s, int len);                      // any bytes, mixed alphabets
std::string gen_text(Src& s, int len, const char* alphabet); // from an alphabet (no NULs)
std::string fmtstr(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

#if defined(__SANITIZE_ADDRESS__)
	#define VF_ASAN 1
#elif defined(__has_feature)
	#if __has_feature(address_sanitizer)
		#define VF_ASAN 1
	#endif
#endif
#ifndef VF_ASAN
	#define VF_ASAN 0
#endif
