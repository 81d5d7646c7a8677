#include "engine.h"
#include <cstdarg>
#include <csignal>
#include <cerrno>
#include <unordered_set>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>

bool g_trace = false;
static std::string g_trace_text;
uint64_t g_labels[512];
thread_local uint32_t g_mem_seq;
static void run_case(Prop* pr, Src& s) { g_mem_seq = s.byte() * 0x9E3779B1u; pr->fn(s); }
static const char* g_label_names[512];
static int g_nlabels = 0;
static bool g_nontrivial = false;
static Prop* g_props = nullptr;

Prop::Prop(const char* i, prop_fn f, const char* r) : id(i), fn(f), rule(r), next(g_props) { g_props = this; }
Prop* find_prop(const char* id) { for(Prop* p = g_props; p; p = p->next) if(!strcmp(p->id, id)) return p; return nullptr; }

uint8_t Src::byte() {
	uint8_t b;
	if(rng) {
		if(*rec_len >= rec_cap) return 0;
		b = (uint8_t)(rng->next() >> 33);
		rec[*rec_len] = b; *rec_len = *rec_len + 1;
		return b;
	}
	return i < n ? p[i++] : 0;
}
uint64_t Src::raw(int nb) { uint64_t v = 0; while(nb--) v = v << 8 | byte(); return v; }
uint64_t Src::below(uint64_t bound) {
	if(bound <= 1) return 0;
	uint64_t v;
	if(bound <= 256) v = raw(1);
	else if(bound <= 65536) v = raw(2);
	else if(bound <= (1ull << 32)) v = raw(4);
	else v = raw(8);
	v %= bound;
	mix(v);
	return v;
}
int Src::small_len(int max) {
	int m;
	switch(below(8)) { case 0: case 1: m = 4; break; case 2: case 3: m = 12; break; case 4: case 5: m = 40; break; default: m = max; }
	if(m > max) m = max;
	return (int)below((uint64_t)m + 1);
}
int Src::any_int(int a) {
	switch(below(10)) {
		case 0: return range(-3, 3);
		case 1: case 2: return a <= 0x7FFFFFF8 ? (int)((int64_t)a - 4 + (int64_t)below(8)) : a;
		case 3: case 4: return (int)(-(int64_t)a - 4 + (int64_t)below(8) < -2147483648LL ? -2147483647 - 1 : -(int64_t)a - 4 + (int64_t)below(8));
		case 5: return 0x7FFFFFFF - (int)below(4);
		case 6: return -0x7FFFFFFF - 1 + (int)below(4);
		case 7: return (int)u32();
		case 8: return (int)(u32() & 0xFFFF) - 0x8000;
		default: return a ? (int)((int64_t)below((uint64_t)(a < 0 ? -(int64_t)a : a) * 2 + 1) - (a < 0 ? -(int64_t)a : a)) : 0;
	}
}

int Src::edge_len() {
	static const int SMALL[] = { 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 2048 }, MID[] = { 4095, 4096, 8192, 10000, 16384 }, BIG[] = { 32767, 32768, 65535, 65536, 65537 };
	static const bool modest = getenv("VF_SMALL") != nullptr; // coverage-guided runs: many cheap cases
	int k = (int)below(16); if(modest && k >= 11) k = 0;
	if(k == 15) return 65536 + (int)below(10000);
	if(k == 14) return pick(BIG) + (int)below(5) - 2;
	if(k >= 11) return pick(MID) + (int)below(5) - 2;
	return pick(SMALL) + (int)below(5) - 2;
}

void trace(const char* fmt, ...) {
	char b[2048]; va_list va; va_start(va, fmt); vsnprintf(b, sizeof b, fmt, va); va_end(va);
	if(g_trace_text.size() < 60000) { g_trace_text += b; g_trace_text += '\n'; }
}
std::string fmtstr(const char* fmt, ...) {
	char b[4096]; va_list va; va_start(va, fmt); vsnprintf(b, sizeof b, fmt, va); va_end(va); return b;
}
std::string show(const void* vp, size_t n) {
	const unsigned char* p = (const unsigned char*)vp; std::string r = "\"";
	size_t lim = n > 160 ? 140 : n;
	for(size_t i = 0; i < lim; i++) {
		unsigned char c = p[i];
		if(c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if(c >= 32 && c < 127) r += (char)c;
		else { char t[8]; snprintf(t, sizeof t, "\\x%02X", c); r += t; }
	}
	r += '"';
	if(lim < n) r += fmtstr("...(%zu bytes)", n);
	return r;
}
int label_id(const char* name) {
	for(int i = 0; i < g_nlabels; i++) if(!strcmp(g_label_names[i], name)) return i;
	if(g_nlabels == 511) return 511;
	g_label_names[g_nlabels] = name; return g_nlabels++;
}
void nontrivial() { g_nontrivial = true; }

static void emit_trace() {
	if(!g_trace || g_trace_text.empty()) return;
	fprintf(stderr, "--- case ---\n%s------------\n", g_trace_text.c_str());
}
void fail_case(const char* file, int line, const char* fmt, ...) {
	const char* b = strrchr(file, '/'); b = b ? b + 1 : file;
	emit_trace();
	fprintf(stderr, "FAILED %s:%d: ", b, line);
	va_list va; va_start(va, fmt); vfprintf(stderr, fmt, va); va_end(va);
	fprintf(stderr, "\n"); fflush(stderr);
#ifdef VF_FUZZ
	abort();
#else
	_exit(77);
#endif
}

#if defined(__has_feature)
	#if __has_feature(thread_sanitizer)
		#define VF_TSAN 1
	#endif
#endif
#if VF_ASAN || defined(VF_TSAN)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void watch_crashes() { __sanitizer_set_death_callback(emit_trace); }
#else
static void on_crash(int sig) { signal(sig, SIG_DFL); emit_trace(); fprintf(stderr, "FAILED: crashed with signal %d (%s)\n", sig, strsignal(sig)); _exit(77); }
static void watch_crashes() { for(int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) signal(s, on_crash); }
#endif
// exact memory ----------------------------------------------------------
#if VF_ASAN
void Mem::make(size_t len, unsigned misalign) {
	n = len; base = (char*)malloc(len + misalign ? len + misalign : 1);
	if(len + misalign == 0) { p = base + 1; return; }   // one past: any access is a redzone hit
	p = base + misalign;
	if(len) memset(p, 0x5A, len);
}
void Mem::verify() const {}
#else
#define CAN 32
void Mem::make(size_t len, unsigned misalign) {
	n = len; base = (char*)malloc(len + misalign + 2 * CAN);
	memset(base, 0xC7, len + misalign + 2 * CAN);
	p = base + CAN + misalign;
	if(len) memset(p, 0x5A, len);
}
void Mem::verify() const {
	if(!base || ro) return;
	for(char* q = base; q < p; q++) CHECK((unsigned char)*q == 0xC7, "write before the start of a memory block (offset %ld)", (long)(q - p));
	for(char* q = p + n; q < p + n + CAN; q++) CHECK((unsigned char)*q == 0xC7, "write after the end of a memory block of %zu (offset %ld)", n, (long)(q - p));
}
#endif
#ifdef VF_RO
// Source texts: the same pages are mapped twice, once writable for the harness, once read-only for the library.
static const size_t RO_SIZE = (size_t)256 << 20; static char* ro_w; static char* ro_r; static size_t ro_used; static long ro_live;
static bool ro_init() {
	int fd = memfd_create("sources", 0); if(fd < 0 || ftruncate(fd, (off_t)RO_SIZE)) return false;
	ro_w = (char*)mmap(nullptr, RO_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); ro_r = (char*)mmap(nullptr, RO_SIZE, PROT_READ, MAP_SHARED, fd, 0); close(fd);
	return ro_w != MAP_FAILED && ro_r != MAP_FAILED;
}
Mem::Mem(const std::string& s) {
	if(!ro_w && !ro_init()) { fprintf(stderr, "no shared memory\n"); _exit(2); }
	unsigned mis = mem_misalign(); size_t at = ((ro_used + 15) & ~(size_t)15) + mis;
	if(at + s.size() + 64 > RO_SIZE) { make(s.size(), mis); if(s.size()) memcpy(p, s.data(), s.size()); return; }
	ro_used = at + s.size() + 1; ro_live++; ro = true; n = s.size(); base = p = ro_r + at;
	if(n) memcpy(ro_w + at, s.data(), n);
	ro_w[at + n] = 'x';
}
void Mem::release() { if(base) { if(ro) { if(!--ro_live) ro_used = 0; } else { verify(); free(base); } base = nullptr; } }
#else
void Mem::release() { if(base) { verify(); free(base); base = nullptr; } }
#endif

// generators --------------------------------------------------------------
static const char* const ALPHA[] = { "ab", "abcXYZ 09,.;:/\"'\r\n", "aA bB", "\"',a", "01x" };
// long text: one filler with a few other characters, mostly next to powers of two and to the ends
static std::string sparse(Src& s, int len, const char* a, size_t m) {
	std::string r((size_t)len, a[s.below(m)]); int n = (int)s.below(7);
	for(int i = 0; i < n; i++) {
		int64_t at;
		switch(s.below(4)) { case 0: at = (int64_t)s.below((uint64_t)len); break; case 1: at = (int64_t)s.below(4); break; case 2: at = len - 1 - (int64_t)s.below(4); break; default: at = ((int64_t)1 << (6 + s.below(11))) + (int64_t)s.below(5) - 2; }
		if(at >= 0 && at < len) r[(size_t)at] = a[s.below(m)];
	}
	return r;
}
std::string gen_bytes(Src& s, int len) {
	std::string r; if(len <= 0) return r;
	r.resize((size_t)len);
	if(len > 96) {
		int k = (int)s.below(6);
		if(k == 4) return sparse(s, len, "aA,;\"' .\n\r\xe9", 10);
		if(k == 5) return sparse(s, len, "a\0\xff\x80 b", 6);
		Rng g(s.u32());
		for(int i = 0; i < len; i++) {
			uint64_t v = g.next();
			r[(size_t)i] = k == 0 ? (char)('a' + v % 26) : k == 1 ? (char)v : k == 2 ? (char)('a' + i % 26) : (char)("ab\0\xff"[v & 3]);
		}
		return r;
	}
	int k = (int)s.below(8);
	for(int i = 0; i < len; i++) {
		if(k < 5) { size_t m = strlen(ALPHA[k]); r[(size_t)i] = ALPHA[k][s.below(m)]; }
		else if(k == 5) { static const unsigned char odd[8] = { 'a', 0, 0xff, 0x80, 0x7f, 0xe9, 1, ' ' }; r[(size_t)i] = (char)odd[s.below(8)]; }
		else r[(size_t)i] = (char)s.byte();
	}
	for(char c : r) s.mix((unsigned char)c);
	return r;
}
std::string gen_text(Src& s, int len, const char* a) {
	std::string r; size_t m = strlen(a);
	if(len > 100 && s.flip()) return sparse(s, len, a, m);
	if(len > 200) { Rng g(s.u32()); for(int i = 0; i < len; i++) r += a[g.next() % m]; return r; }
	for(int i = 0; i < len; i++) r += a[s.below(m)];
	return r;
}

// run one case -------------------------------------------------------------
static void arm(int secs) { struct itimerval t = {}; t.it_value.tv_sec = secs; setitimer(ITIMER_VIRTUAL, &t, nullptr); }
static void on_alarm(int) { emit_trace(); const char m[] = "FAILED: case did not finish (cpu time limit)\n"; if(write(2, m, sizeof m - 1)) {} _exit(78); }
static int g_case_cpu = 8;

#ifdef VF_FUZZ
static uint64_t f_evals, f_nt; static std::unordered_set<uint64_t>* f_set; static Prop* f_prop;
static void f_dump() {
	const char* out = getenv("VF_STATS"); if(!out) return;
	FILE* f = fopen(fmtstr("%s.hashes", out).c_str(), "wb");
	if(f) { for(uint64_t h : *f_set) fwrite(&h, 8, 1, f); fclose(f); }
	f = fopen(fmtstr("%s.txt", out).c_str(), "w"); if(!f) return;
	fprintf(f, "evals %llu\nnontrivial %llu\n", (unsigned long long)f_evals, (unsigned long long)f_nt);
	for(int i = 0; i < g_nlabels; i++) fprintf(f, "label %llu %s\n", (unsigned long long)g_labels[i], g_label_names[i]);
	fclose(f);
}
extern "C" int LLVMFuzzerInitialize(int*, char***) {
	const char* id = getenv("VF_PROP"); f_prop = id ? find_prop(id) : nullptr;
	if(!f_prop) { fprintf(stderr, "VF_PROP not set\n"); exit(3); }
	f_set = new std::unordered_set<uint64_t>; signal(SIGVTALRM, on_alarm); atexit(f_dump); return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
	Src s; s.p = d; s.n = n; g_nontrivial = false;
	if((f_evals & 63) == 0) arm(g_case_cpu * 4);
	run_case(f_prop, s);
	f_evals++;
	if(g_nontrivial) { f_nt++; if(f_set->size() < 800000) f_set->insert(s.sig); }
	return 0;
}
#else

struct Shared { volatile uint64_t idx; volatile uint32_t len; uint32_t pad; uint8_t bytes[1 << 20]; };

static uint64_t mixseed(uint64_t seed, uint64_t worker, uint64_t idx) {
	Rng a(seed * 0x100000001B3ull + 0x51ull); a.s ^= a.next() + worker * 0xD6E8FEB86659FD93ull; a.s ^= a.next() + idx * 0xA0761D6478BD642Full; return a.next();
}
static std::string slurp(const char* path) {
	std::string r; FILE* f = fopen(path, "rb"); if(!f) { fprintf(stderr, "cannot read %s\n", path); exit(3); }
	char b[65536]; size_t k; while((k = fread(b, 1, sizeof b, f)) > 0) r.append(b, k); fclose(f); return r;
}
static void spit(const char* path, const std::string& d) {
	FILE* f = fopen(path, "wb"); if(!f) { fprintf(stderr, "cannot write %s\n", path); exit(3); } fwrite(d.data(), 1, d.size(), f); fclose(f);
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static void run_bytes(Prop* pr, const std::string& d) {
	Src s; s.p = (const uint8_t*)d.data(); s.n = d.size(); arm(g_case_cpu); run_case(pr, s); arm(0);
}
static bool fails(Prop* pr, const std::string& d) {
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if(pid < 0) { perror("fork"); exit(3); }
	if(pid == 0) {
		int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
		g_trace = false; run_bytes(pr, d); _exit(0);
	}
	int st; while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
static std::string shrink(Prop* pr, std::string best, double secs) {
	double end = now() + secs; long tries = 0;
	auto attempt = [&](const std::string& c) { if(now() > end) return false; tries++; if(fails(pr, c)) { best = c; return true; } return false; };
	bool progress = true;
	while(progress && now() < end) {
		progress = false;
		for(size_t cut = best.size() / 2; cut >= 1; cut /= 2)
			while(best.size() >= cut && attempt(best.substr(0, best.size() - cut))) progress = true;
		for(size_t k = best.size() / 2; k >= 1; k /= 2)
			for(size_t i = 0; i + k <= best.size() && now() < end; ) {
				std::string c = best; c.erase(i, k);
				if(attempt(c)) progress = true; else i += k;
			}
		for(size_t k = 16; k >= 1; k /= 2)
			for(size_t i = 0; i + k <= best.size() && now() < end; i += k) {
				if(best.compare(i, k, std::string(k, '\0')) == 0) continue;
				std::string c = best; for(size_t j = 0; j < k; j++) c[i + j] = 0;
				if(attempt(c)) progress = true;
			}
		for(size_t i = 0; i < best.size() && now() < end; i++) {
			unsigned lo = 0, hi = (unsigned char)best[i];
			while(lo < hi && now() < end) {
				unsigned m = (lo + hi) / 2; std::string c = best; c[i] = (char)m;
				if(attempt(c)) { hi = m; progress = true; } else lo = m + 1;
			}
		}
		while(!best.empty() && best.back() == 0 && attempt(best.substr(0, best.size() - 1))) progress = true;
	}
	fprintf(stderr, "shrink: %ld attempts, %zu bytes\n", tries, best.size());
	return best;
}

int main(int argc, char** argv) {
	if(argc < 3) { fprintf(stderr, "usage: %s run|replay|range|shrink|corpus PROP ...\n", argv[0]); return 3; }
	std::string mode = argv[1]; Prop* pr = find_prop(argv[2]);
	if(mode == "list") { for(Prop* p = g_props; p; p = p->next) printf("%s\t%s\n", p->id, p->rule); return 0; }
	if(!pr) { fprintf(stderr, "unknown property %s\n", argv[2]); return 3; }
	uint64_t seed = 1, worker = 0, cases = 100, from = 0, to = 0; double secs = 60; std::string out, a[2]; int na = 0;
	for(int i = 3; i < argc; i++) {
		std::string o = argv[i];
		auto val = [&]() { if(i + 1 >= argc) exit(3); return argv[++i]; };
		if(o == "--seed") seed = strtoull(val(), 0, 10); else if(o == "--worker") worker = strtoull(val(), 0, 10);
		else if(o == "--cases") cases = strtoull(val(), 0, 10); else if(o == "--from") from = strtoull(val(), 0, 10);
		else if(o == "--to") to = strtoull(val(), 0, 10); else if(o == "--secs") secs = atof(val());
		else if(o == "--out") out = val(); else if(na < 2) a[na++] = o;
	}
	if(!strcmp(pr->id, "C10") || !strcmp(pr->id, "C34")) g_case_cpu = 100; // may move gigabytes
	else if(!strcmp(pr->id, "C33")) g_case_cpu = 60; else if(!strcmp(pr->id, "C32")) g_case_cpu = 30;
	const bool slow = g_case_cpu > 8;
	signal(SIGVTALRM, on_alarm); watch_crashes();
	struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
	if(mode == "replay") { g_trace = true; std::string d = slurp(a[0].c_str()); run_bytes(pr, d); emit_trace(); fprintf(stderr, "case passed\n"); return 0; }
	if(mode == "shrink") { spit(a[1].c_str(), shrink(pr, slurp(a[0].c_str()), secs)); return 0; }
	if(mode == "probe") { return fails(pr, slurp(a[0].c_str())) ? 1 : 0; }

	int fd = out.empty() ? -1 : open(fmtstr("%s.state", out.c_str()).c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
	if(fd >= 0 && ftruncate(fd, sizeof(Shared))) { perror("state"); return 3; }
	Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, fd >= 0 ? MAP_SHARED : MAP_SHARED | MAP_ANONYMOUS, fd, 0);
	if(sh == MAP_FAILED) { perror("mmap"); return 3; }
	if(mode == "range") { cases = to + 1; secs = 1e9; }
	std::unordered_set<uint64_t> distinct; uint64_t evals = 0, nt = 0; std::vector<std::string> samples;
	double end = now() + secs;
	for(uint64_t idx = mode == "range" ? from : 0; idx < cases; idx++) {
		Rng rng(mixseed(seed, worker, idx));
		sh->idx = idx; sh->len = 0;
		Src s; s.rng = &rng; s.rec = sh->bytes; s.rec_cap = sizeof sh->bytes; s.rec_len = &sh->len;
		g_nontrivial = false;
		g_trace = mode == "run" && samples.size() < 3 && idx < 400; g_trace_text.clear();
		if(slow) arm(g_case_cpu); else if((idx & 15) == 0) arm(g_case_cpu * 3);
		run_case(pr, s);
		evals++;
		if(g_nontrivial) {
			nt++; if(distinct.size() < 800000) distinct.insert(s.sig);
			if(g_trace && (idx % 3 == 0 || idx > 100)) samples.push_back(g_trace_text.substr(0, 1500));
		}
		if(mode == "corpus") spit(fmtstr("%s/seed-%llu", a[0].c_str(), (unsigned long long)idx).c_str(), std::string((char*)sh->bytes, sh->len > 4000 ? 4000 : sh->len));
		if((slow || (idx & 63) == 63) && now() > end) break;
	}
	arm(0);
	if(mode == "run" && !out.empty()) {
		std::string h; h.reserve(distinct.size() * 8); for(uint64_t v : distinct) h.append((char*)&v, 8);
		spit(fmtstr("%s.hashes", out.c_str()).c_str(), h);
		std::string t = fmtstr("evals %llu\nnontrivial %llu\n", (unsigned long long)evals, (unsigned long long)nt);
		for(int i = 0; i < g_nlabels; i++) t += fmtstr("label %llu %s\n", (unsigned long long)g_labels[i], g_label_names[i]);
		t += fmtstr("rule %s\n", pr->rule);
		spit(fmtstr("%s.txt", out.c_str()).c_str(), t);
		std::string sm; for(auto& x : samples) { sm += x; sm += '\x1e'; }
		spit(fmtstr("%s.samples", out.c_str()).c_str(), sm);
	} else printf("evals %llu nontrivial %llu distinct %zu\n", (unsigned long long)evals, (unsigned long long)nt, distinct.size());
	return 0;
}
#endif
