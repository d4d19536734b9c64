/*
 * Common machinery of the harnesses: seeded case generation, current-case recording for replay,
 * observation counters, and the oracle's failure exit. Uses nothing of the code under test.
 */
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <chrono>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>

namespace vh {

inline uint64_t mix(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x^(x>>30))*0xBF58476D1CE4E5B9ull; x = (x^(x>>27))*0x94D049BB133111EBull; return x^(x>>31); }
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{ const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return mix(h); }
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

#ifdef VH_FUZZ	// Under libFuzzer, the choices come from its input while that lasts
inline const uint8_t*& fuzz_at() { static const uint8_t* p; return p; }
inline const uint8_t*& fuzz_end() { static const uint8_t* p; return p; }
inline bool fuzz_bytes(uint64_t& v, int n) { if (fuzz_end()-fuzz_at() < n) return false; v = 0; while (n--) v = v<<8 | *fuzz_at()++; return true; }
#endif
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
#ifdef VH_FUZZ
	uint64_t below(uint64_t n) { uint64_t v; return n < 2 ? 0 : fuzz_bytes(v, n <= 256 ? 1 : n <= 65536 ? 2 : n <= 1ull<<32 ? 4 : 8) ? v%n : step()%n; }
	uint64_t next() { uint64_t v; return fuzz_bytes(v, 4) ? mix(v) : step(); }
	uint64_t step() { s += 0x9E3779B97F4A7C15ull; uint64_t x = s; x = (x^(x>>30))*0xBF58476D1CE4E5B9ull; x = (x^(x>>27))*0x94D049BB133111EBull; return x^(x>>31); }
#else
	uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t x = s; x = (x^(x>>30))*0xBF58476D1CE4E5B9ull; x = (x^(x>>27))*0x94D049BB133111EBull; return x^(x>>31); }
	uint64_t below(uint64_t n) { return n ? next()%n : 0; }
#endif
	long range(long lo, long hi) { return lo + (long)below((uint64_t)(hi-lo+1)); }	// inclusive
	bool chance(int pct) { return (int)below(100) < pct; }
	template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct State {
	std::string	check;
	uint64_t	seed = 1;
	bool		thorough = false;
	long		only = -1;
	long		shard = 0, nshards = 1;
	long		index = -1;
	long		evaluations = 0;
	long		observed = 0;
	double		budget = 300;
	char*		cur = 0;
	size_t		cur_size = 1<<20;
	std::string	stats;
	std::unordered_set<uint64_t> distinct;
	std::map<std::string,long> cover;
	std::vector<std::string> samples;
	std::string	casetext;
	Rng		rng;
	std::chrono::steady_clock::time_point t0;
	bool		verbose = false;
	std::vector<std::string> args;
};
inline State& st() { static State s; return s; }
inline Rng& rng() { return st().rng; }
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now()-st().t0).count(); }

// Record what is about to be done, so that a crash, hang or sanitizer report can be replayed and explained
inline void note_raw(const std::string& s)
{
	State& S = st();
	S.casetext = s;
	if (S.cur) {
		size_t n = std::min(s.size(), S.cur_size-64);
		int h = snprintf(S.cur, 32, "%ld\n", S.index);
		memcpy(S.cur+h, s.data(), n);
		S.cur[h+n] = 0;
	}
	if (S.verbose) fprintf(stderr, "CASE %ld: %s\n", S.index, s.c_str());
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf,1,2)));
inline std::string fmt(const char* f, ...)
{ va_list a; va_start(a, f); char* p = 0; int n = vasprintf(&p, f, a); va_end(a); std::string s(p, n); free(p); return s; }
inline void note(const std::string& s) { note_raw(s); }
inline void note_more(const std::string& s) { State& S = st(); std::string t = S.casetext+s; if (t.size() > S.cur_size/2) t = t.substr(t.size()-S.cur_size/4); note_raw(t); }

[[noreturn]] inline void fail(const std::string& why)
{
	fflush(stdout);
	fprintf(stderr, "ORACLE-FAIL check=%s case=%ld: %s\n--- case: %s\n", st().check.c_str(), st().index, why.c_str(), st().casetext.c_str());
	fflush(stderr);
#ifdef VH_FUZZ
	abort();
#endif
	_exit(3);
}
#define VH_REQUIRE(c, why)	do { if (!(c)) vh::fail(std::string(#c) + " -- " + (why)); } while (0)

inline void cover(const std::string& tag, long n = 1) { st().cover[tag] += n; }
// Count a distinct non-trivial observation
inline void seen(uint64_t h, bool nontrivial = true)
{
	st().observed++;
	if (nontrivial && st().distinct.size() < 500000) st().distinct.insert(h);	// (an undercount beyond that)
}
inline void sample(const std::string& s) { if (st().samples.size() < 3) st().samples.push_back(s.substr(0, 600)); }

// Advance to the next case. Each case depends only on (check, seed, index), so it can be replayed alone.
inline bool next_case(long n_quick, long n_thorough)
{
	State& S = st();
	if (S.only >= 0) {
		if (S.index >= 0) return false;
		S.index = S.only;
	} else {
		if (S.index < 0) S.index = S.shard; else S.index += S.nshards;
		if (S.index >= (S.thorough ? n_thorough : n_quick)) return false;
		if (elapsed() > S.budget) { cover("stopped_by_budget"); return false; }
	}
	S.evaluations++;
	S.rng = Rng(mix(S.seed*1000003 + hash_str(S.check)) ^ mix((uint64_t)S.index));
	return true;
}

inline std::string jq(const std::string& s)
{
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o+"\"";
}
inline std::string esc(const std::string& s)	// printable form of bytes
{
	std::string o;
	for (unsigned char c : s) {
		if (c < 32 || c >= 127 || c == '\\') { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; }
		else o += c;
	}
	return o;
}

typedef void (*CheckFn)();
inline std::map<std::string,CheckFn>& checks() { static std::map<std::string,CheckFn> m; return m; }
struct Reg { Reg(const char* n, CheckFn f) { checks()[n] = f; } };
// A probe shows whether a known finding is still present; it leaves by present() or by returning
#define PROBE(name, key) static void probe_##name(); static vh::Reg reg_probe_##name("probe:" key, probe_##name); static void probe_##name()
inline void present() { fflush(stdout); _exit(10); }
#define CHECK(id)	static void check_##id(); static vh::Reg reg_##id(#id, check_##id); static void check_##id()

// Run f in a child; return its wait status, stderr discarded. Only for single-threaded harnesses.
inline int in_child(const std::function<void()>& f, bool quiet = true)
{
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		if (quiet) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); }
		struct rlimit rl = {0,0}; setrlimit(RLIMIT_CORE, &rl);
		f();
		_exit(0);
	}
	int status = 0;
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR) ;
	return status;
}

inline void write_stats()
{
	State& S = st();
	if (S.stats.empty()) return;
	FILE* f = fopen(S.stats.c_str(), "w");
	if (!f) { fprintf(stderr, "HARNESS-ERROR cannot write stats\n"); _exit(4); }
	fprintf(f, "{\"evaluations\": %ld, \"observed\": %ld, \"cover\": {", S.evaluations, S.observed);
	bool first = true;
	for (auto& c : S.cover) { fprintf(f, "%s%s: %ld", first ? "" : ", ", jq(c.first).c_str(), c.second); first = false; }
	fprintf(f, "}, \"samples\": [");
	first = true;
	for (auto& s : S.samples) { fprintf(f, "%s%s", first ? "" : ", ", jq(s).c_str()); first = false; }
	fprintf(f, "], \"distinct\": [");
	first = true;
	for (uint64_t h : S.distinct) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)h); first = false; }
	fprintf(f, "]}\n");
	fclose(f);
}

inline int main_(int argc, char** argv)
{
	State& S = st();
	std::string cur;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() -> std::string { if (i+1 >= argc) { fprintf(stderr, "HARNESS-ERROR missing value for %s\n", a.c_str()); exit(4); } return argv[++i]; };
		if (a == "--check") S.check = val();
		else if (a == "--seed") S.seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--tier") S.thorough = val() == "thorough";
		else if (a == "--case") S.only = atol(val().c_str());
		else if (a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%ld/%ld", &S.shard, &S.nshards); }
		else if (a == "--budget") S.budget = atof(val().c_str());
		else if (a == "--cur") cur = val();
		else if (a == "--stats") S.stats = val();
		else if (a == "-v") S.verbose = true;
		else S.args.push_back(a);
	}
	S.casetext.reserve(1<<20);
	S.t0 = std::chrono::steady_clock::now();
	if (!cur.empty()) {
		int fd = open(cur.c_str(), O_RDWR|O_CREAT|O_TRUNC, 0644);
		if (fd < 0 || ftruncate(fd, S.cur_size) < 0) { fprintf(stderr, "HARNESS-ERROR cur\n"); return 4; }
		S.cur = (char*)mmap(0, S.cur_size, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
		close(fd);
	}
	auto it = checks().find(S.check);
	if (it == checks().end()) { fprintf(stderr, "HARNESS-ERROR no check %s\n", S.check.c_str()); return 4; }
	it->second();
	note_raw("(after the last case)");
	write_stats();
	fprintf(stderr, "DONE check=%s evaluations=%ld distinct=%zu %.1fs\n", S.check.c_str(), S.evaluations, S.distinct.size(), elapsed());
	if (S.verbose) for (auto& c : S.cover) fprintf(stderr, "  %s=%ld\n", c.first.c_str(), c.second);
	return 0;
}

}	// namespace vh
#ifdef VH_VALGRIND
#define VH_N(n)	((n)/100 > 40 ? (n)/100 : 40)	// valgrind is slow: fewer cases
#else
#define VH_N(n)	(n)
#endif
#ifdef VH_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace vh { inline size_t heap_bytes() { return __sanitizer_get_current_allocated_bytes(); } }
#else
namespace vh { inline size_t heap_bytes() { return 0; } }
#endif
#ifdef VH_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
	using namespace vh; State& S = st();
	if (S.check.empty()) { S.check = getenv("VH_CHECK"); S.verbose = getenv("VH_VERBOSE"); S.casetext.reserve(1<<20); }
	if (size < 4) return 0;
	S.t0 = std::chrono::steady_clock::now(); S.seed = 1; S.index = -1; S.distinct.clear();
	fuzz_at() = data; fuzz_end() = data+size; uint64_t i; fuzz_bytes(i, 3); S.only = i;
	checks()[S.check]();
	return 0;
}
#elif !defined(VH_NO_MAIN)
int main(int argc, char** argv) { return vh::main_(argc, argv); }
#endif
