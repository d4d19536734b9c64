// E01: ErrNum and Error
#include "vh.h"
#include <error.h>
#include <strval.h>
using namespace vh;

static constexpr ErrNum c_zero; static constexpr ErrNum c_one(1,2); static constexpr ErrNum c_max(0xFFFF,0x3FFF);
static int by_switch(ErrNum e) { switch (e) { case (int32_t)ErrNum(7,11): return 1; case (int32_t)ErrNum(0xFFFF,0x3FFF): return 2; case (int32_t)ErrNum(0x8000,0): return 3; case 0: return 4; } return 0; }
static int32_t layout(uint32_t set, uint32_t msg) { return (int32_t)(0xC0000000u | set<<14 | msg); }	// the documented fields
static void compare(ErrNum a, ErrNum b, int32_t x, int32_t y)
{
	if ((a == b) != (x == y) || (a != b) == (x == y)) fail(fmt("equality of %08x and %08x", x, y));
	if ((a < y) != (x < y) || (a > y) != (x > y) || (a == y) != (x == y)) fail(fmt("comparison of %08x with the number %08x", x, y));
	if ((bool)(int32_t)a != (x != 0)) fail(fmt("truth of %08x", x));
}
struct EM { int32_t num; const char* text; const void* par; };
static void same(const Error& e, const EM& m, const char* when)
{
	int32_t n = e; ErrNum en = e;
	if (n != m.num || (int32_t)en != m.num) fail(fmt("after %s an Error has number %08x/%08x, expected %08x", when, n, (int32_t)en, m.num));
	if (e.default_text() != m.text) fail(fmt("after %s an Error has another default text", when));
	if (e.parameters() != m.par) fail(fmt("after %s an Error has other parameters", when));
}
static Error pass(Error e) { return e; }
static uint32_t field(uint32_t max) { switch (rng().below(5)) { case 0: return 0; case 1: return max; case 2: return 1u<<rng().below(max == 0xFFFF ? 16 : 14); case 3: return rng().below(20); } return rng().below(max+1); }
static int32_t raw()	// a 32-bit number: errno, HRESULT-like, or any
{
	switch (rng().below(5)) { case 0: return 0; case 1: return rng().range(1,200); case 2: return (int32_t)(0x80070000u|rng().below(0x10000)); case 3: return (int32_t)(1u<<rng().below(32)); } return (int32_t)rng().next();
}
static int32_t flagged(int32_t n) { return n ? (int32_t)((uint32_t)n|0xC0000000u) : 0; }
CHECK(E01)
{
	if (st().shard == 0) {
		if ((int32_t)c_zero != 0 || (int32_t)c_one != layout(1,2) || (int32_t)c_max != -1 || c_one.set() != 1 || c_one.msg() != 2) fail("constant ErrNum");
	}
	while (next_case(1024+60000, 1024+1200000)) {
		if (st().index < 1024) {	// every set and message number, 64 sets to a case
			note(fmt("all messages of sets %ld to %ld", st().index*64, st().index*64+63));
			for (uint32_t set = st().index*64, e = set+64; set < e; set++) for (uint32_t msg = 0; msg <= 0x3FFF; msg++) {
				ErrNum n(set, msg); int32_t w = layout(set, msg);
				if ((int32_t)n != w || n.set() != (int)set || n.msg() != (int)msg) fail(fmt("ErrNum(%u,%u) is %08x with set %d message %d", set, msg, (int32_t)n, n.set(), n.msg()));
				ErrNum c(n), r((int32_t)n); if ((int32_t)c != w || (int32_t)r != w) fail(fmt("a copy of %08x", w));
			}
			cover("sets", 64); seen(hash_str(st().casetext)); continue;
		}
		uint32_t s1 = field(0xFFFF), m1 = field(0x3FFF), s2 = rng().chance(60) ? s1 : field(0xFFFF), m2 = rng().chance(60) ? m1 : field(0x3FFF); int32_t x = raw();
		note(fmt("ErrNum(%u,%u) ErrNum(%u,%u) %08x", s1, m1, s2, m2, x));
		ErrNum a(s1, m1), b(s2, m2); compare(a, b, layout(s1,m1), layout(s2,m2));
		ErrNum k(x); int32_t fx = flagged(x);
		if ((int32_t)k != fx) fail(fmt("ErrNum(%08x) is %08x, expected %08x", x, (int32_t)k, fx));
		if (x && (k.set() != (int)((uint32_t)x>>14&0xFFFF) || k.msg() != (int)(x&0x3FFF))) fail("the fields of a number");
		compare(a, k, layout(s1,m1), fx); compare(k, b, fx, layout(s2,m2)); { ErrNum t; t = a; compare(t, b, layout(s1,m1), layout(s2,m2)); t = k; if ((int32_t)t != fx) fail("assigning an ErrNum"); }
		int sw = by_switch(a), want = layout(s1,m1) == layout(7,11) ? 1 : layout(s1,m1) == -1 ? 2 : layout(s1,m1) == layout(0x8000,0) ? 3 : 0; if (sw != want || by_switch(ErrNum()) != 4) fail("switch on an ErrNum");
		if (x == 0) cover("zero"); else cover(x > 0 ? "positive_numbers" : "negative_numbers");
		// a history of Errors
		size_t before = heap_bytes();
		{
			int n = rng().range(2,5); std::vector<Error> v(n); std::vector<EM> m(n, EM{0,0,0}); v.reserve(16); m.reserve(16);
			static const char* texts[] = { 0, "", "No such thing as %s", "%2$d of %1$s" }; static int pars[3];
			for (int i = 0; i < n; i++) same(v[i], m[i], "construction");
			int steps = rng().range(1,25); std::string h;
			for (int i = 0; i < steps; i++) {
				int j = rng().below(n), k = rng().below(n), op = rng().below(8); const char* name = "";
				switch (op) {
				case 0: case 1: { int32_t num = rng().chance(50) ? layout(field(0xFFFF), field(0x3FFF)) : raw(); const char* t = texts[rng().below(4)]; const void* p = rng().chance(30) ? 0 : &pars[rng().below(3)]; name = "construction"; v[j] = Error(num, t, p); m[j] = EM{flagged(num), t, p}; break; }
				case 2: name = "assignment"; v[j] = v[k]; m[j] = m[k]; break;
				case 3: name = "self-assignment"; { Error& self = v[j]; v[j] = self; } break;
				case 4: name = "copying"; { Error c(v[k]); same(c, m[k], "copying"); v[j] = c; m[j] = m[k]; } break;
				case 5: name = "passing by value"; { Error c = pass(v[k]); same(c, m[k], name); } break;
				case 6: name = "clearing"; v[j] = Error(); m[j] = EM{0,0,0}; break;
				case 7: name = "construction from an ErrNum"; { uint32_t s = field(0xFFFF), g = field(0x3FFF); v[j] = Error(ErrNum(s, g), texts[2]); m[j] = EM{layout(s,g), texts[2], 0}; } break;
				}
				cover(std::string("op_")+std::to_string(op)); h += fmt(" %d:%d,%d", op, j, k);
				for (int q = 0; q < n; q++) same(v[q], m[q], name);
			}
			note_more(h); sample(st().casetext);
		}
		seen(hash_str(st().casetext)); 
		st().casetext.clear(); (void)before;
	}
	// balance: nothing that an Error held remains
	size_t b0 = heap_bytes();
	for (int i = 0; i < 200; i++) { Error e(raw(), "x"), f(e), g; g = f; e = Error(5); g = g; if ((int32_t)f == 12345) cover("never"); }
	if (heap_bytes() != b0) fail("Errors left memory allocated");
	cover("heap_balanced");
}
