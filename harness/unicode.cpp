/*
 * Monitors for character coding, classification and guarded text pointers, against independent coders and decoders
 */
#include "vh.h"
#include <memory>
#include <thread>
#include <atomic>
#include <char_encoding.h>
#include <char_ptr.h>
#include <utf8_ptr.h>
using namespace vh;

// ---- an independent codec for the documented 1-6 byte form of UTF-8 (6 bytes hold all 32 bits)
static int ref_len(uint32_t c) { return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x200000 ? 4 : c < 0x4000000 ? 5 : 6; }
static std::string ref_put(uint32_t c)
{
	int n = ref_len(c); std::string s;
	if (n == 1) return std::string(1, (char)c);
	static const int lead[] = { 0,0,0xC0,0xE0,0xF0,0xF8,0xFC };
	for (int i = 0; i < n-1; i++) { s.insert(s.begin(), (char)(0x80|(c&0x3F))); c >>= 6; }
	s.insert(s.begin(), (char)(lead[n]|c)); return s;
}
static int lead_len(unsigned char b) { return b < 0x80 ? 1 : b < 0xC0 ? 0 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : b < 0xFC ? 5 : 6; }
// Decode at i: the character and how many bytes. Illegal bytes stand for themselves.
static uint32_t ref_get(const std::string& s, size_t i, int& n)
{
	unsigned char b = s[i]; int len = lead_len(b);
	static const unsigned mask[] = { 0,0x7F,0x1F,0x0F,0x07,0x03,0x03 };
	bool ok = len > 0; uint32_t c = len ? b & mask[len] : 0;
	for (int k = 1; ok && k < len; k++) { if (i+k >= s.size() || ((unsigned char)s[i+k] & 0xC0) != 0x80) ok = false; else c = c<<6 | ((unsigned char)s[i+k]&0x3F); }
	if (!ok) { n = 1; return 0x80000000u|b; }
	n = len; return c;
}
struct Exact {	// an exactly sized heap buffer, NUL terminated, so that an overrun is seen
	std::unique_ptr<char[]> p; size_t n;
	Exact(const std::string& s) : p(new char[s.size()+1]), n(s.size()) { memcpy(p.get(), s.c_str(), n+1); }
	const char* b() const { return p.get(); }
	const char* e() const { return p.get()+n; }
};

// ---- U01
static bool excluded(uint32_t c) { return (c & 0xFFFFFF00u) == 0x80000000u || c == 0xFFFFFFFFu; }
static void u01_one(uint32_t c, char* buf)	// buf has 6 bytes of padding, then exactly 6 bytes
{
	if (excluded(c)) return;
	int n = ref_len(c); char enc[6]; { uint32_t v = c; static const int lead[] = { 0,0,0xC0,0xE0,0xF0,0xF8,0xFC }; for (int i = n-1; i > 0; i--) { enc[i] = (char)(0x80|(v&0x3F)); v >>= 6; } enc[0] = n == 1 ? (char)c : (char)(lead[n]|v); }
	char* start = buf+12-n;			// it ends at the end of the buffer
	auto bad = [&](const char* what, long got) { fail(fmt("U+%X: %s gave %ld", c, what, got)); };
	if (UTF8Len((UCS4)c) != n) bad("UTF8Len", UTF8Len((UCS4)c));
	if (n == 6 || n < 12) { for (char* q = buf; q < start; q++) *q = 'x'; }
	UTF8* w = start; UTF8Put(w, (UCS4)c);
	if (w != start+n) bad("UTF8Put advanced", w-start);
	if (memcmp(start, enc, n)) fail(fmt("U+%X: UTF8Put wrote '%s', expected '%s'", c, esc(std::string(start,n)).c_str(), esc(std::string(enc,n)).c_str()));
	if (buf[12-n-1] != 'x') fail("UTF8Put wrote before its start");
	const UTF8* r = start; UCS4 g = UTF8Get(r); if ((uint32_t)g != c) bad("UTF8Get", (uint32_t)g); if (r != start+n) bad("UTF8Get advanced", r-start);
	r = start; g = UTF8Peek(r); if ((uint32_t)g != c || r != start) bad("UTF8Peek", (uint32_t)g);
	if (UTF8Len((const UTF8*)start) != n) bad("UTF8Len of the encoding", UTF8Len((const UTF8*)start));
	if (UTF8CorrectLen(*start) != n) bad("UTF8CorrectLen", UTF8CorrectLen(*start));
	for (int i = 0; i < n; i++) { if (UTF8Is1st(start[i]) != (i == 0)) bad("UTF8Is1st of byte", i); if (UTF8Is2nd(start[i]) != (i != 0)) bad("UTF8Is2nd of byte", i); }
	for (int i = 1; i <= n; i++) {		// from anywhere within or after it
		const UTF8* b = UTF8Backup(start+i); if (b != start) bad("UTF8Backup moved", b-(start+i));
		b = UTF8Backup(start+i, start); if (b != start) bad("UTF8Backup limited moved", b-(start+i));
		b = UTF8Backup(start+i, buf); if (b != start) bad("UTF8Backup limited earlier moved", b-(start+i));
	}
	if (UTF8Backup(start, start) != 0) bad("UTF8Backup from its limit", 1);
}
CHECK(U01)
{
	const long blocks_all = 65536;	// all 2^32 values, in blocks of 65536
	const long low = 34;		// every value up to U+21FFFF
	while (next_case(VH_N(low+600), blocks_all)) {
		long i = st().index; uint32_t first;
		if (st().thorough) first = (uint32_t)i<<16;
		else if (i < low) first = (uint32_t)i<<16;
		else { static const uint32_t edges[] = { 0x3FFF,0x3FF,0x400,0x1FFF,0x2000,0x7FFF,0x8000,0x8001,0xFFFF,0xBFFF,0xC000,0x3FFE,0x4000,0xFFFE }; first = (i-low < 14 ? edges[i-low] : (uint32_t)rng().below(65536))<<16; }
		note(fmt("values U+%X to U+%X", first, first+0xFFFF));
		std::unique_ptr<char[]> buf(new char[12]); memset(buf.get(), 'x', 12);
		int step = !st().thorough && i >= low+14 ? 7 : 1;
		for (uint32_t k = 0; k < 0x10000; k += step) u01_one(first+k, buf.get());
		cover(fmt("length_%d", ref_len(first)), 0x10000/step); if (first == 0) { cover("length_1"); cover("length_2"); }
		seen(mix(first)); sample(st().casetext);
		if (i%16 == 0) {
			for (int n = 1; n <= 6; n++) {	// padded zero, as long as asked
				std::unique_ptr<char[]> z(new char[n]); UTF8* w = z.get(); UTF8PutPaddedZero(w, n); if (w != z.get()+n) fail("UTF8PutPaddedZero advanced wrongly");
				const UTF8* r = z.get(); UCS4 g = UTF8Get(r); if (g != 0 || r != z.get()+n) fail(fmt("a zero padded to %d bytes decodes to U+%X in %ld bytes", n, (unsigned)g, (long)(r-z.get())));
				if (UTF8Len((const UTF8*)z.get()) != n) fail("UTF8Len of a padded zero"); cover("padded_zero");
			}
			for (int b = 0x80; b < 0x100; b++) {	// the replacement for an illegal byte puts that byte back
				UCS4 c = UTF8EncodeIllegal((UTF8)b); if (!UCS4IsIllegal(c) || UTF8Len(c) != 1 || (uint32_t)c != (0x80000000u|b)) fail("a replacement value");
				std::unique_ptr<char[]> z(new char[2]); UTF8* w = z.get(); UTF8Put(w, c); *w = 0; if (w != z.get()+1 || (unsigned char)z[0] != b) fail("a replacement did not put its byte back");
				const UTF8* r = z.get(); if (UTF8Get(r) != c || r != z.get()+1) fail("an illegal byte did not give its replacement"); cover("replacements");
			}
		}
	}
}

// ---- U02: arbitrary bytes
static std::string junk(int maxlen, bool nuls)
{
	static const std::vector<std::string> frags = { "a", "b~", "\xC3", "\xC3\xA9", "\xE2\x82", "\xE2\x82\xAC", "\xF0\x9F\x98", "\xF0\x9F\x98\x80", "\x80", "\xBF\xBF", "\xFF", "\xFE", "\xF8\x88\x80\x80\x80", "\xF8\x88\x80", "\xFC\x84\x80\x80\x80\x80", "\xFC\x84\x80", "\xFC", "\xC0\x80", "\xED\xA0\x80", "\xE0\x80\x80", "\xF4\x90\x80\x80", "\xFD\xBF\xBF\xBF\xBF\xBF", "\xFF\xBF\xBF\xBF\xBF\xBF", "\xBF\xBF\xBF\xBF\xBF\xBF\xBF\xBF", "\xE1", "\xF7\xBF\xBF\xBF" };
	std::string s; int n = rng().below(maxlen+1);
	while ((int)s.size() < n) s += rng().chance(75) ? rng().pick(frags) : std::string(1, (char)rng().range(1,255));
	if (nuls && s.size() && rng().chance(20)) s[rng().below(s.size())] = 0;
	return s;
}
CHECK(U02)
{
	while (next_case(VH_N(4000000), 40000000)) {
		std::string s;
		if (st().index < 65536+256) {	// every sequence of one or two bytes, and a third from a few
			long i = st().index; if (i < 256) s = std::string(1, (char)i); else { i -= 256; s += (char)(i>>8); s += (char)i; if (rng().chance(70)) s += "\x80\xBF\xC2\x61"[rng().below(4)]; }
			size_t z = s.find('\0'); if (z != std::string::npos) s.resize(z);
		} else { s = junk(rng().chance(10) ? 60 : 12, false); size_t z = s.find('\0'); if (z != std::string::npos) s.resize(z); }
		if (s.size() && rng().chance(30)) s.resize(rng().below(s.size()+1));	// truncated
		note("bytes '"+esc(s)+"'");
		Exact x(s); std::vector<size_t> bounds; const UTF8* p = x.b(); size_t i = 0; bool illegal = false, legal = false;
		while (i < s.size()) {
			int n; uint32_t c = ref_get(s, i, n); bounds.push_back(i);
			const UTF8* q = p; int l = UTF8Len(q); if (l != n) fail(fmt("UTF8Len at byte %zu is %d, expected %d", i, l, n));
			UCS4 pk = UTF8Peek(q); if (q != p) fail("UTF8Peek moved");
			UCS4 g = UTF8Get(q);
			if ((uint32_t)g != c || pk != g) fail(fmt("at byte %zu decoded %X, expected %X", i, (unsigned)g, c));
			if (q != p+n) fail(fmt("at byte %zu advanced %ld bytes, expected %d", i, (long)(q-p), n));
			(n == 1 && (s[i] & 0x80) ? illegal : legal) = true;
			p = q; i += n;
		}
		if (p != x.e()) fail("decoding did not stop at the NUL");
		// backwards, the same boundaries
		const UTF8* b = x.e();
		for (size_t k = bounds.size(); k-- > 0; ) {
			b = UTF8Backup(b, x.b());
			if (b != x.b()+bounds[k]) fail(fmt("backing up to character %zu gave byte %ld, expected %zu", k, b ? (long)(b-x.b()) : -1L, bounds[k]));
		}
		if (UTF8Backup(x.b(), x.b()) != 0) fail("UTF8Backup from the limit");
		{	// and without a limit, where 6 bytes precede
			std::string t = "xxxxxx"+s; Exact y(t); const UTF8* b = y.e();
			for (size_t k = bounds.size(); k-- > 0; ) { b = UTF8Backup(b); if (b != y.b()+6+bounds[k]) fail(fmt("backing up without a limit to character %zu gave byte %ld, expected %zu", k, (long)(b-y.b())-6, bounds[k])); }
		}
		cover(illegal && legal ? "mixed" : illegal ? "all_illegal" : "all_legal"); seen(hash_str(s), s.size() > 1); sample(st().casetext);
	}
}

// ---- U03: UTF-16
CHECK(U03)
{
	while (next_case(272+VH_N(60000), 272+2000000)) {
		long i = st().index;
		if (i < 272) {	// every scalar value, alone
			note(fmt("scalar values U+%lX..", i*4096));
			for (uint32_t c = i*4096; c < (i+1)*4096u; c++) {
				UTF16 u = (UTF16)c;
				if (c < 0x10000) {
					if (UTF16IsSurrogate(u) != (c >= 0xD800 && c <= 0xDFFF) || UTF16Is1st(u) != (c >= 0xD800 && c <= 0xDBFF) || UTF16Is2nd(u) != (c >= 0xDC00 && c <= 0xDFFF)) fail(fmt("surrogate classification of %X", c));
					if (UTF16Swab(u) != (UTF16)(c>>8|c<<8)) fail("UTF16Swab");
				}
				if (c >= 0xD800 && c <= 0xDFFF) continue;
				int n = c > 0xFFFF ? 2 : 1; UTF16 e[2] = { (UTF16)(n == 1 ? c : 0xD800+((c-0x10000)>>10)), (UTF16)(0xDC00+((c-0x10000)&0x3FF)) };
				if (UTF16Len((UCS4)c) != n) fail(fmt("UTF16Len(U+%X)", c));
				if (n == 2 && (UCS4HighSurrogate(c) != e[0] || UCS4LowSurrogate(c) != e[1])) fail(fmt("surrogates of U+%X", c));
				for (int swap = 0; swap < 2; swap++) {
					std::unique_ptr<UTF16[]> z(new UTF16[n]); UTF16* w = z.get(); UTF16Put(w, c, swap);
					if (w != z.get()+n) fail(fmt("UTF16Put(U+%X) advanced %ld", c, (long)(w-z.get())));
					for (int k = 0; k < n; k++) { UTF16 v = swap ? (UTF16)(z[k]>>8|z[k]<<8) : z[k]; if (v != e[k]) fail(fmt("UTF16Put(U+%X) wrote %X as unit %d", c, v, k)); }
					const UTF16* r = z.get(); UCS4 g = UTF16Get(r, swap); if ((uint32_t)g != c || r != z.get()+n) fail(fmt("UTF16Get of U+%X gave U+%X in %ld", c, (unsigned)g, (long)(r-z.get())));
					if (UTF16Len((const UTF16*)z.get(), swap) != n) fail(fmt("UTF16Len of the units of U+%X", c));
					if (!swap) { const UTF16* r = z.get(); if ((uint32_t)UTF16Get(r) != c || r != z.get()+n || UTF16Len((const UTF16*)z.get()) != n) fail(fmt("UTF16Get or UTF16Len of U+%X, not told of an order", c)); UTF16 z2[2] = {0,0}; UTF16* w2 = z2; UTF16Put(w2, c); if (w2 != z2+n || memcmp(z2, z.get(), n*2)) fail(fmt("UTF16Put(U+%X), not told of an order", c)); }
				}
				cover(n == 1 ? "one_unit" : "two_units");
			}
			seen(mix(i)); continue;
		}
		std::vector<uint32_t> u; int n = rng().below(20); for (int k = 0; k < n; k++) { uint32_t c; do c = rng().chance(40) ? rng().range(0x10000,0x10FFFF) : rng().chance(50) ? rng().range(1,0x7FF) : rng().range(1,0xFFFF); while (c >= 0xD800 && c < 0xE000); u.push_back(c); }
		std::string t = "text"; for (uint32_t c : u) t += fmt(" U+%X", c); note(t); bool swap = rng().chance(50);
		// UTF-8 to UTF-16 and back
		std::string s; for (uint32_t c : u) s += ref_put(c); Exact x(s); size_t units = 0; for (uint32_t c : u) units += c > 0xFFFF ? 2 : 1;
		std::unique_ptr<UTF16[]> z(new UTF16[units ? units : 1]); UTF16* w = z.get(); const UTF8* p = x.b();
		while (p < x.e()) UTF16Put(w, UTF8Get(p), swap);
		if (w != z.get()+units) fail("the number of units");
		std::unique_ptr<char[]> back(new char[s.size()+1]); UTF8* q = back.get(); const UTF16* r = z.get(); size_t k = 0;
		while (r < z.get()+units) { int l = UTF16Len(r, swap); const UTF16* r0 = r; UCS4 g = UTF16Get(r, swap); if (r-r0 != l) fail("UTF16Len and UTF16Get disagree"); if (k >= u.size() || (uint32_t)g != u[k]) fail(fmt("character %zu is U+%X", k, (unsigned)g)); UTF8Put(q, g); k++; }
		if (k != u.size() || q != back.get()+s.size() || memcmp(back.get(), s.data(), s.size())) fail("UTF-8 to UTF-16 and back");
		seen(hash_str(s), n > 1); sample(t); cover("texts");
	}
}

// ---- U04: classification and case mapping
struct Uni { uint32_t c, up, lo, ti; int digit; int alpha; };
static const Uni unidata[] = {
#include "unidata.inc"
};
static std::map<uint32_t,Uni>& uni() { static std::map<uint32_t,Uni> m; if (m.empty()) for (auto& u : unidata) m[u.c] = u; return m; }
static Uni want(uint32_t c) { auto& m = uni(); auto i = m.find(c); if (i != m.end()) return i->second; return Uni{c,c,c,c,-1,0}; }
static bool white(uint32_t c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == 0xA0 || (c >= 0x2000 && c <= 0x200B) || c == 0x2028 || c == 0x2029 || c == 0x3000; }
enum { UP, LO, TI, DI, HEX, AL, REST, NFUN };
static const char* fname[] = { "UCS4ToUpper", "UCS4ToLower", "UCS4ToTitle", "UCS4Digit", "UCS4HexDigit", "UCS4IsAlphabetic", "other classification" };
static std::string judge(int f, uint32_t c, const Uni& e)	// empty if right
{
	long g = 0, w = 0;
	switch (f) {
	case UP: g = (uint32_t)UCS4ToUpper(c); w = e.up; break;
	case LO: g = (uint32_t)UCS4ToLower(c); w = e.lo; break;
	case TI: g = (uint32_t)UCS4ToTitle(c); w = e.ti; break;
	case DI: g = UCS4Digit(c); w = e.digit; break;
	case HEX: g = UCS4HexDigit(c); w = e.digit >= 0 ? e.digit : c >= 'A' && c <= 'F' ? (int)(c-'A'+10) : c >= 'a' && c <= 'f' ? (int)(c-'a'+10) : -1; break;
	case AL: g = UCS4IsAlphabetic(c); w = e.alpha; break;
	default:
		if (UCS4IsDecimal(c) != (e.digit >= 0) || isdigit((UCS4)c) != (e.digit >= 0)) return "isdigit";
		if (isalpha((UCS4)c) != (bool)e.alpha || isalnum((UCS4)c) != (e.alpha || e.digit >= 0)) return "isalpha or isalnum";
		if (islower((UCS4)c) != (e.up != c) || isupper((UCS4)c) != (e.lo != c) || (uint32_t)toupper((UCS4)c) != e.up || (uint32_t)tolower((UCS4)c) != e.lo) return "islower, isupper, toupper or tolower";
		if (UCS4IsWhite(c) != white(c) || isspace((UCS4)c) != white(c)) return "UCS4IsWhite";
		if (UCS4IsASCII(c) != (c < 0x80) || UCS4IsLatin1(c) != (c < 0x100) || UCS4IsUTF16(c) != (c < 0x10000) || UCS4IsUnicode(c) != (c < 0x110000) || UCS4IsASCIIPrintable(c) != (c >= 32 && c < 127)) return "UCS4IsASCII, Latin1, UTF16, Unicode or ASCIIPrintable";
		if (ASCIIDigit(c) != (c >= '0' && c <= '9' ? (int)(c-'0') : -1)) return "ASCIIDigit";
		return "";
	}
	if (g != w) return fmt("%s(U+%X) = %lX, expected %lX", fname[f], c, g, w);
	return "";
}
static uint32_t interesting(Rng& r)
{
	const Uni& u = unidata[r.below(sizeof unidata/sizeof *unidata)];
	switch (r.below(8)) { case 0: return u.c-1; case 1: return u.c+1; case 2: return r.below(0x110000); case 3: return r.below(0x300); case 4: return u.up; case 5: return u.lo; default: return u.c; }
}
CHECK(U04)
{
	uni();
	while (next_case(272+VH_N(6000), 272+200000)) {
		long i = st().index;
		if (i < 272) {	// every character, by every function
			note(fmt("characters U+%lX..", i*4096));
			for (uint32_t c = i*4096; c < (i+1)*4096u; c++) { Uni e = want(c); for (int f = 0; f < NFUN; f++) { std::string w = judge(f, c, e); if (w.size()) fail(w); } }
			seen(mix(i)); cover("every_character"); continue;
		}
		// random order: an answer must not depend on what was asked before
		std::vector<std::pair<int,uint32_t>> q; int n = 300; std::string t = "queries";
		for (int k = 0; k < n; k++) { uint32_t c = rng().chance(2) ? (uint32_t)rng().next() : interesting(rng()); q.push_back({ (int)rng().below(NFUN), c }); if (k >= n-0) t += ""; }
		note(t);
		std::string recent;
		for (auto& p : q) {
			Uni e = want(p.second); recent += fmt(" %s(U+%X)", fname[p.first], p.second);
			std::string w = judge(p.first, p.second, e); if (w.size()) { note_raw("queries"+recent); fail(w+" after other queries"); }
		}
		cover("random_order_queries", n); seen(hash_str(recent)); sample("queries"+recent);
	}
}
// The same in several threads, under ThreadSanitizer
static Reg reg_U04t("U04:threads", [] {
	uni();
	while (next_case(320, 8000)) {
		note("concurrent queries"); uint64_t seed = rng().next(); std::atomic<int> bad(0), go(0); std::string why[4]; const int T = 4;
		std::vector<std::thread> th;
		for (int t = 0; t < T; t++) th.emplace_back([&, t] {
			Rng r(seed+t); go++; while (go < T) ; 
			for (int k = 0; k < 2000 && !bad; k++) { uint32_t c = interesting(r); auto& m = uni(); auto it = m.find(c); Uni e = it != m.end() ? it->second : Uni{c,c,c,c,-1,0}; std::string w = judge(r.below(NFUN), c, e); if (w.size()) { why[t] = w; bad = 1; } }
		});
		for (auto& x : th) x.join();
		for (auto& w : why) if (w.size()) fail(w+" among concurrent queries");
		cover("concurrent_queries", T*2000); seen(seed); sample(fmt("4 threads, seed %llu", (unsigned long long)seed));
	}
});

// ---- U05: guarded text pointers
struct PtrModel { std::string s; std::vector<size_t> pos; size_t at = 0, lo = 0; };	// pos: boundaries, with the end last
template<class P, bool NulGuard, bool BotGuard, bool Utf> struct PtrTest {
	static void check(P& p, const Exact& x, const PtrModel& m, const char* what)
	{
		const char* d = (const char*)p; long off = d-x.b();
		if (off != (long)m.pos[m.at]) fail(fmt("%s: the pointer is at byte %ld, expected %zu", what, off, m.pos[m.at]));
		bool eof = m.at == m.pos.size()-1;
		if (p.at_eof() != eof) fail(fmt("%s: at_eof", what));
		uint32_t e; int n; if (eof) e = 0; else if (Utf) e = ref_get(m.s, m.pos[m.at], n); else e = (unsigned char)m.s[m.pos[m.at]];
		uint32_t g = Utf ? (uint32_t)*p : (unsigned char)(char)*p; if (g != e) fail(fmt("%s: reads %X, expected %X", what, g, e));
		bot(p, m, what);
	}
	template<class Q> static auto botx(Q& p, int) -> decltype(p.at_bot()) { return p.at_bot(); }
	template<class Q> static bool botx(Q&, long) { return false; }
	static void bot(P& p, const PtrModel& m, const char* what) { if (BotGuard && botx(p, 0) != (m.at == m.lo)) fail(fmt("%s: at_bot", what)); }
	static void run(const char* name)
	{
		PtrModel m;
		if (Utf) { m.s = junk(14, false); size_t z = m.s.find('\0'); if (z != std::string::npos) m.s.resize(z); if (!BotGuard) while (m.s.size() && (m.s[0]&0xC0) == 0x80) m.s.erase(0, 1);	/* an unlimited backup may look before a stray trailing byte */ for (size_t i = 0; i < m.s.size(); ) { m.pos.push_back(i); int n; ref_get(m.s, i, n); i += n; } }
		else { int n = rng().below(12); for (int i = 0; i < n; i++) { m.s += (char)rng().range(1,255); m.pos.push_back(i); } }
		m.pos.push_back(m.s.size());
		Exact x(m.s); note(fmt("%s over '%s'", name, esc(m.s).c_str()));
		m.at = m.lo = rng().chance(70) ? 0 : rng().below(m.pos.size());
		P p(x.b()+m.pos[m.at]); check(p, x, m, "constructed"); P other(x.b()+m.pos[m.at]); size_t other_at = m.at, other_lo = m.lo;
		long last = m.pos.size()-1; int steps = rng().range(5,30);
		auto clamp = [&](long to) -> long { if (to > last) to = last; if (to < (long)m.lo && BotGuard) to = m.lo; return to; };
		for (int k = 0; k < steps; k++) {
			int op = rng().below(17); long by = rng().chance(10) ? (rng().chance(50) ? 2147483647L : -2147483647L) : rng().range(-8,8); if (rng().chance(10)) by = 0;
			long room_back = m.at;	// without a guard below, stay within the text
			auto ok = [&](long d) { if (!BotGuard && (long)m.at+d < 0) return false; if (!NulGuard && (long)m.at+d > last) return false; return true; };
			(void)room_back;
			switch (op) {
			case 0: if (!ok(1)) break; note_more("; ++p"); { P& r = ++p; m.at = clamp(m.at+1); if (&r != &p) fail("++p returned another"); } break;
			case 1: { if (!ok(1)) break; note_more("; p++"); size_t was = m.at; auto o = p++; if ((const char*)o != x.b()+m.pos[was]) fail("p++ returned the wrong place"); m.at = clamp(m.at+1); break; }
			case 2: if (!ok(-1)) break; note_more("; --p"); --p; m.at = clamp((long)m.at-1); break;
			case 3: { if (!ok(-1)) break; note_more("; p--"); size_t was = m.at; auto o = p--; if ((const char*)o != x.b()+m.pos[was]) fail("p-- returned the wrong place"); m.at = clamp((long)m.at-1); break; }
			case 4: case 5: if (!ok(by)) break; note_more(fmt("; p+=%ld", by)); p += (int)by; m.at = clamp((long)m.at+by); break;
			case 6: case 7: if (!ok(-by)) break; note_more(fmt("; p-=%ld", by)); p -= (int)by; m.at = clamp((long)m.at-by); break;
			case 8: { if (!ok(by)) break; note_more(fmt("; p+%ld", by)); P t = p+(int)by; PtrModel n = m; n.at = clamp((long)m.at+by); check(t, x, n, "p+n"); if (rng().chance(50)) { p = t; m.at = n.at; } break; }
			case 9: { if (!ok(-by)) break; note_more(fmt("; p-%ld", by)); P t = p-(int)by; PtrModel n = m; n.at = clamp((long)m.at-by); check(t, x, n, "p-n"); if (rng().chance(50)) { p = t; m.at = n.at; } break; }
			case 10: { note_more("; copy"); P t(p); P u; u = t; check(t, x, m, "a copy"); check(u, x, m, "an assigned copy"); if (ok(1)) { ++t; check(p, x, m, "the original of an incremented copy"); } p = u; break; }
			case 11: { note_more("; difference"); if ((p-other) != (long)m.pos[m.at]-(long)m.pos[other_at]) fail("the difference of two pointers"); if ((p-x.b()) != (long)m.pos[m.at]) fail("the difference from a char*"); break; }
			case 12: other = p; other_at = m.at; other_lo = m.lo; break;
			case 13: if (!ok(1)) break; note_more("; preincr/postincr"); { size_t was = m.at; if (rng().chance(50)) p.preincr(); else { auto o = p.postincr(); if ((const char*)o != x.b()+m.pos[was]) fail("postincr returned the wrong place"); } m.at = clamp(m.at+1); } break;
			case 14: if (!ok(-1)) break; note_more("; predecr/postdecr"); { size_t was = m.at; if (rng().chance(50)) p.predecr(); else { auto o = p.postdecr(); if ((const char*)o != x.b()+m.pos[was]) fail("postdecr returned the wrong place"); } m.at = clamp((long)m.at-1); } break;
			case 15: extra(p, m); break;
			case 16: { note_more("; assigned a pointer with another origin"); PtrModel n = m; n.lo = n.at = rng().below(m.pos.size()); P t(x.b()+m.pos[n.lo]); if (rng().chance(50) && n.at < (size_t)last) { ++t; n.at++; } p = t; if (n.lo > m.lo) cover("later_origin"); m.lo = n.lo; m.at = n.at; break; }
			}
			check(p, x, m, "after an operation");
			{ PtrModel n = m; n.at = other_at; n.lo = other_lo; check(other, x, n, "another pointer"); }
			cover(m.at == 0 ? "at_start" : m.at == (size_t)last ? "at_end" : "inside");
		}
		seen(hash_str(st().casetext), m.s.size() > 1); cover(name); sample(st().casetext);
	}
	template<class Q> static auto extrax(Q& p, const PtrModel& m, int) -> decltype(p.is1st(), void())
	{
		unsigned char b = m.at == m.pos.size()-1 ? 0 : m.s[m.pos[m.at]];
		if (p.is1st() != ((b&0xC0) != 0x80)) fail("is1st");
		int n = 1; if (m.at < m.pos.size()-1) ref_get(m.s, m.pos[m.at], n); if (p.len() != n) fail(fmt("len() = %d, expected %d", p.len(), n));
		if (Q::len((UCS4)0x20AC) != 3) fail("len(UCS4)");
	}
	template<class Q> static void extrax(Q&, const PtrModel&, long) {}
	static void extra(P& p, const PtrModel& m) { extrax(p, m, 0); }
};
CHECK(U05)
{
	while (next_case(VH_N(800000), 10000000)) {
		switch (rng().below(6)) {
		case 0: PtrTest<UnGuardedCharPtr,false,false,false>::run("UnGuardedCharPtr"); break;
		case 1: PtrTest<NulGuardedCharPtr,true,false,false>::run("NulGuardedCharPtr"); break;
		case 2: PtrTest<GuardedCharPtr,true,true,false>::run("GuardedCharPtr"); break;
		case 3: PtrTest<NulGuardedUTF8Ptr,true,false,true>::run("NulGuardedUTF8Ptr"); break;
		default: PtrTest<GuardedUTF8Ptr,true,true,true>::run("GuardedUTF8Ptr"); break;
		}
	}
}
