/*
 * Monitors for StrVal: each value in a pool is shadowed by a plain sequence of code points, and after every
 * operation the whole pool is compared, so an operation that disturbs another value is seen at once.
 */
#include "vh.h"
#include "u8.h"
#include "refint.h"
#include "json.h"
#include <memory>
#include <deque>
#include <variant.h>
#include <strval.h>
using namespace vh;
typedef std::u32string U;

static const std::vector<char32_t> narrow = { 'a','b','c','A','z','0','9',' ','\n' };
static const std::vector<char32_t> wide = { 'a','b','Z',' ', 0x7F,0x80,0xE9,0xDF,0x100,0x131,0x149,0x3A3,0x7FF,0x800,0x20AC,0x3042,0xD7FF,0xE000,0xFFFD,0xFFFF,0x10000,0x1F600,0x10FFFF };

static char32_t any_char(int mode)
{
	switch (mode) {
	case 0: return rng().pick(narrow);
	case 1: return rng().chance(60) ? rng().pick(narrow) : rng().pick(wide);
	default:
		if (rng().chance(70)) return rng().pick(wide);
		for (;;) { char32_t c = rng().below(4) ? rng().range(1,0xFFFF) : rng().range(0x10000,0x10FFFF); if (c < 0xD800 || c > 0xDFFF) return c; }
	}
}
static U any_text(int mode, int maxlen)
{
	U u; int n = rng().chance(8) ? 0 : rng().range(1, maxlen);
	for (int i = 0; i < n; i++) u += any_char(mode);
	return u;
}
static std::string show(const U& u) { return esc(u8::enc(u)); }

// Compare a StrVal with its model without moving its bookmark
static void same(const StrVal& s, const U& m, const char* what)
{
	if (s.length() != m.size()) fail(fmt("%s: length %u, expected %zu", what, (unsigned)s.length(), m.size()));
	StrValIndex n = 0;
	const char* p = s.asUTF8(n);
	std::string e = u8::enc(m);
	if (n != e.size() || (n && memcmp(p, e.data(), n) != 0))
		fail(fmt("%s: content '%s', expected '%s'", what, esc(std::string(p ? p : "", p ? n : 0)).c_str(), esc(e).c_str()));
	if (s.isEmpty() != m.empty() || (bool)s == m.empty()) fail(std::string(what)+": isEmpty/bool");
}

struct Pool {
	std::vector<StrVal> v;
	std::vector<U> m;
	std::deque<std::string> bytes;			// Storage of static bodies
	std::deque<std::unique_ptr<StrBody>> bodies;
	int mode;
	bool nuls;
	~Pool() { v.clear(); }
	StrVal make(const U& u)
	{
		std::string e = u8::enc(u);
		bool nul = e.find('\0') != std::string::npos;
		switch (rng().below(nul ? 2 : 6)) {
		case 0: return StrVal(e.data(), (StrValIndex)e.size());
		case 1: return StrVal(e.data(), (StrValIndex)e.size(), e.size()+rng().below(20));
		case 2: return StrVal(e.c_str());
		case 3: if (u.size() == 1) return StrVal((UCS4)u[0]); return StrVal(e.c_str());
		case 4: {	// built up
			StrVal s; for (char32_t c : u) s += (UCS4)c; return s;
		}
		default: {	// copied out of a StrRef
			StrRef r(e.c_str()); return StrVal(r);
		}
		}
	}
	U text(int maxlen) { U u = any_text(mode, maxlen); if (nuls && u.size() && rng().chance(30)) u[rng().below(u.size())] = 0; return u; }
	int idx() { return rng().below(v.size()); }
	void verify(const char* what) { for (size_t i = 0; i < v.size(); i++) same(v[i], m[i], fmt("%s: value %zu", what, i).c_str()); }
};

static U upper(const U& u) { U r; for (char32_t c : u) r += (char32_t)UCS4ToUpper(c); return r; }
static U lower(const U& u) { U r; for (char32_t c : u) r += (char32_t)UCS4ToLower(c); return r; }

static U json_text(const U& u)
{
	U r; static const char hex[] = "0123456789ABCDEF";
	auto u4 = [&](unsigned v) { r += U"\\u"; for (int s = 12; s >= 0; s -= 4) r += hex[v>>s&15]; };
	for (char32_t c : u) switch (c) {
	case '"': r += U"\\\""; break; case '\\': r += U"\\\\"; break; case '/': r += U"\\/"; break;
	case '\b': r += U"\\b"; break; case '\f': r += U"\\f"; break; case '\n': r += U"\\n"; break; case '\r': r += U"\\r"; break; case '\t': r += U"\\t"; break;
	default: if (c < 32 || (c >= 0xD800 && c < 0xE000)) u4(c); else if (c > 0xFFFF) { u4(0xD800+((c-0x10000)>>10)); u4(0xDC00+((c-0x10000)&0x3FF)); } else r += c;
	}
	return r;
}

// One mutation or derivation; returns its name
static std::string step(Pool& P)
{
	int a = P.idx(), b = P.idx(), d = P.idx();
	StrVal& A = P.v[a]; U& ma = P.m[a];
	StrVal& B = P.v[b]; U& mb = P.m[b];
	size_t n = ma.size();
	switch (rng().below(27)) {
	case 0: { U u = P.text(12); P.v[d] = P.make(u); P.m[d] = u; return fmt("v%d='%s'", d, show(u).c_str()); }
	case 1: note_more(fmt("; v%d=v%d", d, a)); P.v[d] = A; P.m[d] = U(ma); return "";
	case 2: case 3: case 4: {
		StrValIndex at = rng().below(n+2); int len = rng().chance(20) ? -1 : rng().below(n+2);
		note_more(fmt("; v%d=v%d.substr(%u,%d)", d, a, at, len));
		StrVal r = A.substr(at, len);
		U e = at >= n ? U() : ma.substr(at, len < 0 ? U::npos : len);
		P.v[d] = r; P.m[d] = e; return "";
	}
	case 5: {
		int k = rng().below(n+1); int w = rng().below(3);
		note_more(fmt("; v%d=v%d.%s(%d)", d, a, w == 0 ? "head" : w == 1 ? "tail" : "shorter", k));
		StrVal r = w == 0 ? A.head(k) : w == 1 ? A.tail(k) : A.shorter(k);
		U e = w == 0 ? ma.substr(0,k) : w == 1 ? ma.substr(n-k) : ma.substr(0,n-k);
		P.v[d] = r; P.m[d] = e; return "";
	}
	case 6: {
		note_more(fmt("; v%d=v%d+v%d", d, a, b)); U e = ma+mb; if (e.size() > 300) return "";
		StrVal r = A+B; P.v[d] = r; P.m[d] = e; return "";
	}
	case 7: {	// two contiguous slices, joined
		size_t i = rng().below(n+1), j = i+rng().below(n-i+1), k = j+rng().below(n-j+1);
		note_more(fmt("; v%d=v%d[%zu,%zu)+[%zu,%zu)", d, a, i,j,j,k));
		StrVal x = A.substr(i, j-i), y = A.substr(j, k-j); U e = ma.substr(i, k-i);
		if (rng().chance(50)) { StrVal r = x+y; P.v[d] = r; } else { x += y; P.v[d] = x; }
		P.m[d] = e; return "";
	}
	case 8: {
		if (n+mb.size() > 300) return "";
		note_more(fmt("; v%d+=v%d", a, b)); U e = ma+mb; A += B; ma = e; return "";
	}
	case 9: { char32_t c = any_char(P.mode); note_more(fmt("; v%d+=U+%X", a, (unsigned)c)); if (n > 300) return ""; A += (UCS4)c; ma += c; return ""; }
	case 10: { char32_t c = any_char(P.mode); note_more(fmt("; v%d=v%d+U+%X", d, a, (unsigned)c)); if (n > 300) return ""; U e = ma+c; StrVal r = A+(UCS4)c; P.v[d] = r; P.m[d] = e; return ""; }
	case 11: {
		int k = rng().below(4); if (n*k > 300) return "";
		note_more(fmt("; v%d=v%d*%d", d, a, k)); U e; for (int i = 0; i < k; i++) e += ma;
		StrVal r = A*k; P.v[d] = r; P.m[d] = e; return "";
	}
	case 12: case 13: case 14: {
		size_t pos = rng().below(n+1); if (n+mb.size() > 300) return "";
		note_more(fmt("; v%d.insert(%zu,v%d)", a, pos, b)); U e = ma; e.insert(pos, mb);
		A.insert(pos, B); ma = e; return "";
	}
	case 15: {	// insert a slice of itself
		size_t pos = rng().below(n+1), i = rng().below(n+1), l = rng().below(n-i+1); if (n+l > 300) return "";
		note_more(fmt("; v%d.insert(%zu,itself[%zu,+%zu])", a, pos, i, l)); U e = ma; e.insert(pos, ma.substr(i,l));
		A.insert(pos, A.substr(i,l)); ma = e; return "";
	}
	case 16: { if (n+mb.size() > 300) return ""; bool ap = rng().chance(50); note_more(fmt("; v%d.%s(v%d)", a, ap ? "append" : "prepend", b)); U e = ap ? ma+mb : mb+ma; if (ap) A.append(B); else A.prepend(B); ma = e; return ""; }
	case 17: note_more(fmt("; v%d.toUpper", a)); { U e = upper(ma); A.toUpper(); ma = e; } return "";
	case 18: note_more(fmt("; v%d.toLower", a)); { U e = lower(ma); A.toLower(); ma = e; } return "";
	case 19: { bool up = rng().chance(50); note_more(fmt("; v%d=v%d.%s", d, a, up ? "asUpper" : "asLower")); U e = up ? upper(ma) : lower(ma); StrVal r = up ? A.asUpper() : A.asLower(); P.v[d] = r; P.m[d] = e; return ""; }
	case 20: { if (n > 40) return ""; bool cp = rng().chance(50); note_more(fmt("; v%d.JSON", a)); U e = json_text(ma); if (cp) { StrVal r = A.asJSON(); P.v[d] = r; P.m[d] = e; } else { A.toJSON(); ma = e; } return ""; }
	case 21: {	// transform: delete, double, or replace with a slice of another value
		int after = (int)rng().range(-1, n); int w = rng().below(4);
		if (n > 60) return "";
		note_more(fmt("; v%d.transform(%d, kind %d)", a, after, w)); U e;
		StrVal other = B; if (w == 3 && mb.size() > 5) other = B.head(5); U mo = w == 3 && mb.size() > 5 ? mb.substr(0,5) : mb; if (w == 3 && mo.size()*n > 300) return "";
		for (size_t i = 0; i < n; i++) if ((long)i <= after) e += ma[i]; else switch (w) { case 0: break; case 1: e += ma[i]; e += ma[i]; break; case 2: e += U"\u20AC"; break; case 3: e += mo; break; }
		A.transform([&](const char*& cp, const char* ep) -> StrVal {
			VH_REQUIRE(cp < ep, "transform called with no text left");
			UCS4 c = UTF8Get(cp);
			switch (w) { case 0: return StrVal(); case 1: return StrVal(c)+c; case 2: return StrVal("\xE2\x82\xAC"); default: return other; }
		}, after);
		ma = e; return "";
	}
	case 22: {	// a NUL-terminated form, which may copy a slice
		note_more(fmt("; v%d.asUTF8()", a)); const char* p = A.asUTF8(); std::string e = u8::enc(ma);
		if (memcmp(p, e.data(), e.size()) != 0 || p[e.size()] != 0) fail("asUTF8() is not the NUL-terminated text");
		return "";
	}
	case 23: { note_more(fmt("; v%d through StrRef", a)); StrRef r = A; StrRef r2; r2 = r; P.v[d] = StrVal(r2); P.m[d] = U(ma); return ""; }
	case 24: {	// a static body
		U u = P.text(10); if (u.find(U'\0') != U::npos || u.empty()) return "";
		note_more(fmt("; v%d=static '%s'", d, show(u).c_str()));
		P.bytes.push_back(u8::enc(u)); P.bodies.emplace_back(new StrBody(P.bytes.back().c_str(), StrStatic, rng().chance(50) ? P.bytes.back().size() : 0));
		StrVal s(P.bodies.back().get()); P.v[d] = s; P.m[d] = u; return "";
	}
	case 25: {	// via an array of strings
		if (ma.size()*2+mb.size() > 200) return "";
		note_more(fmt("; v%d=join", d)); if (ma.find(U'\0') != U::npos || mb.find(U'\0') != U::npos) return "";
		StringArray arr; arr << A; arr << B; arr << A; U mj = P.text(3); if (mj.find(U'\0') != U::npos) mj.clear();
		U e = ma+mj+mb+mj+ma;
		StrVal r = arr.join(P.make(mj)); same(arr[1], mb, "an element after join"); P.v[d] = r; P.m[d] = e; return "";
	}
	case 26: {	// build from borrowed characters that are overwritten afterwards
		U u = P.text(10); if (u.find(U'\0') != U::npos || u.empty() || n+u.size() > 300) return "";
		std::string b = u8::enc(u); std::unique_ptr<char[]> h(new char[b.size()+1]); memcpy(h.get(), b.c_str(), b.size()+1);
		int w = rng().below(9); size_t pos = rng().below(n+1); U e; size_t from = rng().chance(50) ? 0 : rng().below(u.size()), len = from ? rng().range(1, u.size()-from) : u.size(); const U whole = u; u = whole.substr(from, len);
		note_more(fmt("; v%d built from v%d and [%zu,+%zu) of borrowed '%s' (%d at %zu)", d, a, from, len, show(whole).c_str(), w, pos));
		{
			StrBody body(h.get(), StrStatic, rng().chance(50) ? b.size() : 0);
			StrVal r;
			{
				StrVal all(&body), s = from ? all.substr(from, len) : StrVal(&body);	// a slice still refers to the borrowed characters
				switch (w) {
				case 0: { StrVal c(s); r = c; e = u; break; }
				case 1: r = A; r += s; e = ma+u; break;
				case 2: r = A+s; e = ma+u; break;
				case 3: r = s+A; e = u+ma; break;
				case 4: r = A; r.insert(pos, s); e = ma; e.insert(pos, u); break;
				case 5: r = s*2; e = u+u; break;
				case 6: r = s.asUpper(); e = upper(u); break;
				case 7: { StringArray arr; arr << s; arr << s; r = arr.join(A); e = u+ma+u; if (e.find(U'\0') != U::npos) return ""; break; }
				default: { StrVal t; t += s; t.append(s); r = t; e = u+u; }
				}
			}
			if (body.GetRefCount() != 1) fail("borrowed characters are still referred to by a value built from them");
			memset(h.get(), '#', b.size());
			same(r, e, "a value built from borrowed characters");
			P.v[d] = r; P.m[d] = e;
		}
		return "";
	}
	}
	return "";
}

static const StrBody* kept_alive = 0;

CHECK(S01)
{
	while (next_case(VH_N(60000), 1200000)) {
		size_t before = 0; std::vector<std::string> used;
		uint64_t h = 0;
		for (int round = 0; round < 1; round++) {
			before = heap_bytes();
			Pool P; P.mode = rng().below(3); P.nuls = rng().chance(5);
			int k = rng().range(3,6);
			note("pool"); 
			for (int i = 0; i < k; i++) { U u = P.text(10); P.m.push_back(u); P.v.push_back(P.make(u)); note_more(fmt(" v%d='%s'", i, show(u).c_str())); }
			int steps = rng().range(5,60);
			for (int i = 0; i < steps; i++) {
				std::string w = step(P); if (w.size()) note_more("; "+w);
				P.verify("after an operation");
			}
			h = hash_str(st().casetext);
			P.v.clear();
			for (auto& b : P.bodies) VH_REQUIRE(b->GetRefCount() == 1, "a static body has references after all values are gone");
			P.bodies.clear();
		}
		if (st().index < 0) (void)kept_alive;
		size_t after = heap_bytes();
		VH_REQUIRE(after == before, fmt("%ld bytes leaked", (long)(after-before)));
		seen(h); cover("cases_balanced_heap"); sample(st().casetext);
	}
}

// ---- S02: content operations on whole strings and slices
static StrVal sliced(Pool& P, const U& u)	// the text u, as a slice of something longer
{
	switch (rng().below(4)) {
	case 0: return P.make(u);
	case 1: { U t = P.text(5); U all = u+t; return P.make(all).head(u.size()); }
	case 2: { U t = P.text(5); U all = t+u; return P.make(all).substr(t.size()); }
	default: { U t = P.text(5), s = P.text(5); U all = t+u+s; return P.make(all).substr(t.size(), u.size()); }
	}
}
static bool in(const U& set, char32_t c) { return set.find(c) != U::npos; }

CHECK(S02)
{
	while (next_case(VH_N(800000), 9000000)) {
		Pool P; P.mode = rng().below(3); P.nuls = rng().chance(12);
		U a, b;
		if (rng().chance(50)) { std::vector<char32_t> al = { 'a','b', P.nuls ? 0 : any_char(P.mode) }; int n = rng().below(14); for (int i = 0; i < n; i++) a += rng().pick(al); n = rng().below(4); for (int i = 0; i < n; i++) b += rng().pick(al); }
		else { a = P.text(14); b = rng().chance(50) && a.size() ? a.substr(rng().below(a.size()), rng().below(4)) : P.text(3); }
		note(fmt("a '%s' b '%s'", show(a).c_str(), show(b).c_str()));
		StrVal A = sliced(P, a), B = sliced(P, b);
		if (rng().chance(20) && b.size() && a.find(b) != U::npos) { B = A.substr(a.find(b), b.size()); cover("needle_shares_body"); }
		same(A, a, "a"); same(B, b, "b");
		long n = a.size(), m = b.size();
		char32_t c = a.size() && rng().chance(70) ? a[rng().below(a.size())] : any_char(P.mode);
		for (long after = -1; after < n; after++) {
			auto chk = [&](const char* f, long got, long want) { if (got != want) fail(fmt("%s(U+%X/b, after %ld) = %ld, expected %ld", f, (unsigned)c, after, got, want)); cover(want < 0 ? "search_absent" : "search_found"); };
			long w; 
			w = -1; for (long i = after+1; i < n; i++) if (a[i] == c) { w = i; break; } chk("find char", A.find((UCS4)c, after), w);
			w = -1; for (long i = after+1; i+m <= n; i++) if (a.compare(i, m, b) == 0) { w = i; break; } chk("find str", A.find(B, after), w);
			w = -1; for (long i = after+1; i < n; i++) if (in(b, a[i])) { w = i; break; } chk("findAny", A.findAny(B, after), w);
			w = -1; for (long i = after+1; i < n; i++) if (!in(b, a[i])) { w = i; break; } chk("findNot", A.findNot(B, after), w);
			// ... and where each starts when it isn't told
			if (after < 0 && (A.find((UCS4)c) != A.find((UCS4)c, -1) || A.find(B) != A.find(B, -1) || A.findAny(B) != A.findAny(B, -1) || A.findNot(B) != A.findNot(B, -1))) fail("a search doesn't start from the first character when it isn't told where");
		}
		for (long before = -1; before <= n; before++) {
			long lim = before < 0 ? n : before;
			auto chk = [&](const char* f, long got, long want) { if (got != want) fail(fmt("%s(U+%X/b, before %ld) = %ld, expected %ld", f, (unsigned)c, before, got, want)); };
			long w;
			w = -1; for (long i = lim-1; i >= 0; i--) if (a[i] == c) { w = i; break; } chk("rfind char", A.rfind((UCS4)c, before), w);
			// the last place it starts, before `before`
			w = -1; for (long i = before < 0 ? n-m : std::min(before-1, n-m); i >= 0; i--) if (a.compare(i, m, b) == 0) { w = i; break; } chk("rfind str", A.rfind(B, before), w);
			w = -1; for (long i = lim-1; i >= 0; i--) if (in(b, a[i])) { w = i; break; } chk("rfindAny", A.rfindAny(B, before), w);
			w = -1; for (long i = lim-1; i >= 0; i--) if (!in(b, a[i])) { w = i; break; } chk("rfindNot", A.rfindNot(B, before), w);
			if (before < 0 && (A.rfind((UCS4)c) != A.rfind((UCS4)c, -1) || A.rfind(B) != A.rfind(B, -1) || A.rfindAny(B) != A.rfindAny(B, -1) || A.rfindNot(B) != A.rfindNot(B, -1))) fail("a search doesn't start from the last character when it isn't told where");
		}
		for (int k = 0; k < 6; k++) {
			StrValIndex at = rng().below(n+3); int len = rng().chance(25) ? -1 : rng().below(n+3);
			StrVal s = A.substr(at, len); U e = at >= (size_t)n ? U() : a.substr(at, len < 0 ? U::npos : len);
			same(s, e, fmt("substr(%u,%d)", at, len).c_str());
			if (len < 0) same(A.substr(at), e, "substr to the end");
			if (e.size()) { long i = rng().below(e.size()); long w = -1; for (long j = 0; j < (long)e.size(); j++) if (e[j] == e[i]) { w = j; break; } if (s.find((UCS4)e[i]) != w) fail("find in a slice"); w = -1; for (long j = (long)e.size()-1; j >= 0; j--) if (e[j] == e[i]) { w = j; break; } if (s.rfind((UCS4)e[i]) != w) fail("rfind in a slice"); }
		}
		{ int k = rng().below(n+1); same(A.head(k), a.substr(0,k), "head"); same(A.tail(k), a.substr(n-k), "tail"); same(A.shorter(k), a.substr(0,n-k), "shorter"); }
		same(A+B, a+b, "a+b"); same(B+A, b+a, "b+a"); same(A+(UCS4)c, a+c, "a+c"); same(A+A, a+a, "a+a");
		if (b.find(U'\0') == U::npos) { same(A+u8::enc(b).c_str(), a+b, "a+cstr"); same(u8::enc(b).c_str()+A, b+a, "cstr+a"); }
		{ StrVal t = A; t += B; same(t, a+b, "+="); t = A; t += (UCS4)c; same(t, a+c, "+=c"); }
		{ int k = rng().below(4); StrVal t = A; U e; for (int i = 0; i < k; i++) e += a; same(t*k, e, "repeat"); }
		{ long pos = rng().below(n+1); StrVal t = A; t.insert(pos, B); U e = a; e.insert(pos, b); same(t, e, fmt("insert(%ld)", pos).c_str()); }
		{ StrVal t = A; t.append(B); same(t, a+b, "append"); t = A; t.prepend(B); same(t, b+a, "prepend"); }
		{	// replacement built of head, tail and find
			if (m) { U e = a; size_t p = a.find(b); StrVal t = A; int f = A.find(B); if (f >= 0) { t = A.head(f)+StrVal("<>")+A.substr(f+m); e = a.substr(0,p)+U"<>"+a.substr(p+m); } same(t, e, "replace"); }
		}
		{ StringArray arr; U e; StrVal j = P.make(b); int k = rng().range(1,4); for (int i = 0; i < k; i++) { arr << A; if (i) e += b; e += a; } if (a.find(U'\0') == U::npos) same(arr.join(j), e, "join"); }
		same(A, a, "a afterwards"); same(B, b, "b afterwards");
		seen(hash_str(u8::enc(a)+"|"+u8::enc(b)), n > 1); sample(st().casetext);
	}
}

// Strings of one byte per character, in the locale's 8-bit encoding
CHECK(S02_raw)
{
	while (next_case(VH_N(60000), 600000)) {
		std::vector<StrVal> v; std::vector<std::string> m; note("raw binary strings ");
		auto bytes = [&](int max) { std::string s; int n = rng().range(1,max); for (int i = 0; i < n; i++) s += (char)(rng().chance(40) ? rng().range('a','d') : rng().chance(60) ? rng().range(0x80,0xFF) : rng().range(1,0x7F)); return s; };
		std::string made;
		auto make = [&](const std::string& b) { std::unique_ptr<char[]> h(new char[b.size()+1]); memcpy(h.get(), b.c_str(), b.size()+1); made += esc(b)+" "; note_raw("raw binary strings "+made); return StrVal(h.get(), StrRawBinary); };
		for (int i = 0; i < 3; i++) { std::string b = bytes(14); v.push_back(make(b)); m.push_back(b); }
		std::string trace;
		auto eq = [&](const StrVal& s, const std::string& e, const char* what) {
			if (s.length() != e.size()) fail(fmt("%s: length %u, expected %zu", what, s.length(), e.size()));
			for (size_t i = 0; i < e.size(); i++) if (s[i] != (UCS4)(unsigned char)e[i]) fail(fmt("%s: character %zu is %X, expected %X", what, i, (unsigned)s[i], (unsigned char)e[i]));
			StrValIndex nb; const char* p = s.asUTF8(nb); if (nb != e.size() || memcmp(p, e.data(), nb)) fail(fmt("%s: the bytes differ", what));
		};
		int steps = rng().range(3,16);
		for (int k = 0; k < steps; k++) {
			int a = rng().below(v.size()), b = rng().below(v.size()); size_t n = m[a].size(); int op = rng().below(7);
			trace += fmt("; op%d %d %d", op, a, b); note_raw("raw binary strings "+made+trace);
			switch (op) {
			case 0: v[b] = v[a]; m[b] = std::string(m[a]); break;
			case 1: { size_t at = rng().below(n), l = rng().range(1, n-at); StrVal s = v[a].substr(at, l); std::string e = m[a].substr(at, l); eq(s, e, "substr"); v[b] = s; m[b] = e; break; }
			case 2: { size_t c = rng().range(1,n); eq(v[a].head(c), m[a].substr(0,c), "head"); eq(v[a].tail(c), m[a].substr(n-c), "tail"); eq(v[a].shorter(n-c), m[a].substr(0,c), "shorter"); break; }
			case 3: { if (n+m[b].size() > 60) break; size_t at = rng().below(n+1); std::string add = m[b]; v[a].insert(at, v[b]); m[a].insert(at, add); cover("raw_inserts"); break; }
			case 4: { if (n+m[b].size() > 60) break; std::string add = m[b]; if (rng().chance(50)) { v[a].append(v[b]); m[a] += add; } else { v[a].prepend(v[b]); m[a] = add+m[a]; } break; }
			case 5: {
				unsigned char c = rng().chance(70) ? m[a][rng().below(n)] : rng().range(1,255); int after = (int)rng().range(-1,n-1);
				auto chk = [&](const char* f, long got, size_t want) { if (got != (want == std::string::npos ? -1 : (long)want)) fail(fmt("%s (%02X, after %d) in '%s' gave %ld", f, c, after, esc(m[a]).c_str(), got)); cover(got < 0 ? "raw_absent" : "raw_found"); };
				chk("find", v[a].find((UCS4)c, after), m[a].find((char)c, after+1)); chk("rfind", v[a].rfind((UCS4)c), m[a].rfind((char)c));
				chk("findAny", v[a].findAny(v[b], after), m[a].find_first_of(m[b], after+1)); chk("findNot", v[a].findNot(v[b], after), m[a].find_first_not_of(m[b], after+1));
				chk("rfindAny", v[a].rfindAny(v[b]), m[a].find_last_of(m[b])); chk("rfindNot", v[a].rfindNot(v[b]), m[a].find_last_not_of(m[b]));
				chk("find str", v[a].find(v[b], after), m[a].find(m[b], after+1)); chk("rfind str", v[a].rfind(v[b]), m[a].rfind(m[b]));
				break; }
			case 6: {
				int g = v[a].compare(v[b]), w = m[a].compare(m[b]); if ((g < 0) != (w < 0) || (g > 0) != (w > 0)) fail(fmt("compare('%s','%s') = %d", esc(m[a]).c_str(), esc(m[b]).c_str(), g));
				if ((v[a] == v[b]) != (w == 0)) fail("=="); break; }
			}
			for (size_t i = 0; i < v.size(); i++) eq(v[i], m[i], "value");
		}
		seen(hash_str(st().casetext)); sample(st().casetext);
	}
}

// ---- S03: history independence of access
CHECK(S03)
{
	while (next_case(VH_N(50000), 1000000)) {
		Pool P; P.mode = rng().chance(80) ? 2 : 1; P.nuls = rng().chance(5);
		U u = P.text(rng().chance(20) ? 400 : 40);
		std::vector<StrVal> v; std::vector<U> m;
		v.push_back(P.make(u)); m.push_back(u);
		note("text '"+show(u)+"' ");
		std::string trace;
		int steps = rng().range(10,80), pos = 0;
		for (int i = 0; i < steps; i++) {
			int a = rng().below(v.size()); size_t n = m[a].size();
			StrVal& A = v[a]; const U& e = m[a];
			switch (rng().below(13)) {
			case 0: trace += fmt("; copy %d", a); if (v.size() < 8) { v.push_back(A); m.push_back(U(e)); } break;
			case 1: { size_t at = rng().below(n+1), l = rng().below(n+1); trace += fmt("; slice %d %zu %zu", a, at, l); U x = e.substr(at, l); StrVal s = A.substr(at, l); if (v.size() < 8) { v.push_back(s); m.push_back(x); } else { v[0] = s; m[0] = x; } break; }
			case 2: { int b = rng().below(v.size()); trace += fmt("; %d=%d", b, a); v[b] = A; if (a != b) m[b] = m[a]; break; }
			case 3: case 4: case 5: {	// random access and just past the ends
				int k = rng().below(n+3); trace += fmt("; %d[%d]", a, k); note_raw("text '"+show(u)+"' "+trace);
				UCS4 got = A[k]; UCS4 want = k < (int)n ? (UCS4)e[k] : k == (int)n ? 0 : UCS4_NONE;
				if (got != want) fail(fmt("value %d character %d of %zu is %X, expected %X", a, k, n, (unsigned)got, (unsigned)want));
				break;
			}
			case 6: {	// a run, forward or back
				int dir = rng().chance(50) ? 1 : -1; pos = rng().below(n+1); trace += fmt("; run %d from %d by %d", a, pos, dir); note_raw("text '"+show(u)+"' "+trace);
				for (int k = 0; k < 12 && pos >= 0 && pos < (int)n; k++, pos += dir) if (A[pos] != (UCS4)e[pos]) fail(fmt("character %d is %X, expected %X", pos, (unsigned)A[pos], (unsigned)e[pos]));
				break;
			}
			case 7: { trace += fmt("; asUTF8 %d", a); note_raw("text '"+show(u)+"' "+trace); std::string x = u8::enc(e); const char* p = A.asUTF8(); if (memcmp(p, x.c_str(), x.size()+1)) fail("asUTF8() differs from the text"); break; }
			case 8: { trace += fmt("; find %d", a); if (n) { size_t k = rng().below(n); if (A.find((UCS4)e[k], (int)k-1) != (int)k) fail("find() at a known place"); if (A.rfind((UCS4)e[k], (int)k+1) != (int)k) fail("rfind() at a known place"); } break; }
			case 9: {	// mutate, which may leave a bookmark behind
				char32_t c = any_char(P.mode); size_t k = rng().below(n+1); trace += fmt("; insert %d at %zu U+%X", a, k, (unsigned)c); note_raw("text '"+show(u)+"' "+trace); if (n > 500) break;
				A.insert(k, StrVal((UCS4)c)); m[a].insert(k, 1, c); break; }
			case 11: {	// the non-const ways in
				if (n > 120) break; int k = rng().below(3); trace += fmt("; %d*%d", a, k); note_raw("text '"+show(u)+"' "+trace); U x; for (int j = 0; j < k; j++) x += e; StrVal r = A*k; same(r, x, "repeated"); break; }
			case 12: {	// a slice, repeated and read
				size_t at = rng().below(n+1), l = rng().below(n-at+1); if (n > 200 || l == 0) break; trace += fmt("; slice [%zu,+%zu) of %d repeatedly", at, l, a); note_raw("text '"+show(u)+"' "+trace);
				U x = e.substr(at, l); StrVal s = A.substr(at, l);
				for (int k = 0; k < 3; k++) { StrVal r = s*1; same(r, x, "a slice repeated once"); size_t j = rng().below(l); if (s[j] != (UCS4)x[j]) fail(fmt("character %zu of the slice is %X, expected %X", j, (unsigned)s[j], (unsigned)x[j])); same(s, x, "the slice"); if (rng().chance(20)) { s.asUTF8(); same(s, x, "the slice after asUTF8()"); } }
				break; }
			case 10: if (A.length() != n) fail("length"); if (A.numBytes() != u8::enc(e).size()) fail("numBytes"); break;
			}
			note_raw("text '"+show(u)+"' "+trace);
		}
		for (size_t i = 0; i < v.size(); i++) {	// every character, in an order of its own
			size_t n = m[i].size(); std::vector<int> order; for (size_t k = 0; k < n; k++) order.push_back(k);
			for (size_t k = n; k > 1; k--) std::swap(order[k-1], order[rng().below(k)]);
			for (int k : order) { UCS4 g = v[i][k]; if (g != (UCS4)m[i][k]) fail(fmt("finally, value %zu character %d is %X, expected %X", i, k, (unsigned)g, (unsigned)m[i][k])); }
			same(v[i], m[i], "finally");
			cover("characters_checked", n);
		}
		seen(hash_str(st().casetext), u.size() > 3); sample(st().casetext);
	}
}

// ---- S04: comparison
CHECK(S04)
{
	while (next_case(VH_N(240000), 4000000)) {
		Pool P; P.mode = rng().below(3); P.nuls = rng().chance(10);
		U base = P.text(8);
		std::vector<U> m; std::vector<StrVal> v;
		StrVal whole = P.make(base+base);
		for (int i = 0; i < 5; i++) {
			U u; StrVal s;
			switch (rng().below(5)) {
			case 0: u = P.text(8); s = sliced(P, u); break;
			case 1: u = base; if (u.size()) u[rng().below(u.size())] = any_char(P.mode); s = sliced(P, u); break;
			case 2: u = base.substr(0, rng().below(base.size()+1)); s = sliced(P, u); break;
			case 3: { U all = base+base; size_t at = rng().below(all.size()+1), l = rng().below(all.size()-at+1); u = all.substr(at,l); s = whole.substr(at,l); if (l == 0) s = StrVal(); break; }	// shares a body
			default: u = base; u += any_char(P.mode); s = sliced(P, u); break;
			}
			m.push_back(u); v.push_back(s);
		}
		std::string t = "strings"; for (auto& u : m) t += " '"+show(u)+"'"; note(t);
		auto sg = [](long x) { return x < 0 ? -1 : x > 0; };
		for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) {
			int e = sg(m[i].compare(m[j]));
			int g = sg(v[i].compare(v[j]));
			auto bad = [&](const char* op) { fail(fmt("'%s' %s '%s' is wrong (expected order %d)", show(m[i]).c_str(), op, show(m[j]).c_str(), e)); };
			if (g != e) bad("compare");
			if ((v[i] == v[j]) != (e == 0)) bad("==");
			if ((v[i] != v[j]) != (e != 0)) bad("!=");
			if ((v[i] < v[j]) != (e < 0)) bad("<");
			if ((v[i] <= v[j]) != (e <= 0)) bad("<=");
			if ((v[i] > v[j]) != (e > 0)) bad(">");
			if ((v[i] >= v[j]) != (e >= 0)) bad(">=");
			if (StrVal::equiv(v[i], v[j]) != (e == 0)) bad("equiv");
			if (StrVal::compare(v[i], v[j]) != (e > 0)) bad("static compare");
			cover(e < 0 ? "less" : e > 0 ? "greater" : "equal");
			seen(hash_str(u8::enc(m[i])+"<"+u8::enc(m[j])), m[i].size() && m[j].size());
		}
		sample(t);
	}
}

// ---- S05: asInt32 against an independent reading of its documentation
CHECK(S05)
{
	static const char* errs[] = { "none", "trailing text", "no digits", "overflow", "not number", "illegal radix" };
	while (next_case(VH_N(4000000), 40000000)) {
		Pool P; P.mode = 1; P.nuls = false;
		int radix; switch (rng().below(6)) { case 0: radix = 0; break; case 1: radix = 10; break; case 2: radix = 2; break; case 3: radix = 16; break; case 4: radix = rng().range(2,36); break; default: radix = rng().chance(20) ? (rng().chance(50) ? rng().range(-5,-1) : rng().range(37,100)) : rng().range(2,36); }
		int eff = radix < 2 || radix > 36 ? 10 : radix;
		U u; static const std::vector<char32_t> ws = { ' ', '\t', '\n' };
		static const std::vector<char32_t> zeros = { '0','0','0','0','0','0', 0x660, 0x966, 0xFF10 };
		if (rng().chance(20)) u += rng().pick(ws);
		if (rng().chance(40)) u += rng().chance(50) ? '-' : '+';
		if (rng().chance(5)) u += ' ';
		if (rng().chance(25)) { u += rng().chance(80) ? U"0" : U"0"; int w = rng().below(5); if (w == 0) u += 'b', eff = radix == 0 || radix == 2 ? 2 : eff; else if (w == 1) u += 'B', eff = radix == 0 || radix == 2 ? 2 : eff; else if (w == 2) u += 'x', eff = radix == 0 || radix == 16 ? 16 : eff; else if (w == 3) u += 'X', eff = radix == 0 || radix == 16 ? 16 : eff; else eff = radix == 0 ? 8 : eff; }
		if (rng().chance(45)) {	// a value near a limit
			static const std::vector<long long> near = { 0, 1, 2147483647LL, 2147483648LL, 2147483649LL, 4294967295LL, 4294967296LL, 9223372036854775807LL };
			long long v = rng().pick(near); v += v > 0 && v < 9223372036854775807LL ? rng().range(-2,2) : 0; unsigned __int128 x = v < 0 ? 0 : v; if (rng().chance(5)) x = 18446744073709551615ull-rng().below(3);
			if (rng().chance(30)) { x = (unsigned __int128)(1+rng().below(rng().chance(50) ? 2 : 40)) << rng().pick(std::vector<int>{31, 32, 63, 64, 64, 65, 96}); if (rng().chance(70)) x += rng().chance(70) ? rng().below(20) : rng().below(0x80000000u); else x -= 1+rng().below(3); cover("wraps_around"); }
			std::string s; do { int d = x%eff; s += d < 10 ? '0'+d : (rng().chance(50) ? 'a' : 'A')+d-10; x /= eff; } while (x); for (int i = s.size(); i-- > 0; ) u += s[i];
			if (rng().chance(4)) u += digit_of('1', eff) >= 0 ? U"1" : U"0";
		} else {
			int n = rng().below(12); if (rng().chance(3)) n = rng().range(20,80); char32_t z = rng().pick(zeros);
			for (int i = 0; i < n; i++) { int d = rng().below(rng().chance(95) ? eff : std::min(36, eff+2)); u += d < 10 ? (z == '0' || rng().chance(20) ? '0' : z)+d : (rng().chance(50) ? 'a' : 'A')+d-10; }
		}
		if (rng().chance(15)) u += rng().pick(ws);
		if (rng().chance(8)) u += ' ';
		if (rng().chance(12)) u += any_char(1);
		if (rng().chance(3)) { u.clear(); int n = rng().below(5); static const U junk = U" +-0xXbB19zZ\u00E9"; for (int i = 0; i < n; i++) u += junk[rng().below(junk.size())]; }
		note(fmt("asInt32('%s', radix %d)", show(u).c_str(), radix));
		StrVal s = sliced(P, u);
		int32_t want; bool vk, sk; size_t sc; int e = ref_int(u, radix, want, vk, sc, sk);
		ErrNum err(1234); StrValIndex scanned = 999999;
		int how = rng().below(4);
		int32_t got = s.asInt32(how == 3 ? 0 : &err, radix, how == 2 ? 0 : &scanned);
		static const int32_t codes[] = { 0, (int32_t)STRERR_TRAIL_TEXT, (int32_t)STRERR_NO_DIGITS, (int32_t)STRERR_NUMBER_OVERFLOW, (int32_t)STRERR_NOT_NUMBER };
		if (how != 3) {
			int32_t g = (int32_t)err;
			// an overflow may be reported whether or not text trails the number
			bool ok = e == RADIX ? g != 0 : g == codes[e];
			if (!ok) fail(fmt("error %X, expected %s", (unsigned)g, errs[e]));
		}
		if (vk && got != want) fail(fmt("value %d, expected %d (%s)", got, want, errs[e]));
		if (how != 2 && sk && scanned != sc) fail(fmt("scanned %u, expected %zu (%s)", (unsigned)scanned, sc, errs[e]));
		same(s, u, "the string afterwards");
		cover(std::string("result_")+errs[e]); seen(hash_str(u8::enc(u)+fmt("|%d", radix)), u.size() > 1); sample(st().casetext);
	}
}

// ---- S06: JSON strings, read back by an independent decoder
CHECK(S06)
{
	while (next_case(VH_N(800000), 8000000)) {
		Pool P; P.mode = 2; P.nuls = false; U u;
		if (st().index < 4400) { for (int i = 0; i < 254; i++) { char32_t c = st().index*254+i; if (c >= 0xD800 && c < 0xE000) c = 'x'; if (c <= 0x10FFFF) u += c; } if (st().index%2) for (size_t i = u.size(); i > 1; i--) std::swap(u[i-1], u[rng().below(i)]); }
		else { int n = rng().below(20); for (int i = 0; i < n; i++) switch (rng().below(6)) { case 0: u += (char32_t)rng().below(32); break; case 1: u += U"\"\\/\b\f\n\r\t'\x7F"[rng().below(10)]; break; case 2: u += any_char(0); break; case 3: u += (char32_t)(0x10000+rng().below(0x100000)); break; default: u += any_char(2); } }
		bool lone = st().index >= 4400 && rng().chance(15);
		if (lone) { for (int i = rng().range(1,3); i > 0; i--) u.insert(rng().below(u.size()+1), 1, (char32_t)(rng().chance(30) ? (rng().chance(50) ? 0xD800+0x3FF*rng().below(2) : 0xDC00+0x3FF*rng().below(2)) : 0xD800+rng().below(0x800)));
			for (size_t i = 0; i+1 < u.size(); ) if (u[i] >= 0xD800 && u[i] < 0xDC00 && u[i+1] >= 0xDC00 && u[i+1] < 0xE000) { u.erase(i, 1); if (i) i--; } else i++;
			cover("lone_surrogates"); }
		note("text '"+show(u)+"'");
		StrVal s = sliced(P, u), keep = s; StrVal j;
		if (rng().chance(50)) j = s.asJSON(); else { j = s; j.toJSON(); }
		StrValIndex nb; const char* p = j.asUTF8(nb); std::string txt(p, nb);
		U back; std::string why;
		if (!json_decode(txt, back, why, lone)) fail("invalid JSON ("+why+"): "+esc(txt));
		if (back != u) fail("JSON '"+esc(txt)+"' decodes to '"+show(back)+"'");
		if (j.length() != u8::dec(txt).size()) fail("the length of the JSON is wrong");
		same(s, u, "the original"); same(keep, u, "a copy");
		// Variant uses it for strings
		StrVal q = Variant(s).as_json(); same(q, U(U"\"")+u8::dec(txt)+U"\"", "Variant::as_json");
		seen(hash_str(u8::enc(u)), u.size() > 0); cover("characters", u.size()); sample(st().casetext);
	}
}

// ---- S07: transform and case mapping
CHECK(S07)
{
	while (next_case(VH_N(900000), 10000000)) {
		Pool P; P.mode = rng().below(3); P.nuls = rng().chance(5);
		U u = P.text(rng().chance(10) ? 80 : 15); long n = u.size();
		StrVal s = sliced(P, u), keep = s, part = n > 1 ? s.substr(1) : StrVal();
		int after = rng().chance(40) ? -1 : rng().range(-1, n+1);
		int kind = rng().below(9); int take = kind == 7 ? rng().range(1,3) : 1; long stop_at = kind == 8 ? rng().below(n+1) : -1;
		uint64_t salt = rng().next();
		auto repl = [&](char32_t c, long i) -> U {	// What each character becomes
			switch (kind) {
			case 0: return U(1, c); case 1: return U(); case 2: return U(2, c); case 3: return U(1, wide[mix(salt+c)%wide.size()]);
			case 4: { U r; int k = mix(salt^i)%4; for (int x = 0; x < k; x++) r += wide[mix(salt+i*7+x)%wide.size()]; return r; }
			case 5: return c < 0x80 ? U(1, c) : U(U"?"); case 6: return c < 0x80 ? U(U"\U0001F600") : U(1, c);
			case 7: return U(U"<>"); default: return U(U"\u00E9");
			}
		};
		note(fmt("transform '%s' after %d kind %d take %d stop %ld", show(u).c_str(), after, kind, take, stop_at));
		U e; long calls = 0; bool stopped = false; std::vector<long> expect_at, got_at;
		for (long i = 0; i < n; ) {
			if (i <= after || stopped) { e += u[i++]; continue; }
			expect_at.push_back(i);
			if (i == stop_at || (kind == 8 && i > stop_at)) { stopped = true; e += U"!"; if (kind != 8) i++; continue; }
			e += repl(u[i], i); i += std::min<long>(take, n-i);
		}
		StrVal t = s;
		std::string original = u8::enc(u); const char* origin = 0; (void)origin;
		long consumed = 0; size_t total = original.size();
		std::function<StrVal(const char*& cp, const char* ep)> fn = [&](const char*& cp, const char* ep) -> StrVal {
			calls++;
			if (cp >= ep) fail("transform called with nothing left");
			// Where are we? The remaining text must be a suffix of the original
			size_t left = ep-cp; if (left > total) fail("transform called with too much text");
			if (memcmp(cp, original.data()+total-left, left) != 0) fail("transform was given different text");
			long i = u8::dec(original.substr(0, total-left)).size(); got_at.push_back(i); consumed = i;
			if (kind == 8 && i >= stop_at) return StrVal("!");		// consume nothing: stop here
			U x; for (int k = 0; k < take && cp < ep; k++) { UCS4 c = UTF8Get(cp); if (k == 0) x = repl(c, i); }
			{ std::string eb = u8::enc(x); return x.empty() ? StrVal() : StrVal(eb.data(), (StrValIndex)eb.size()); }
		};
		if (after == -1 && rng().chance(50)) t.transform(fn); else t.transform(fn, after);
		same(t, e, "transformed");
		if (got_at != expect_at) fail(fmt("the function was called %zu times, expected %zu (or elsewhere)", got_at.size(), expect_at.size()));
		same(s, u, "the original"); same(keep, u, "a copy"); if (n > 1) same(part, u.substr(1), "a slice");
		for (long k = 0; k < (long)e.size() && k < 40; k++) { long i = rng().below(e.size()); if (t[i] != (UCS4)e[i]) fail("a character of the transformed string"); }
		{ StrVal up = s.asUpper(), lo = s.asLower(); same(up, upper(u), "asUpper"); same(lo, lower(u), "asLower"); same(s, u, "the original of asUpper"); StrVal m = s; m.toUpper(); same(m, upper(u), "toUpper"); same(s, u, "after toUpper"); m.toLower(); same(m, lower(upper(u)), "toLower"); if (m.length()) (void)m[m.length()-1]; }
		cover(fmt("kind_%d", kind)); seen(hash_str(st().casetext), n > 1); sample(st().casetext);
	}
}

// ---- S08: memory safety on arbitrary bytes (sanitizers and memcheck are the oracle, and the heap must balance)
static const std::vector<std::string> frags = { "a", "\xC3", "\xC3\xA9", "\xE2\x82", "\xE2\x82\xAC", "\xF0\x9F\x98", "\xF0\x9F\x98\x80", "\x80", "\xBF\xBF", "\xFF", "\xFE", "\xF8\x88\x80\x80\x80", "\xFC\x84\x80\x80\x80\x80", "\xFC", "\xC0\x80", "\xED\xA0\x80", "\xE0\x80\x80", "xyz", "\xF4\x90\x80\x80", "\xFD\xBF" };
static std::string junk_bytes(int maxlen)
{
	std::string s; int n = rng().below(maxlen+1);
	while ((int)s.size() < n) s += rng().chance(70) ? rng().pick(frags) : std::string(1, (char)rng().range(1,255));
	return s;
}
CHECK(S08)
{
	while (next_case(VH_N(150000), 3000000)) {
		bool raw; size_t before = heap_bytes();
		{
			std::vector<StrVal> v; note("arbitrary bytes"); raw = rng().chance(8);	// some with one byte per character
			for (int i = 0; i < 4; i++) {
				std::string b = junk_bytes(12);
				note_more(fmt(" v%d='%s'", i, esc(b).c_str()));
				// exactly sized heap copies, so that any overrun is seen
				std::unique_ptr<char[]> h(new char[b.size()+1]); memcpy(h.get(), b.c_str(), b.size()+1);
				if (raw && rng().chance(60)) { v.push_back(StrVal(h.get(), StrRawBinary)); note_more(" raw"); }
				else if (rng().chance(50)) v.push_back(StrVal(h.get()));
				else { std::unique_ptr<char[]> x(new char[b.size() ? b.size() : 1]); memcpy(x.get(), b.data(), b.size()); v.push_back(StrVal(x.get(), (StrValIndex)b.size(), rng().chance(30) ? b.size()+rng().below(9) : 0)); }
			}
			int steps = rng().range(4,30); unsigned sink = 0;
			for (int s = 0; s < steps; s++) {
				int a = rng().below(4), b = rng().below(4), d = rng().below(4); StrVal& A = v[a]; StrVal& B = v[b]; size_t n = A.length();
				int op = rng().below(22); int x = rng().below(n+2), y = rng().below(n+2);
				note_more(fmt("; op%d v%d v%d v%d %d %d", op, a, b, d, x, y));
				if (n > 200) { A = A.head(5); continue; }
				switch (op) {
				case 0: v[d] = A; break;
				case 1: v[d] = A.substr(x, y); break;
				case 2: { StrVal r = A+B; if (r.length() < 300) v[d] = r; break; }
				case 3: A += B; break;
				case 4: if (x <= (int)n) A.insert(x, B); break;
				case 5: A.toUpper(); break;
				case 6: A.toLower(); break;
				case 7: { bool big = raw; for (size_t i = 0; i < n; i++) big |= A[i] > 0x10FFFF; if (!big) A.toJSON(); break; }
				case 8: for (size_t i = 0; i <= n+1; i++) sink += A[i]; break;
				case 9: for (int i = n; i >= 0; i--) sink += A[i]; break;
				case 10: sink += A.find(B); sink += A.rfind(B); break;
				case 11: sink += A.findAny(B)+A.findNot(B)+A.rfindAny(B)+A.rfindNot(B); break;
				case 12: sink += A.compare(B); sink += A == B; break;
				case 13: sink += A.asInt32(0, rng().below(37)); break;
				case 14: { const char* p = A.asUTF8(); sink += strlen(p); break; }
				case 15: { StrValIndex nb; const char* p = A.asUTF8(nb); for (StrValIndex i = 0; i < nb; i++) sink += p[i]; break; }
				case 16: v[d] = A*(int)rng().below(3); break;
				case 17: { StrVal other = B; A.transform([&](const char*& cp, const char* ep) -> StrVal { UCS4 c = UTF8Get(cp); if (cp > ep) cp = ep; (void)c; return other.length() < 4 ? other : StrVal("-"); }, (int)rng().range(-1, n)); break; }
				case 18: if (y <= (int)n) { v[d] = A.head(y); v[b] = A.length() >= (StrValIndex)y ? A.tail(y) : A; } break;
				case 19: A += (UCS4)(rng().chance(50) ? rng().below(0x110000) : rng().below(0x80000000u)); break;
				case 20: { StringArray arr; arr << A; arr << B; StrVal r = arr.join(v[d]); if (r.length() < 300) v[d] = r; break; }
				case 21: if (n < 40) v[d] = StrVal::format(StrVal("%s|%s"), Variant(A) << Variant(B)); break;
				}
				if (!raw) for (auto& s : v) {	// a copy of the bytes of any value has as many characters
					StrValIndex nb; const char* p = s.asUTF8(nb); StrVal copy(p ? p : "", p ? nb : 0);
					if (copy.length() != s.length()) fail(fmt("a copy of the %u bytes '%s' has %u characters, the original %u", nb, esc(std::string(p,nb)).c_str(), copy.length(), s.length()));
				}
			}
			if (sink == 0x12345678) cover("unlikely");
			// Each value is still consistent with itself
			for (auto& s : v) {
				StrValIndex nb; const char* p = s.asUTF8(nb); std::string bytes(p ? p : "", p ? nb : 0);
				StrVal copy(bytes.data(), (StrValIndex)bytes.size());
				StrValIndex nb2; const char* p2 = copy.asUTF8(nb2);
				if (nb2 > nb) fail("a copy of the bytes has more bytes"); if (nb2 && memcmp(p2, p, nb2)) fail("a copy has different bytes");
			}
		}
		size_t after = heap_bytes();
		VH_REQUIRE(after == before, fmt("%ld bytes leaked", (long)(after-before)));
		if (raw) cover("one_byte_per_character"); seen(hash_str(st().casetext)); sample(st().casetext);
	}
}

// ---- Arrays of strings: a sequence of strings whose elements belong to the array
CHECK(A01_strings)
{
	while (next_case(VH_N(60000), 900000)) {
		long joins = 0, joins0 = 0; note("strings"); size_t before = heap_bytes();
		{
		Pool P; P.mode = rng().below(3); P.nuls = false;
		std::vector<StringArray> a(3); std::vector<std::vector<U>> m(3);
		for (int i = 0; i < 3; i++) { U u = P.text(8); P.v.push_back(P.make(u)); P.m.push_back(u); }
		auto verify = [&](const char* what) {
			P.verify(what);
			for (int i = 0; i < 3; i++) {
				VH_REQUIRE(a[i].length() == m[i].size() && a[i].isEmpty() == m[i].empty(), fmt("%s: array %d has %u elements, expected %zu", what, i, a[i].length(), m[i].size()));
				for (size_t j = 0; j < m[i].size(); j++) { same(a[i][j], m[i][j], fmt("%s: a%d[%zu]", what, i, j).c_str()); same(a[i].elem(j), m[i][j], "elem()"); }
			}
		};
		int steps = rng().range(3, 25);
		for (int s = 0; s < steps; s++) {
			int i = rng().below(3), k = rng().below(3), x = rng().below(3); StringArray& A = a[i]; auto& M = m[i]; size_t n = M.size(); StrVal& V = P.v[x]; U& mv = P.m[x];
			if (n > 24) { A = StringArray(A.slice(n/2)); M.erase(M.begin(), M.begin()+n/2); continue; }
			int op = rng().below(23); size_t p = rng().below(n+1), q = rng().below(n+1); if (p > q) std::swap(p, q);
			note_more(fmt("; %d a%d a%d v%d %zu %zu", op, i, k, x, p, q));
			switch (op) {
			case 0: { std::vector<StrVal> src; std::vector<U> u; for (int j = rng().below(6); j > 0; j--) { int y = rng().below(3); src.push_back(P.v[y]); u.push_back(P.m[y]); } A = StringArray(src.data(), (StringArray::Index)src.size(), rng().below(9)); M = u; for (auto& z : src) z += "changed"; break; }
			case 1: { std::vector<std::string> bytes; std::vector<U> u; for (int j = rng().below(6); j > 0; j--) { U t = P.text(5); if (t.find(U'\0') != U::npos) t.clear(); u.push_back(t); bytes.push_back(u8::enc(t)); } Array<const char*> cs; for (auto& z : bytes) cs.push(z.c_str()); A = StringArray(cs); M = u; for (auto& z : bytes) std::fill(z.begin(), z.end(), '!'); break; }
			case 2: case 3: if (rng().chance(50)) A << V; else A.push(V); M.push_back(mv); break;
			case 4: A.unshift(V); M.insert(M.begin(), mv); break;
			case 5: if (n) { StrVal r = A.last(); same(r, M.back(), "last"); r += "x"; r.toUpper(); } break;
			case 6: if (n) { StrVal r = A.pull(); same(r, M.back(), "pull"); M.pop_back(); } break;
			case 7: if (n) { size_t d = rng().below(n); StrVal r = A.delete_at(d); same(r, M[d], "delete_at"); M.erase(M.begin()+d); } break;
			case 8: if (n) { StrVal r = A.shift(); same(r, M[0], "shift"); M.erase(M.begin()); } break;
			case 9: { StringArray r = A.slice(p, q-p); auto u = std::vector<U>(M.begin()+p, M.begin()+q); a[k] = r; m[k] = u; break; }
			case 10: A.remove(p, q-p); M.erase(M.begin()+p, M.begin()+q); break;
			case 11: { auto u = m[k]; if (n+u.size() > 40) break; A.insert(p, a[k]); M.insert(M.begin()+p, u.begin(), u.end()); break; }
			case 12: { auto u = m[k]; if (n+u.size() > 40) break; A += a[k]; M.insert(M.end(), u.begin(), u.end()); break; }
			case 13: { auto u = M; u.insert(u.end(), m[k].begin(), m[k].end()); if (u.size() > 40) break; int d = rng().below(3); StringArray r = A+a[k]; a[d] = r; m[d] = u; break; }
			case 14: A.reverse(); std::reverse(M.begin(), M.end()); break;
			case 15: if (n) { size_t d = rng().below(n); A.set(d, V); M[d] = mv; } break;
			case 16: { if (n) { size_t d = rng().below(n); V = A[d]; mv = M[d]; } break; }
			case 17: { U t = P.text(4); V += P.make(t); mv += t; if (mv.size() > 60) { V = V.tail(5); mv = mv.substr(mv.size()-5); } break; }
			case 18: { V.toUpper(); mv = upper(mv); break; }
			case 19: { size_t lim = rng().below(8); A.delete_if([&](const StrRef& e) { return e.length() < lim; }); std::vector<U> u; for (auto& z : M) if (z.size() >= lim) u.push_back(z); M = u; break; }
			case 20: { size_t lim = rng().below(8); int d = rng().below(3); StringArray r = A.select([&](const StrRef& e) { return e.length() < lim; }); std::vector<U> u; for (auto& z : M) if (z.size() < lim) u.push_back(z); a[d] = r; m[d] = u; break; }
			case 21: a[k] = A; m[k] = std::vector<U>(M); break;
			case 22: { U t = P.text(3); StrVal j = P.make(t); StrVal r = A.join(j); U e; for (size_t z = 0; z < n; z++) { if (z) e += t; e += M[z]; } same(r, e, "join"); same(j, t, "the joiner"); if (n == 0) joins0++; r += "x"; joins++; if (e.size() < 40) { V = A.join(j); mv = e; } break; }
			}
			verify(fmt("after step %d op %d", s, op).c_str());
		}
		}
		size_t after = heap_bytes();
		VH_REQUIRE(after == before, fmt("%ld bytes leaked", (long)(after-before)));
		cover("join", joins); cover("join_empty", joins0);
		seen(hash_str(st().casetext)); sample(st().casetext);
	}
}

// ---- S09: format
CHECK(S09)
{
	while (next_case(VH_N(1200000), 12000000)) {
		if (rng().chance(20)) {	// numbered arguments, in any order, perhaps more than once or not at all
			Pool P; P.mode = rng().below(3); P.nuls = false; int k = rng().range(1, 9); VariantArray args; std::vector<U> texts; std::vector<bool> str; std::string t; U f, e;
			for (int i = 0; i < k; i++) { U s; if (rng().chance(60)) { s = P.text(6); if (s.find(U'\0') != U::npos) s.clear(); args.append(Variant(P.make(s))); str.push_back(true); } else { int x = rng().range(-9999,9999); for (char c : std::to_string(x)) s += (char32_t)c; args.append(Variant(x)); str.push_back(false); } texts.push_back(s); t += " '"+show(s)+"'"; }
			int uses = rng().below(8);
			for (int i = 0; i < uses; i++) { int w = rng().below(k); if (rng().chance(50)) { U u = P.text(4); for (auto& c : u) if (c == '%' || c == 0) c = '.'; f += u; e += u; } f += U'%'; f += (char32_t)('1'+w); f += U'$'; f += str[w] || rng().chance(40) ? U's' : U'd'; e += texts[w]; }
			if (rng().chance(50)) { f += U"."; e += U"."; }
			note("format '"+show(f)+"'"+t); StrVal F = sliced(P, f); StrVal r = StrVal::format(F, args);
			same(r, e, "formatted with numbered arguments"); same(F, f, "the template afterwards"); VH_REQUIRE(args.length() == (unsigned)k, "arguments changed");
			seen(hash_str(st().casetext), uses > 0); cover("numbered", uses); sample(st().casetext); continue;
		}
		Pool P; P.mode = rng().below(3); P.nuls = false;
		U f, e; int k = rng().below(6); VariantArray args; std::string t;
		auto lit = [&]() { U u = P.text(6); for (auto& c : u) if (c == '%' || c == 0) c = '.'; f += u; e += u; };
		for (int i = 0; i < k; i++) {
			if (rng().chance(60)) lit();
			if (rng().chance(12)) { f += U"%%"; e += U"%"; cover("literal_percent"); if (rng().chance(60)) lit(); }
			if (rng().chance(50)) {
				U s = P.text(8); if (rng().chance(30)) s += U"%d%s%%"; if (s.find(U'\0') != U::npos) s.clear();
				f += U"%s"; e += s; Variant v(P.make(s)); args.append(v); t += " str '"+show(s)+"'";
			} else if (rng().chance(25)) {	// a number, as a string
				std::string num; f += U"%s";
				switch (rng().below(3)) {
				case 0: { int x = rng().chance(50) ? (int)rng().next() : (int)rng().range(-99,99); num = std::to_string(x); args.append(Variant(x)); break; }
				case 1: { long x = rng().chance(50) ? (long)rng().next() : rng().range(-99,99); num = std::to_string(x); args.append(Variant(x)); break; }
				default: { long long x = (long long)rng().next(); num = std::to_string(x); args.append(Variant(x)); break; }
				}
				for (char c : num) e += (char32_t)c; t += " %s of "+num; cover("number_as_string");
			} else if (rng().chance(25)) {	// a size and precision which ask for no more than is there
				f += '%'; bool str = rng().chance(50); U s; Variant v;
				if (str) { s = P.text(8); if (s.find(U'\0') != U::npos || s.empty()) s = U"x"; v = Variant(P.make(s)); } else { int x = rng().range(-9999,9999); std::string num = std::to_string(x); for (char c : num) s += (char32_t)c; v = Variant(x); }
				int digits = 0; for (char32_t c : s) if (c >= '0' && c <= '9') digits++;
				int prec = str ? s.size()+rng().below(3) : digits ? rng().range(1, digits) : 1;
				int size = rng().range(1, s.size()); std::string spec;
				int w = rng().below(5);
				if (w == 0 || w == 1 || w == 3) { if (rng().chance(30)) { spec += '*'; args.append(Variant(size)); } else spec += std::to_string(size); }
				if (w == 2 || w == 3) { spec += '.'; if (rng().chance(30)) { spec += '*'; args.append(Variant(prec)); } else spec += std::to_string(prec); }
				for (char c : spec) f += (char32_t)c; f += str ? U's' : U'd'; e += s; args.append(v); t += " %"+spec+" of '"+show(s)+"'"; cover("sized");
			} else {
				f += U'%'; f += rng().pick(std::vector<char32_t>{ 'd','f','g' }); std::string num;
				switch (rng().below(3)) {
				case 0: { int x = rng().chance(50) ? (int)rng().next() : (int)rng().range(-99,99); num = std::to_string(x); args.append(Variant(x)); break; }
				case 1: { long x = rng().chance(50) ? (long)rng().next() : rng().range(-99,99); num = std::to_string(x); args.append(Variant(x)); break; }
				default: { long long x = (long long)rng().next(); num = std::to_string(x); args.append(Variant(x)); break; }
				}
				for (char c : num) e += (char32_t)c; t += " num "+num;
			}
		}
		if (rng().chance(60)) lit();
		bool pct = rng().chance(10); if (pct) { f += '%'; e += '%'; }
		VariantArray keep(args);
		note("format '"+show(f)+"'"+t);
		StrVal F = sliced(P, f);
		// exactly as many arguments as needed: reading one more is out of range and aborts
		StrVal r = StrVal::format(F, args);
		same(r, e, "formatted"); same(F, f, "the template afterwards");
		VH_REQUIRE(args.length() == keep.length(), "arguments changed");
		seen(hash_str(st().casetext), args.length() > 0); cover("arguments", args.length()); sample(st().casetext);
	}
}
