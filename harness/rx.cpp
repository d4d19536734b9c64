/*
 * Regular expressions: a generator of expressions as trees, a denotational reference matcher
 * over the same trees (sets of end positions with capture assignments), and monitors on the real
 * RxCompiler/RxProgram.
 */
#include "vh.h"
#include "u8.h"
#include <memory>
#include <map>
#include <malloc.h>
#include <time.h>
#include <strregex.h>
#if defined(VH_HEAP)
#include "heapmon.h"
#endif
using namespace vh;
using u8::U;

struct Node; typedef std::shared_ptr<Node> N;
struct Node {
	enum K { Char, Any, Class, Prop, Seq, Alt, Rep, Group, Cap, Bol, Eol, NegLook } k;
	char32_t ch = 0; int style = 0;
	std::vector<std::pair<char32_t,char32_t>> ranges; bool neg = false;
	std::vector<N> kids;
	int min = 0, max = 0;		// max 0 = unlimited
	int cap = 0; std::string name;
};
static N mk(Node::K k) { N n = std::make_shared<Node>(); n->k = k; return n; }

struct Gen {
	int caps = 0, counted = 0, budget = 12;
	bool allow_cap = true, allow_count = true, allow_look = true, simple_count = false;
	std::vector<char32_t> alpha;
	Gen() { static const char32_t a[] = {'a','b','c','d',' ','1','\n',0xE9,0x3B1,0x4E2D,0x1F600,'x','A','\\','-',']','^','[','\t','.','?','*',0x663,0x3000,0x7F,0x80,0x7FF,0x800,0xFFFF,0x10000,0x10FFFF,'\b',033,0,'\f','\r','\v','s','h'}; int n = rng().range(2,5); alpha = {'a','b'}; while ((int)alpha.size() < n) alpha.push_back(a[rng().below(rng().chance(50) ? 13 : 38)]); }
	N atom(int depth)
	{
		int r = rng().below(100);
		if (depth <= 0 || budget <= 0 || r < 50) {
			if (r%10 < 6 || r%10 > 8) { N n = mk(Node::Char); n->ch = rng().pick(alpha); n->style = rng().below(8); return n; }
			if (r%10 == 6) return mk(Node::Any);
			if (r%10 == 8 && rng().chance(40)) { N n = mk(Node::Prop); n->ch = "sdh"[rng().below(3)]; n->style = rng().below(4); return n; }
			N n = mk(Node::Class); n->neg = rng().chance(30); n->style = rng().next();
			int k = rng().range(1,3);
			for (int i = 0; i < k; i++) { char32_t a = rng().pick(alpha), b = rng().chance(40) ? rng().pick(alpha) : a; if (!a) a = 1; if (!b) b = 'z'; if (a > b) std::swap(a,b); n->ranges.push_back({a,b}); }
			return n;
		}
		if (allow_cap && caps < 5 && r < 68) {
			N n = mk(Node::Cap); n->cap = ++caps; n->name = fmt("n%d", n->cap); n->kids.push_back(alt(depth-1)); return n;
		}
		N n = mk(Node::Group); n->style = rng().below(2); n->kids.push_back(alt(depth-1)); return n;
	}
	N item(int depth)
	{
		budget--;
		int r = rng().below(100);
		if (r < 4) return mk(Node::Bol);
		if (r < 8) return mk(Node::Eol);
		if (r < 12 && allow_look && depth > 0) { N n = mk(Node::NegLook); bool sc = allow_cap, sk = allow_count; allow_cap = false; n->kids.push_back(alt(depth-1)); allow_cap = sc; allow_count = sk; return n; }
		int mult = rng().below(100);
		if (mult < 40) {
			bool count = allow_count && counted < 2 && mult >= 30;
			bool sc = allow_count;
			if (count && simple_count) { }
			N rep = mk(Node::Rep);
			if (count) {
				counted++;
				static const int mn[] = {0,1,2,2,3,1,0,4};
				rep->min = mn[rng().below(8)]; rep->max = rng().chance(30) ? 0 : rep->min + rng().below(3);
				if (rep->max == 0 && rep->min == 0) rep->max = 2;
				if (simple_count) allow_count = false;
			} else {
				int q = mult%3; rep->min = q == 2; rep->max = q == 0 ? 1 : 0;
			}
			rep->style = count;
			rep->kids.push_back(count && simple_count ? atom(0) : atom(depth));
			allow_count = sc;
			return rep;
		}
		return atom(depth);
	}
	N seq(int depth)
	{
		N n = mk(Node::Seq);
		int k = rng().chance(8) ? 0 : rng().range(1,3);
		for (int i = 0; i < k; i++) n->kids.push_back(item(depth));
		return n;
	}
	N alt(int depth)
	{
		N n = mk(Node::Alt);
		int k = rng().chance(35) ? rng().range(2,3) : 1;
		if (rng().chance(2)) k = rng().range(8,20);
		for (int i = 0; i < k; i++) n->kids.push_back(seq(depth));
		return n;
	}
};

// How the expression is spelled: extended (white space and comments skipped), or shell-like wildcards
static bool ext_syntax, shell_syntax;
static void space(std::string& o)
{
	static const char* w[] = { " ", "\t", "\n", "\r", "  ", " #\n", " # a comment (?[*{\n", "\n#\xC3\xA9\n\t" };
	if (ext_syntax && rng().chance(35)) { o += w[rng().below(8)]; cover("white_space_skipped"); }
}
static void spell(const N& n, std::string& o)
{
	if (n->k != Node::Seq && n->k != Node::Rep && n->k != Node::Alt) space(o);
	switch (n->k) {
	case Node::Char: {
		char32_t c = n->ch;
		if (n->style == 1 && c < 256) { o += fmt(rng().chance(50) ? "\\x\2%X\3" : "\\x\2%02x\3", (unsigned)c); break; }
		if (n->style == 2 && c < 0x100000) { o += fmt(rng().chance(50) ? "\\u\2%X\3" : "\\u\2%05x\3", (unsigned)c); break; }
		if (n->style == 3 && c < 256) { o += fmt(rng().chance(50) ? "\\\2%o\3" : "\\\2%03o\3", (unsigned)c); break; }
		if (!c) { o += fmt("\\\2%o\3", 0u); cover("nul_literal"); break; }	// it cannot be spelt as itself
		if (n->style >= 4 && c && c < 128) {
			static const char cs[] = "\b\033\f\n\t\r", ns[] = "befntr"; const char* q = strchr(cs, (int)c);
			if (q) { o += '\\'; o += ns[q-cs]; cover("c_escapes"); break; }
		}
		if (shell_syntax && c == '.' && n->style < 6) { o += '.'; break; }
		if (c < 128 && strchr("^$.?*+{}\\[]|()", (int)c)) o += '\\';
		else if (ext_syntax && (c == ' ' || (c >= 9 && c <= 13) || c == '#')) o += '\\';
		u8::put(o, c); break; }
	case Node::Any: o += shell_syntax ? '?' : '.'; break;
	case Node::Prop: if (n->style == 0) { o += fmt("\\p{%c}", (char)n->ch); cover("property_names"); } else { o += '\\'; o += (char)n->ch; } break;
	case Node::Class: {
		o += n->neg ? "[^" : "[";
		unsigned bits = n->style; size_t N_ = n->ranges.size();
		for (size_t i = 0; i < N_; i++) {
			auto& r = n->ranges[i]; bool single = r.first == r.second;
			for (int e = 0; e < 2-single; e++) {
				char32_t c = e ? r.second : r.first;
				bool must = c == '\\' || c == ']' || c == '-' || (c == '^' && i == 0 && !n->neg);
				bool plain = (bits & 1) && single && ((i == 0 && (c == '-' || c == ']')) || (i == N_-1 && i > 0 && c == '-'));
				if (e) o += '-';
				if (must ? !plain : (bits & 6) == 6) { o += '\\'; cover("class_escapes"); }
				if (must && plain) cover("class_edge_literals");
				bits >>= 2;
				u8::put(o, c);
			}
		}
		o += ']'; break; }
	case Node::Seq: for (auto& k : n->kids) spell(k, o); break;
	case Node::Alt: for (size_t i = 0; i < n->kids.size(); i++) { if (i) { space(o); o += '|'; } spell(n->kids[i], o); } break;
	case Node::Rep:
		if (shell_syntax && !n->style && n->min == 0) {	// no ? or * to spell it with
			if (n->max == 0 && n->kids[0]->k == Node::Any) { o += '*'; cover("shell_star"); break; }
			if (n->max == 0) { o += "(?:"; spell(n->kids[0], o); o += "+){0,1}"; break; }
			spell(n->kids[0], o); o += "{0,1}"; break;
		}
		spell(n->kids[0], o);
		space(o);
		if (!n->style) o += n->min ? '+' : n->max ? '?' : '*';
		else if (n->max == n->min) o += fmt("{%d}", n->min);
		else if (n->max == 0) o += fmt("{%d,}", n->min);
		else if (n->min == 0) o += fmt("{,%d}", n->max);
		else o += fmt("{%d,%d}", n->min, n->max);
		break;
	case Node::Group: o += n->style || shell_syntax ? "(?:" : "("; spell(n->kids[0], o); space(o); o += ')'; break;
	case Node::Cap: o += "(?<"+n->name+">"; spell(n->kids[0], o); o += ')'; break;
	case Node::Bol: o += '^'; break;
	case Node::Eol: o += '$'; break;
	case Node::NegLook: o += "(?!"; spell(n->kids[0], o); o += ')'; break;
	}
}
// Print n; numbers of escapes are \2digits\3, padded with zeroes where they would run into what follows
static void print(const N& n, std::string& o)
{
	std::string t; spell(n, t);
	for (size_t i = 0; i < t.size(); i++) {
		if (t[i] != 2) { o += t[i]; continue; }
		char k = t[i-1]; size_t e = t.find('\3', i), width = k == '\\' ? 3 : k == 'x' ? 2 : 5, have = e-i-1; char next = e+1 < t.size() ? t[e+1] : 0;
		bool more = (next & 0x80) || (k == '\\' ? next >= '0' && next <= '7' : isxdigit((unsigned char)next) != 0);	// a digit of another script is one too
		if (more) o.append(width-have, '0');
		else if (have < width) cover("short_escapes");
		o.append(t, i+1, have); i = e;
	}
}
static bool char_matches(const N& n, char32_t c)
{
	switch (n->k) {
	case Node::Char: return c == n->ch;
	case Node::Any: return true;
	case Node::Prop:
		if (n->ch == 's') return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == 0x3000;
		if (n->ch == 'd') return (c >= '0' && c <= '9') || c == 0x663;
		return (c >= '0' && c <= '9') || c == 0x663 || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
	case Node::Class: { bool in = false; for (auto& r : n->ranges) in = in || (c >= r.first && c <= r.second); return in != n->neg; }
	default: return false;
	}
}
// Sets of end positions
static std::map<std::pair<Node*,int>, std::set<int>>* known_ends;	// of repetitions, where they nest deeply
static void ends_(const N& n, const U& t, int p, std::set<int>& out);
static void ends(const N& n, const U& t, int p, std::set<int>& out)
{
	if (!known_ends || n->k != Node::Rep) { ends_(n, t, p, out); return; }
	auto it = known_ends->find({n.get(),p});
	if (it == known_ends->end()) { std::set<int> s; ends_(n, t, p, s); it = known_ends->insert({{n.get(),p},s}).first; }
	out.insert(it->second.begin(), it->second.end());
}
static void ends_(const N& n, const U& t, int p, std::set<int>& out)
{
	switch (n->k) {
	case Node::Char: case Node::Any: case Node::Prop: case Node::Class:
		if (p < (int)t.size() && char_matches(n, t[p])) out.insert(p+1);
		return;
	case Node::Bol: if (p == 0 || t[p-1] == '\n') out.insert(p); return;
	case Node::Eol: if (p == (int)t.size() || t[p] == '\n') out.insert(p); return;
	case Node::Seq: {
		std::set<int> cur = {p};
		for (auto& k : n->kids) { std::set<int> nx; for (int q : cur) ends(k, t, q, nx); cur.swap(nx); if (cur.empty()) return; }
		out.insert(cur.begin(), cur.end()); return; }
	case Node::Alt: for (auto& k : n->kids) ends(k, t, p, out); return;
	case Node::Group: case Node::Cap: ends(n->kids[0], t, p, out); return;
	case Node::NegLook: { std::set<int> s; ends(n->kids[0], t, p, s); if (s.empty()) out.insert(p); return; }
	case Node::Rep: {
		std::set<int> cur = {p};
		for (int i = 0; i < n->min; i++) { std::set<int> nx; for (int q : cur) ends(n->kids[0], t, q, nx); cur.swap(nx); if (cur.empty()) return; }
		std::set<int> all = cur;
		for (int i = n->min; n->max == 0 || i < n->max; i++) {
			std::set<int> nx; for (int q : cur) ends(n->kids[0], t, q, nx);
			std::set<int> fresh; for (int q : nx) if (all.insert(q).second) fresh.insert(q);
			if (n->max == 0) { cur.swap(fresh); if (cur.empty()) break; }
			else { cur.swap(nx); if (cur.empty()) break; }
		}
		out.insert(all.begin(), all.end()); return; }
	}
}
// Sets of (end, captures)
typedef std::vector<int> Caps;
typedef std::set<std::pair<int,Caps>> CS;
static bool too_many;
static void cends(const N& n, const U& t, int p, const Caps& c, CS& out)
{
	if (out.size() > 4000) { too_many = true; return; }
	switch (n->k) {
	case Node::Char: case Node::Any: case Node::Prop: case Node::Class: case Node::Bol: case Node::Eol: case Node::NegLook:
		{ std::set<int> s; ends(n, t, p, s); for (int q : s) out.insert({q,c}); return; }
	case Node::Seq: {
		CS cur = {{p,c}};
		for (auto& k : n->kids) { CS nx; for (auto& q : cur) cends(k, t, q.first, q.second, nx); cur.swap(nx); if (cur.empty()) return; }
		out.insert(cur.begin(), cur.end()); return; }
	case Node::Alt: for (auto& k : n->kids) cends(k, t, p, c, out); return;
	case Node::Group: cends(n->kids[0], t, p, c, out); return;
	case Node::Cap: { CS s; Caps c1 = c; cends(n->kids[0], t, p, c1, s); for (auto& q : s) { Caps d = q.second; d[2*n->cap] = p; d[2*n->cap+1] = q.first; out.insert({q.first,d}); } return; }
	case Node::Rep: {
		CS cur = {{p,c}};
		for (int i = 0; i < n->min; i++) { CS nx; for (auto& q : cur) cends(n->kids[0], t, q.first, q.second, nx); cur.swap(nx); if (cur.empty()) return; }
		CS all = cur;
		for (int i = n->min; n->max == 0 || i < n->max; i++) {
			CS nx; for (auto& q : cur) cends(n->kids[0], t, q.first, q.second, nx);
			CS fresh; for (auto& q : nx) if (all.insert(q).second) fresh.insert(q);
			if (n->max == 0) { cur.swap(fresh); } else cur.swap(nx);
			if (cur.empty() || all.size() > 4000) break;
		}
		if (all.size() > 4000) too_many = true;
		out.insert(all.begin(), all.end()); return; }
	}
}
static void sample_text(const N& n, U& o, const std::vector<char32_t>& alpha)
{
	switch (n->k) {
	case Node::Char: o += n->ch; break;
	case Node::Any: o += rng().pick(alpha); break;
	case Node::Prop: o += n->ch == 's' ? U' ' : U'1'; break;
	case Node::Class: if (n->neg) o += rng().pick(alpha); else o += n->ranges[rng().below(n->ranges.size())].first; break;
	case Node::Seq: for (auto& k : n->kids) sample_text(k, o, alpha); break;
	case Node::Alt: sample_text(n->kids[rng().below(n->kids.size())], o, alpha); break;
	case Node::Group: case Node::Cap: sample_text(n->kids[0], o, alpha); break;
	case Node::Rep: { int k = n->min + rng().below(n->max ? n->max-n->min+1 : 3); for (int i = 0; i < k && o.size() < 14; i++) sample_text(n->kids[0], o, alpha); break; }
	default: break;
	}
}
static U make_text(const N& n, const std::vector<char32_t>& alpha)
{
	U t;
	int k = rng().below(3);
	for (int i = 0; i < k; i++) t += rng().pick(alpha);
	if (rng().chance(75)) sample_text(n, t, alpha);
	k = rng().below(4);
	for (int i = 0; i < k; i++) t += rng().pick(alpha);
	if (t.size() > 16) t.resize(16);
	if (rng().chance(20) && t.size()) t[rng().below(t.size())] = rng().pick(alpha);
	return t;
}
static StrVal text_of(const U& t) { std::string e = u8::enc(t); if (t.find(U'\0') != U::npos) cover("nul_in_text"); return StrVal(e.data(), (StrValIndex)e.size()); }
static bool has(const N& n, Node::K k) { if (n->k == k) return true; for (auto& c : n->kids) if (has(c, k)) return true; return false; }
static bool has_count(const N& n) { if (n->k == Node::Rep && n->style) return true; for (auto& c : n->kids) if (has_count(c)) return true; return false; }
// Could n match the empty string somewhere, and can it do so only by virtue of an assertion (^, $ or lookahead)?
static bool nullable(const N& n, bool assertions)
{
	switch (n->k) {
	case Node::Char: case Node::Any: case Node::Prop: case Node::Class: return false;
	case Node::Bol: case Node::Eol: case Node::NegLook: return assertions;
	case Node::Seq: for (auto& k : n->kids) if (!nullable(k, assertions)) return false; return true;
	case Node::Alt: for (auto& k : n->kids) if (nullable(k, assertions)) return true; return false;
	case Node::Group: case Node::Cap: return nullable(n->kids[0], assertions);
	case Node::Rep: return n->min == 0 || nullable(n->kids[0], assertions);
	}
	return false;
}
// Known finding rx-count-assertion: a counted repetition of something that matches empty only by an assertion
static bool assertion_counted(const N& n)
{
	if (n->k == Node::Rep && n->style && n->min >= 2 && nullable(n->kids[0], true) && !nullable(n->kids[0], false)) return true;
	for (auto& c : n->kids) if (assertion_counted(c)) return true;
	return false;
}
static std::string shape(const N& n) { std::string s(1, (char)('A'+n->k)); if (n->k == Node::Rep) s += fmt("%d,%d", n->min, n->max); if (n->kids.size()) { s += '('; for (auto& k : n->kids) s += shape(k); s += ')'; } return s; }

static char* compile_ok(const std::string& re, int extra = 0)
{
	RxCompiler c(StrVal(re.c_str()), (RxFeature)((int)RxFeature::AllFeatures | extra));
	char* nfa = 0;
	if (!c.compile(nfa))
		fail("a valid regular expression was refused: " + std::string(c.errorMessage() ? c.errorMessage() : "(null)"));
	VH_REQUIRE(nfa, "compile returned true with no nfa");
	return nfa;
}

// Does this expression lie in the domain where the VM's thread pruning is exact?
// Reference result for a search from `from`
static bool ref_search(const N& n, const U& t, int from, bool at, int& s, int& len)
{
	for (s = from; s <= (int)t.size(); s++) {
		std::set<int> e; ends(n, t, s, e);
		if (!e.empty()) { len = *e.rbegin()-s; return true; }
		if (at) break;
	}
	return false;
}

// Counted repetitions nested up to the limit, few of which leave a choice
static N deep_counts(Gen& g, int levels)
{
	int choices = 4; g.allow_cap = false; N n = mk(Node::Char); n->ch = 'a';
	for (int i = 0; i < levels; i++) {
		N rep = mk(Node::Rep); rep->style = 1; rep->min = rep->max = 1;
		if (choices && rng().chance(40)) { static const int mm[][2] = { {1,2},{2,2},{0,2},{2,3},{1,3},{2,0} }; int k = rng().below(i < 2 ? 6 : 5); rep->min = mm[k][0]; rep->max = mm[k][1]; choices--; }
		rep->kids.push_back(n);
		N seq = mk(Node::Seq); if (rng().chance(15)) { N c = mk(Node::Char); c->ch = rng().pick(g.alpha); seq->kids.push_back(c); } seq->kids.push_back(rep); if (rng().chance(15)) { N c = mk(Node::Char); c->ch = rng().pick(g.alpha); seq->kids.push_back(c); }
		if (i == levels-1) return seq;
		n = mk(Node::Group); n->style = rng().below(2); n->kids.push_back(seq);
	}
	return n;
}
CHECK(X02)
{
	while (next_case(160000, 2400000)) {
		Gen g; g.allow_cap = rng().chance(30); g.simple_count = rng().chance(50);
		g.budget = rng().chance(5) ? rng().range(20,80) : rng().range(3, 14);
		bool deep = rng().below(200) < 1; int levels = rng().range(3,12);
		N n = deep ? deep_counts(g, levels) : g.alt(rng().range(0,3));
		if (deep) cover(fmt("counts_nested_%d", levels));
		if (assertion_counted(n)) { cover("excluded_assertion_counted"); continue; }
		ext_syntax = rng().chance(15); shell_syntax = rng().chance(10);
		int extra = (ext_syntax ? (int)RxFeature::ExtendedRE : 0) | (shell_syntax ? (int)RxFeature::AnyIsQuest|(int)RxFeature::ZeroOrMoreAny : 0);
		std::string re; print(n, re);
		ext_syntax = shell_syntax = false;
		note(fmt("features +%x re %s", extra, esc(re).c_str()));
		char* nfa = compile_ok(re, extra);
		RxProgram prog(nfa, true);
		for (int k = 0; k < 5; k++) {
			U t = make_text(n, g.alpha);
			int from = rng().chance(60) ? 0 : rng().below(t.size()+1);
			bool at = rng().chance(30);
			note(fmt("features +%x re %s text %s from %d %s", extra, esc(re).c_str(), esc(u8::enc(t)).c_str(), from, at ? "at" : "after"));
			int s = 0, len = 0;
			std::map<std::pair<Node*,int>, std::set<int>> memo; known_ends = deep ? &memo : 0;
			bool expect = ref_search(n, t, from, at, s, len); known_ends = 0;
			StrVal target = text_of(t);
			if (rng().chance(25)) {	// a slice of a longer text
				StrVal big = StrVal("\xC3\xA9zz")+target+"qq\xE2\x82\xAC";
				target = big.substr(3, t.size());
				cover("sliced_text");
			}
			RxResult r = at ? prog.matchAt(target, from) : prog.matchAfter(target, from);
			cover(expect ? "expected_match" : "expected_fail");
			if (r.succeeded() != expect)
				fail(fmt("expected %s, got %s (%d,%d)", expect ? fmt("match (%d,%d)", s, len).c_str() : "no match", r.succeeded() ? "match" : "no match", (int)r.offset(), (int)r.length()));
			if (expect && ((int)r.offset() != s || (int)r.length() != len))
				fail(fmt("expected match at %d length %d, got %d length %d", s, len, (int)r.offset(), (int)r.length()));
			if (expect) seen(hash_str(re+"\0"+u8::enc(t)+fmt("%d%d", from, at)), t.size() > 0);
		}
		if (has_count(n)) cover("counted"); if (has(n, Node::NegLook)) cover("neg_lookahead");
		sample(st().casetext);
	}
}

CHECK(X03)
{
	while (next_case(100000, 1500000)) {
		if (rng().below(200) < 1) {	// very many groups, some unset, in a sequence with only one derivation
			int k = rng().range(1, 254), rep = rng().range(1,3); U t; std::string re; Caps ex(2*(k+1), 0); std::vector<int> kind(k);
			for (auto& x : kind) x = rng().below(4);
			bool loop = rng().chance(30); if (loop) re = "(?:";
			for (int i = 0; i < k; i++) { re += fmt("(?<g%d>", i+1)+(kind[i] == 0 ? "zz*)?" : kind[i] == 1 ? "a|[b-d])" : kind[i] == 2 ? "\xC3\xA9+)x" : "a{2})"); }
			if (loop) re += "!){1,3}"; else rep = 1;
			for (int q = 0; q < rep; q++) {
				for (int i = 0; i < k; i++) {
					if (kind[i] == 0) continue;
					ex[2*i+2] = t.size();
					if (kind[i] == 1) t += U"abcd"[rng().below(4)]; else if (kind[i] == 2) t.append(rng().range(1,3), U'\u00E9'); else t += U"aa";
					ex[2*i+3] = t.size();
					if (kind[i] == 2) t += U'x';
				}
				if (loop) t += U'!';
			}
			note(fmt("%d groups re %s text %s", k, esc(re).c_str(), esc(u8::enc(t)).c_str()));
			RxProgram prog(compile_ok(re), true);
			RxResult r = prog.matchAt(text_of(t));
			VH_REQUIRE(r && r.offset() == 0 && r.length() == t.size(), "wrong match");
			for (int i = 2; i < 2*(k+1); i++) VH_REQUIRE((int)r.capture(i) == ex[i], fmt("capture %d is %d, not %d", i, (int)r.capture(i), ex[i]));
			cover("many_groups"); cover("capture_set"); seen(hash_str(re+u8::enc(t)));
			continue;
		}
		Gen g; g.simple_count = rng().chance(50);
		g.budget = rng().range(3, 12);
		N n = g.alt(rng().range(1,3));
		if (assertion_counted(n)) { cover("excluded_assertion_counted"); continue; }
		if (g.caps == 0) { cover("no_captures"); continue; }
		std::string re; print(n, re);
		note("re "+esc(re));
		char* nfa = compile_ok(re);
		RxProgram prog(nfa, true);
		VH_REQUIRE(prog.maxCapture() == g.caps+1, fmt("maxCapture %d for %d named groups", prog.maxCapture(), g.caps));
		// groups are numbered in order of their opening parenthesis, which is how the generator numbered them
		std::vector<std::string> order; std::function<void(const N&)> walk = [&](const N& x) { if (x->k == Node::Cap) order.push_back(x->name); for (auto& c : x->kids) walk(c); }; walk(n);
		std::map<std::string,int> num;
		for (size_t i = 0; i < order.size(); i++) {
			num[order[i]] = i+1;
			VH_REQUIRE(prog.group_name(i+1) == StrVal(order[i].c_str()), "group_name is wrong");
		}
		std::function<void(const N&)> renum = [&](const N& x) { if (x->k == Node::Cap) x->cap = num[x->name]; for (auto& c : x->kids) renum(c); }; renum(n);
		struct Kept { RxResult r; int s, l; Caps caps; };
		std::vector<Kept> kept;
		for (int k = 0; k < 6; k++) {
			U t = make_text(n, g.alpha);
			if (t.size() > 9) t.resize(9);
			note(fmt("re %s text %s", esc(re).c_str(), esc(u8::enc(t)).c_str()));
			int s = 0, len = 0;
			if (!ref_search(n, t, 0, false, s, len)) { cover("no_match"); continue; }
			StrVal target = text_of(t);
			RxResult r = prog.matchAfter(target);
			VH_REQUIRE(r.succeeded(), "expected a match");
			VH_REQUIRE((int)r.offset() == s && (int)r.length() == len, "match extent differs");
			Caps got(2*(g.caps+1), 0);
			bool any = false;
			for (int i = 1; i <= g.caps; i++) { got[2*i] = r.capture(2*i); got[2*i+1] = r.capture(2*i+1); any = any || got[2*i+1]; }
			too_many = false;
			CS all; cends(n, t, s, Caps(2*(g.caps+1), 0), all);
			if (too_many) { cover("too_many_derivations"); continue; }
			bool ok = all.count({s+len, got});
			if (!ok) {
				std::string d; for (int c : got) d += fmt("%d ", c);
				std::string a; int q = 0; for (auto& x : all) if (x.first == s+len && q++ < 5) { a += "["; for (int c : x.second) a += fmt("%d ", c); a += "]"; }
				fail(fmt("match (%d,%d): captures %sare not those of any derivation; e.g. %s", s, len, d.c_str(), a.c_str()));
			}
			int alts = 0; for (auto& x : all) alts += x.first == s+len;
			cover(alts == 1 ? "unique_derivation" : "several_derivations");
			if (any) { cover("capture_set"); seen(hash_str(re+"/"+u8::enc(t))); }
			kept.push_back({r, s, len, got});
			for (auto& o : kept) {	// earlier results are unaffected
				VH_REQUIRE((int)o.r.offset() == o.s && (int)o.r.length() == o.l, "an earlier result changed");
				for (int i = 1; i <= g.caps; i++)
					VH_REQUIRE((int)o.r.capture(2*i) == o.caps[2*i] && (int)o.r.capture(2*i+1) == o.caps[2*i+1], "captures of an earlier result changed");
			}
		}
		sample(st().casetext);
	}
}

// ------------------------------------------------------------------------------------------- X01
static void run_program(char* nfa, bool owned)
{
	RxProgram p(nfa, owned);
	static const char* texts[] = { "", "a", "aab(b)[c]", "\xC3\xA9\xCE\xB1 a1\n{2}", "aaaaaaaaaaaaaaaa", "*+?\\|" };
	for (const char* t : texts) {
		StrVal v(t);
		RxResult r = p.matchAfter(v);
		if (r.succeeded()) {
			cover("executed_match");
			VH_REQUIRE(r.offset()+r.length() <= (StrValIndex)v.length(), "match extends beyond the text");
			for (int i = 2; i < r.captureMax()*2; i++) VH_REQUIRE(r.capture(i) <= (StrValIndex)v.length(), "capture outside the text");
		} else cover("executed_fail");
		RxResult r2 = p.matchAt(v, v.length());
		(void)r2;
	}
}
// compile; check totality of the report. Returns success
static bool try_compile(const std::string& re, RxFeature f = RxFeature::AllFeatures, RxFeature rej = RxFeature::NoFeature, std::string* msg = 0)
{
	StrVal s(re.data(), (StrValIndex)re.size());	// it may include NUL characters
	RxCompiler c(s, f, rej);
	char* nfa = (char*)1;
	bool ok = c.compile(nfa);
	if (ok) {
		VH_REQUIRE(nfa && nfa != (char*)1, "success without an NFA");
		VH_REQUIRE(!c.errorMessage(), "success with an error message");
		run_program(nfa, true);
		cover("compiled");
	} else {
		VH_REQUIRE(c.errorMessage(), "failed with no error message");
		VH_REQUIRE(c.errorMessage()[0], "empty error message");
		VH_REQUIRE(c.errorOffset() >= 0 && c.errorOffset() <= (int)s.length(), fmt("error offset %d outside the expression of %d", c.errorOffset(), (int)s.length()));
		VH_REQUIRE(nfa == 0, "failed but left an NFA");
		cover(std::string("error: ")+c.errorMessage());
		if (msg) *msg = c.errorMessage();
	}
	return ok;
}
static std::string rand_valid(int budget, int depth)
{
	for (;;) { Gen g; g.budget = budget; N n = g.alt(depth); std::string re; print(n, re); if (re.size()) return re; }
}
CHECK(X01)
{
	static const char* toks[] = { "a","b","(","(",")",")","[","]","^","$",".","?","*","+","{","}","{2}","{1,3}","{,2}","{3,}",",","1","0","9","|","\\","\\x","\\x4","\\u","\\u1F600","\\12","\\p{Alpha}","\\p{","\\s","\\d","(?","(?:","(?!","(?<","(?<n>","(?<m>","<",">","-","[^","[a-","\xC3\xA9","\xF0\x9F\x98\x80"," ","\n","#","e","\\n","254","255","{300}","{65537}" };
	const int NT = sizeof(toks)/sizeof(*toks);
	static const int feats[] = { 1,2,4,8,16,32,64,0x100,0x200,0x400,0x800,0x1000,0x2000,0x4000,0x8000,0x10000,0x40000,0x80000 };
	while (next_case(100000, 1500000)) {
		int mode = rng().below(7);
		if (rng().chance(2)) mode = rng().range(7,8);
		std::string re;
		if (mode == 0) {	// token soup
			int k = rng().range(1, rng().chance(10) ? 60 : 12);
			for (int i = 0; i < k; i++) re += toks[rng().below(NT)];
			if (rng().chance(3)) { for (int i = rng().range(1,3); i > 0; i--) re.insert(rng().below(re.size()+1), 1, '\0'); cover("nul_in_expression"); }
			int f = 0xFFFFF, rej = 0;
			if (rng().chance(30)) for (int i = rng().below(5); i > 0; i--) f &= ~feats[rng().below(18)];
			if (rng().chance(20)) rej = feats[rng().below(18)];
			if (rng().chance(15)) f |= 0x20000000;
			if (rng().chance(5)) f |= 0x01000000;
			if (rng().chance(5)) f |= 0x02000000;
			note(fmt("soup features %x reject %x re %s", f, rej, esc(re).c_str()));
			bool ok = try_compile(re, (RxFeature)f, (RxFeature)rej);
			seen(hash_str(re), true);
			cover(ok ? "soup_ok" : "soup_refused");
		} else if (mode == 1) {	// mutated valid expression
			re = rand_valid(rng().range(3,12), 3);
			for (int k = rng().range(1,3); k > 0; k--) {
				U u = u8::dec(re); if (u.empty()) break;
				int p = rng().below(u.size());
				if (rng().chance(40)) u.erase(p, 1); else if (rng().chance(50)) u.insert(p, 1, U"()[]{}|*+?\\^$-<>!:,"[rng().below(18)]); else u.resize(p);
				re = u8::enc(u);
			}
			note("mutated re "+esc(re));
			bool ok = try_compile(re);
			seen(hash_str(re)); cover(ok ? "mutant_ok" : "mutant_refused");
		} else if (mode == 2) {	// large valid expressions: offsets of every encoded size
			int k = rng().range(1, 40);
			for (int i = 0; i < k; i++) {
				if (i && rng().chance(40)) re += "|";
				std::string s = rand_valid(rng().range(1,14), 2);
				size_t p; while ((p = s.find("?<n")) != std::string::npos) s.replace(p, 4, "?:"), p = s.find(">", p), s.erase(p, 1);
				re += "("+s+")"; if (rng().chance(50)) re += "*+?"[rng().below(3)]; else if (rng().chance(20)) re += "{2,3}";
			}
			if (rng().chance(50)) re = "(" + re + ")" + "*+?"[rng().below(3)];
			// repetition of a lookahead etc. cannot arise here, so it must compile
			note(fmt("large valid (%zu bytes) re %s", re.size(), esc(re).c_str()));
			RxCompiler c(StrVal(re.c_str())); char* nfa = 0;
			if (!c.compile(nfa)) fail(std::string("refused: ")+(c.errorMessage() ? c.errorMessage() : "?"));
			RxProgram prog(nfa, true);
			StrVal t("ab \n");
			(void)prog.matchAfter(t);
			cover(re.size() > 1000 ? "large_over_1000" : "large"); seen(hash_str(re));
		} else if (mode == 3) {	// definitely malformed
			std::string v = rand_valid(4,1), w = rand_valid(4,1);
			auto strip = [](std::string s) { size_t p; while ((p = s.find("?<n")) != std::string::npos) { s.replace(p, 4, "?:"); p = s.find(">", p); s.erase(p, 1); } return s; };
			v = strip(v); w = strip(w);
			std::string big; for (int i = 0; i < 13; i++) big += "(";
			big += "a"; for (int i = 0; i < 13; i++) big += ")";
			const std::string bad[] = { "("+v, v+")", v+"("+w, v+")"+w, "(?<n>"+v, "[abc", v+"[a-", v+"[^", "*"+v, "("+v+")**", "("+v+")+*", "|*"+v, "(*"+v+")", "("+v+"){3,2}", "("+v+"){255}", "("+v+"){1,255}", "("+v+"){65537}", "("+v+"){4", "("+v+"){x}", "("+v+"){-1}", "(?<a>"+v+")(?<a>"+w+")", "(?<>"+v+")", "(?<q"+v.substr(0,0)+"a)", "(?x"+v+")", "(?"+std::string(")"), big, "\\xg"+v, "\\u"+std::string("zz")+v, "^*", "$+", "a{99999999999}", v+"\\x", v+"\\xg", v+"\\x 4", v+"\\x-4"+w, v+"\\x+A", v+"\\u", v+"\\u-41"+w, v+"\\u\t41", v+"\\u+61" };
			re = bad[rng().below(sizeof(bad)/sizeof(*bad))];
			note("malformed re "+esc(re));
			if (try_compile(re)) fail("a malformed expression was accepted");
			cover("malformed_refused"); seen(hash_str(re));
		} else if (mode == 4) {	// nesting exactly at and around the documented maximum
			int d = rng().range(1, 16); std::string a, b;
			for (int i = 0; i < d; i++) { a += rng().chance(50) ? "(" : "(?:"; b = ")"+b; }
			re = a+"ab"+b;
			note("nested re "+re);
			bool ok = try_compile(re);
			VH_REQUIRE(ok == (d < RxMaxNesting), fmt("nesting depth %d %s", d, ok ? "accepted" : "refused"));
			cover("nesting"); seen(hash_str(re));
		} else if (mode == 5) {	// disabled features are literal, or escapes stand for themselves
			struct { int f; const char* re; const char* lit; const char* notlit; } T[] = {
				{0x40, "x[ab]y", "x[ab]y", "xay"}, {0x40000, "^ab", "^ab", 0}, {0x80000, "ab$c", "ab$c", 0},
				{0x200, "xab*", "xab*", 0}, {0x400, "xab+c", "xab+c", "xabbc"}, {0x800, "xa{2}y", "xa{2}y", "xaay"},
				{0x1000, "qa|bw", "qa|bw", "qa"}, {0x2000, "x(ab)y", "x(ab)y", "xaby"}, {1, "x\\ny", "xny", "x\ny"},
				{2, "x\\dy", "xdy", "x1y"}, {2, "x\\sy", "xsy", "x y"}, {4, "x\\101y", "x101y", "xAy"}, {8, "x\\x41y", "xx41y", "xAy"}, {16, "x\\u00041y", "xu00041y", "xAy"},
				{0x100, "xab?y", "xab?y", "xay"}, {0x20, "x\\pQy", "xpQy", 0}, {1, "x\\ty", "xty", "x\ty"}, {2, "x\\hy", "xhy", "x1y"},
			};
			auto& t = T[rng().below(sizeof(T)/sizeof(*T))];
			std::string pre, suf; for (int i = rng().below(3); i > 0; i--) { pre += "mno\xC3\xA9"[rng().below(3)]; suf += "pqr"[rng().below(3)]; }
			re = pre+t.re;
			note(fmt("feature %x disabled re %s", t.f, esc(re).c_str()));
			{ RxCompiler c(StrVal(re.c_str()), (RxFeature)(0xFFFFF & ~t.f)); char* nfa = 0;
			  VH_REQUIRE(c.compile(nfa), "disabling a feature must make it literal");
			  RxProgram p(nfa, true); std::string text = suf+pre+t.lit+suf;
			  RxResult r = p.matchAfter(StrVal(text.c_str()));
			  VH_REQUIRE(r.succeeded() && (int)r.offset() <= (int)suf.size(), "the disabled feature does not match itself: "+text);
			  if (r.offset() == suf.size()) VH_REQUIRE(r.length() >= u8::dec(pre+t.lit).size(), "literal match has the wrong length");
			  if (t.notlit) VH_REQUIRE(!p.matchAfter(StrVal((pre+t.notlit).c_str())).succeeded(), "the disabled feature is still active"); }
			if (t.notlit) { RxCompiler c(StrVal(re.c_str())); char* nfa = 0; VH_REQUIRE(c.compile(nfa), "enabled feature refused"); RxProgram p(nfa, true);
			  VH_REQUIRE(p.matchAfter(StrVal((pre+t.notlit).c_str())).succeeded(), "the enabled feature is not active"); }
			// Rejected features are refused
			{ std::string msg; VH_REQUIRE(!try_compile(re, RxFeature::AllFeatures, (RxFeature)t.f, &msg), "a rejected feature was accepted"); }
			cover("feature_literal"); seen(hash_str(re)^t.f);
		} else if (mode == 7) {	// as many groups as are allowed, and more
			static const int ks[] = {1,2,63,64,126,127,128,200,253,254,255,256,300};
			int k = ks[rng().below(13)]; bool alts = rng().chance(40);
			std::string text;
			std::vector<std::string> names; for (int i = 0; i < k; i++) { std::string name = fmt(rng().chance(50) ? "g%d" : "\xC3\xA9%d", i); names.push_back(name); re += (alts && i ? "|(?<" : "(?<")+name+">"+(alts ? fmt("<%d>", i) : std::string(1, 'a'+i%26))+")"; text += 'a'+i%26; }
			note(fmt("%d groups%s", k, alts ? " in alternates" : ""));
			RxCompiler c(StrVal(re.c_str())); char* nfa = 0;
			bool ok = c.compile(nfa);
			VH_REQUIRE(ok == (k <= 254), fmt("%d named groups %s", k, ok ? "accepted" : "refused"));
			for (int rep = 0; rep < 4 && ok; rep++) {	// any of the names once more is one too many
				int which = rep == 0 ? k-1 : rng().below(k); std::string twice = re+(rng().chance(50) ? "|" : "")+"(?<"+names[which]+">x)"; VH_REQUIRE(!try_compile(twice), fmt("the name of group %d of %d was accepted again", which+1, k)); cover("name_again");
			}
			if (!ok) VH_REQUIRE(c.errorMessage() && *c.errorMessage() && c.errorOffset() > 0 && c.errorOffset() < (int)re.size(), "refused without a located error");
			else {
				RxProgram p(nfa, true);
				VH_REQUIRE(p.maxCapture() == k+1, fmt("maxCapture %d", p.maxCapture()));
				for (int rep = 0; rep < 3; rep++) {
					int pick = rep == 0 ? k-1 : rng().below(k);
					if (alts) text = fmt("<%d>", pick);
					RxResult r = p.matchAfter(StrVal(("  "+text).c_str()));
					VH_REQUIRE(r && r.offset() == 2 && r.length() == text.size(), "wrong match with many groups");
					for (int i = 0; i < k; i++) {
						int es = alts ? (i == pick ? 2 : 0) : 2+i, ee = alts ? (i == pick ? 2+(int)text.size() : 0) : 3+i;
						VH_REQUIRE((int)r.capture(2*(i+1)) == es && (int)r.capture(2*(i+1)+1) == ee, fmt("group %d captured (%d,%d), not (%d,%d)", i+1, (int)r.capture(2*i+2), (int)r.capture(2*i+3), es, ee));
					}
				}
			}
			cover("many_groups"); seen(hash_str(re));
		} else if (mode == 8) {	// counts up to and beyond the limit
			static const int ks[] = {1,2,3,63,64,127,128,200,252,253,254,255,256,257,300,510,511,512,65536};
			int lo = ks[rng().below(19)], hi = rng().chance(30) ? lo : rng().chance(40) ? 0 : ks[rng().below(19)];
			if (hi && hi < lo) std::swap(lo, hi);
			bool nested = rng().chance(30); std::string atom = nested ? "(?:ab?)" : rng().chance(50) ? "a" : "[a-c]";
			re = "x"+atom+(lo == hi ? fmt("{%d}", lo) : hi ? fmt("{%d,%d}", lo, hi) : fmt("{%d,}", lo));
			note("counts re "+re);
			RxCompiler c(StrVal(re.c_str())); char* nfa = 0;
			bool ok = c.compile(nfa);
			VH_REQUIRE(ok == (lo <= 254 && hi <= 254), ok ? "accepted" : "refused");
			if (!ok) VH_REQUIRE(c.errorMessage() && *c.errorMessage(), "refused without a message");
			else {
				RxProgram p(nfa, true);
				int ls[] = {lo-1, lo, lo+1, hi-1, hi, hi+1, hi+40, (int)rng().below(600)};
				for (int n : ls) if (n >= 0) {
					std::string t = "x"+std::string(n, 'a');
					RxResult r = p.matchAfter(StrVal(t.c_str()));
					VH_REQUIRE(r.succeeded() == (n >= lo), fmt("%d repetitions %s", n, r.succeeded() ? "matched" : "did not match"));
					if (n >= lo) VH_REQUIRE(r.offset() == 0 && (int)r.length() == 1+(hi && n > hi ? hi : n), fmt("%d repetitions gave length %d", n, (int)r.length()));
				}
			}
			cover("count_limits"); seen(hash_str(re));
		} else {	// the error offset locates an error in the middle of good text
			std::string v; for (int i = rng().range(1,8); i > 0; i--) v += "abcxyz"[rng().below(6)];
			struct { const char* bad; } B[] = { {"a**"}, {"(?<n>a)(?<n>b)"}, {"(?#"}, {"a{300}"}, {"[ab"}, {"c)"} };
			auto& b = B[rng().below(6)];
			std::string w; for (int i = rng().range(0,8); i > 0; i--) w += "mnopq"[rng().below(5)];
			re = v+b.bad+w;
			note("offset re "+re);
			RxCompiler c(StrVal(re.c_str())); char* nfa = 0;
			VH_REQUIRE(!c.compile(nfa), "malformed expression accepted");
			VH_REQUIRE(c.errorMessage(), "no message");
			int lo = v.size(), hi = v.size()+strlen(b.bad);
			if (b.bad[0] == '[') hi = re.size();		// found unterminated only at the end
			VH_REQUIRE(c.errorOffset() >= lo && c.errorOffset() <= hi, fmt("error offset %d is not in the erroneous part %d..%d (%s)", c.errorOffset(), lo, hi, c.errorMessage()));
			cover("offset_located"); seen(hash_str(re));
		}
		sample(st().casetext);
	}
}

// ------------------------------------------------------------------------------------------- X04
#if defined(VH_HEAP)
static double cpu() { struct timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec+t.tv_nsec*1e-9; }
static double timed(const RxProgram& p, const StrVal& t, long* peak, int reps)
{
	double best = 1e9;
	for (int i = 0; i < reps; i++) {
		heapmon::reset_peak(); long base = heapmon::live;
		double s = cpu();
		{ RxResult r = p.matchAfter(t); if (r.succeeded()) cover("long_match"); else cover("long_fail"); }
		double e = cpu()-s;
		if (e < best) best = e;
		*peak = heapmon::peak-base;
	}
	return best;
}
CHECK(X04)
{
	static const char* fixed[] = { "(a*)*b", "(a|a)*b", "(a|aa)*b", "(a*a*a*a*)*b", "(?:a?b?)*c", "(a+)+b", "((a+)+)+b", ".*.*.*.*x", "(.*)*x", "(?:a|b|ab)*c", "(a?){20}b", "(a{1,5}){1,5}b", "(?:ab?|a)*c", "(|a)*b", "(?<x>a*)(?<y>a*)(?<z>a*)b", "(?:(?<x>a)|(?<y>b))*c", "[ab]*[ab]*[ab]*c", "^(a*)*$b", "a.*a.*a.*b", "(?:\xC3\xA9|a)*b" };
	while (next_case(160, 1200)) {
		std::string re, unit;
		std::vector<char32_t> alpha = {'a','b'};
		if (st().index < 20) re = fixed[st().index];
		else if (rng().chance(40)) {	// classic blow-ups: n optional groups, nested alternations
			int k = rng().range(2,24);
			switch (rng().below(4)) {
			case 0: for (int i = 0; i < k; i++) re += "a?"; for (int i = 0; i < k; i++) re += "a"; re += "b"; break;
			case 1: for (int i = 0; i < k; i++) re += "(a?|b?)"; re += "c"; break;
			case 2: re = "(?:"; for (int i = 0; i < k; i++) re += "(a|b?|)"; re += "){2}c"; break;
			case 3: for (int i = 0; i < 8; i++) re += "("; re += "a"; for (int i = 0; i < 8; i++) re += rng().chance(50) ? "*)" : "+)"; re += "*b"; break;
			}
		} else {
			Gen g; g.allow_look = false; g.simple_count = true; g.budget = rng().range(3,12);
			N n = g.alt(3); print(n, re); alpha = g.alpha;
			re += "\xE2\x82\xAC";		// something not in the text, so that the search must go on to the end
		}
		note("re "+esc(re));
		char* nfa = compile_ok(re);
		RxProgram prog(nfa, true);
		std::string a; 
		int pat = rng().below(3);
		auto text = [&](int n) { Rng r(st().index+77); std::string s; for (int i = 0; i < n; i++) u8::put(s, pat == 0 ? alpha[0] : pat == 1 ? alpha[i%alpha.size()] : r.pick(alpha)); return s; };
		int n = 1000; long peak1 = 0, peak2 = 0, pk;
		StrVal t1(text(n).c_str());
		double e = timed(prog, t1, &pk, 1);
		while (e < 0.004 && n < 32000) { n *= 2; t1 = StrVal(text(n).c_str()); e = timed(prog, t1, &pk, 1); }
		StrVal t4(text(4*n).c_str());
		double r = 0, e1 = 0, e4 = 0;
		for (int attempt = 0; attempt < 4; attempt++) {
			e1 = timed(prog, t1, &peak1, 3); e4 = timed(prog, t4, &peak2, 2);
			r = e4/(e1+1e-4);
			if (r < 9) break;
			cover("timing_retry");
		}
		note_more(fmt(" n %d time %.4f, 4n time %.4f, peak %ld and %ld bytes", n, e1, e4, peak1, peak2));
		if (r >= 9) fail(fmt("time grew %.1f-fold for a text 4 times as long", r));
		if (e1/n > 0.002) fail(fmt("%.4f seconds per character", e1/n));
		if (peak2 > peak1*2+8192) fail(fmt("memory grew from %ld to %ld bytes with the length of the text", peak1, peak2));
		if (peak2 > 4000000) fail(fmt("%ld bytes used", peak2));
		seen(hash_str(re)); cover("chars_matched", 5*n);
		sample(st().casetext);
	}
}
#endif

// ------------------------------------------------------------------------------------------- X05
#include <thread>
#include <atomic>
CHECK(X05)
{
	while (next_case(1200, 16000)) {
		Gen g; g.budget = rng().range(3,12); g.simple_count = true;
		N n = g.alt(3);
		std::string re; print(n, re);
		note("re "+esc(re));
		char* nfa = compile_ok(re);
		RxCompiler comp{StrVal(re.c_str())};
		char* nfa2 = 0; VH_REQUIRE(comp.compile(nfa2), "recompile");
		size_t len = malloc_usable_size(nfa); (void)len;
		std::string before(nfa, strlen(nfa));
		{
			RxProgram prog(nfa, false);
			const int NT = 4, K = 6;
			std::vector<StrVal> texts; std::vector<std::vector<int>> expect;
			for (int k = 0; k < K; k++) texts.push_back(text_of(make_text(n, g.alpha)));
			RxProgram ref(nfa2, true);
			auto run = [](const RxProgram& p, const StrVal& t) {
				std::vector<int> v;
				auto add = [&](const RxResult& r) { v.insert(v.end(), {r.succeeded(), (int)r.offset(), (int)r.length()}); for (int i = 2; i < r.captureMax()*2; i++) v.push_back(r.capture(i)); };
				RxResult r = p.matchAfter(t); RxResult r0 = p.matchAt(t, r.succeeded() ? (int)r.offset() : 0);
				add(r); add(r0);
				if (t.length() > 1) { RxResult r1 = p.matchAfter(t, t.length()/2), r2 = p.matchAt(t, 1); add(r1); add(r2); }
				add(r);
				for (int i = 0; i < p.maxCapture(); i++) v.push_back(p.group_name(i).length());
				return v; };
			for (int k = 0; k < K; k++) expect.push_back(run(ref, texts[k]));
			std::vector<StrVal> mine[NT]; for (auto& m : mine) m = texts;
			std::atomic<int> go(0), bad(-1);
			std::vector<std::thread> th;
			for (int i = 0; i < NT; i++) th.emplace_back([&, i]() {
				go++; while (go < NT) ;
				for (int rep = 0; rep < 3; rep++) for (int k = 0; k < K; k++) { int q = (k+i*2)%K; if (run(prog, mine[i][q]) != expect[q]) bad = q; }
			});
			for (auto& t : th) t.join();
			if (bad >= 0) fail(fmt("a concurrent match of text %s gave a different result", texts[bad].asUTF8()));
			cover("concurrent_matches", NT*K*3);
			for (int k = 0; k < K; k++) { VH_REQUIRE(run(prog, texts[k]) == expect[k], "result changed after use"); if (expect[k][0]) seen(hash_str(re)^k); }
		}
		VH_REQUIRE(before == std::string(nfa, strlen(nfa)), "the NFA was changed");
		delete[] nfa;
		sample(st().casetext);
	}
}

// A compiled expression is a plain C string: all of it, and nothing else, is needed to match
static void put_nuls(const N& n, int& done)
{
	if (n->k == Node::Char && rng().chance(30)) { n->ch = 0; n->style = rng().range(0,3); done++; }
	for (auto& k : n->kids) put_nuls(k, done);
}
// What the program must consist of, in the order of the expression
static void leaves(const N& n, std::vector<std::string>& o)
{
	for (auto& k : n->kids) leaves(k, o);
	switch (n->k) {
	case Node::Char: o.push_back(fmt("Char 0x%X", (unsigned)n->ch)); break;
	case Node::Any: o.push_back("Any"); break;
	case Node::Prop: o.push_back(fmt("CharProperty '%c'", (char)n->ch)); break;
	case Node::Class: { std::string x; for (auto& r : n->ranges) { u8::put(x, r.first); u8::put(x, r.second); } o.push_back(std::string(n->neg ? "NegCharClass '" : "CharClass '")+x+"'"); break; }
	case Node::Bol: o.push_back("BOL"); break;
	case Node::Eol: o.push_back("EOL"); break;
	case Node::NegLook: o.push_back("NegLookahead"); break;
	case Node::Rep: if (n->style && !(n->min == 0 && n->max == 1) && !(n->min == 1 && n->max == 0)) o.push_back(fmt("Count %d-%d", n->min, n->max)); break;
	default: break;
	}
}
struct Captured {	// what is printed on stdout meanwhile
	FILE* old; char* p = 0; size_t n = 0;
	Captured() { fflush(stdout); old = stdout; stdout = open_memstream(&p, &n); }
	std::string end() { fclose(stdout); stdout = old; std::string s(p, n); free(p); old = 0; return s; }
	~Captured() { if (old) end(); }
};
static std::vector<int> results(const RxProgram& p, const StrVal& t)
{
	std::vector<int> v;
	auto add = [&](const RxResult& r) { v.insert(v.end(), {r.succeeded(), (int)r.offset(), (int)r.length()}); for (int i = 2; i < r.captureMax()*2; i++) v.push_back(r.capture(i)); };
	add(p.matchAfter(t)); add(p.matchAt(t)); if (t.length()) add(p.matchAfter(t, 1));
	v.insert(v.end(), { (int)p.maxStation(), (int)p.maxCounter(), (int)p.maxCapture() });
	return v;
}
CHECK(X06)
{
	while (next_case(60000, 900000)) {
		Gen g; g.budget = rng().chance(8) ? rng().range(20,120) : rng().range(3,14);
		N n = g.alt(rng().range(0,3)); int nuls = 0, caps = g.caps; bool literal = rng().chance(15);
		if (literal) { n = mk(Node::Seq); for (int k = rng().range(1,8); k > 0; k--) { N c = mk(Node::Char); c->ch = rng().pick(g.alpha); c->style = rng().below(8); n->kids.push_back(c); } caps = 0; }
		if (rng().chance(20)) put_nuls(n, nuls);
		bool many = !literal && rng().chance(3); std::vector<std::string> names; for (int i = 1; i <= caps; i++) names.push_back(fmt("n%d", i));
		std::string re; print(n, re);
		if (many) { int k = rng().range(1, 120); for (int i = 0; i < k; i++) { std::string nm = fmt("%s%d", rng().chance(30) ? "\xC3\xA9\xE2\x82\xAC_a_very_long_name_" : "m", i); names.push_back(nm); re += "(?<"+nm+">"+(rng().chance(50) ? "a|b)" : "xy)*"); } cover("many_names"); }
		note("re "+esc(re));
		RxCompiler comp{StrVal(re.data(), (StrValIndex)re.size())}; char* nfa = 0;
		if (!comp.compile(nfa)) fail(std::string("refused: ")+(comp.errorMessage() ? comp.errorMessage() : "?"));
		size_t len = strlen(nfa);
		if (nuls) cover("nul_literals");
		// Nothing but the C string: its copy ends where its memory ends
		std::unique_ptr<char[]> copy(new char[len+1]); memcpy(copy.get(), nfa, len+1);
		{
			// The disassembly walks from one instruction to the next and ends at the NUL
			std::map<int,std::string> at; std::vector<std::pair<int,int>> branches; const char* np = copy.get(); long accepts = 0; std::vector<std::string> got, exp; std::vector<size_t> looks;
			for (;;) {
				int here = np-copy.get();
				Captured c; bool more = RxCompiler::dumpInstruction(copy.get(), np); std::string s = c.end();
				if (atoi(s.c_str()) != here || s.find('\t') == std::string::npos) fail("an instruction is shown at another offset: "+esc(s));
				at[here] = s; s = s.substr(s.find('\t')+1);
				if (np-copy.get() > (long)len+1) fail(fmt("the instruction at %d extends beyond the NUL: %s", here, esc(s).c_str()));
				if (!more) { if (here != (int)len || s != "Null termination\n") fail(fmt("the instructions end at byte %d of %zu: %s", here, len, esc(s).c_str())); break; }
				if (!here != (s.compare(0, 9, "NFA Start") == 0)) fail("the start is not first");
				if (s.compare(0, 5, "ERROR") == 0) fail("an instruction that should not be emitted: "+esc(s));
				if (s.compare(0, 6, "Accept") == 0) accepts++;
				bool br = false; for (const char* k : { "Jump(", "Split(", "NegLookahead(", "Count(", "NFA Start(" }) if (s.compare(0, strlen(k), k) == 0) br = true;
				if (br) { size_t stop = s.find(", names:"), p = 0; if (stop == std::string::npos) stop = s.size(); int cnt = 0; while ((p = s.find("->", p+1)) < stop) { branches.push_back({here, atoi(s.c_str()+p+2)}); cnt++; } if (cnt != (here ? 1 : 2)) fail("a branch to nowhere: "+esc(s)); }
				cover("op "+s.substr(0, s.find('(')));
				std::string op = s.substr(0, s.find('(')), arg; size_t sp = s.find(") "); arg = sp == std::string::npos ? "" : s.substr(sp+2);
				if (op == "NegLookahead") { looks.push_back(got.size()); continue; }
				if (op.compare(0, 7, "Capture") == 0) {
					size_t q = s.rfind("'("); int gr = q == std::string::npos ? -1 : atoi(s.c_str()+q+2); std::string nm = s.substr(s.find('\'')+1); nm = nm.substr(0, nm.rfind("'("));
					if (gr < 0 || gr > (int)names.size() || nm != (gr ? names[gr-1] : "")) fail(fmt("group %d of %zu is shown as %s", gr, names.size(), esc(s).c_str()));
				}
				else if (op == "Char") got.push_back("Char "+arg.substr(0, arg.find('=')));
				else if (op == "Any" || op == "BOL" || op == "EOL") got.push_back(op);
				else if (op == "Count") { int a = 0, b = 0; sscanf(arg.c_str(), "min=%d max=%d", &a, &b); got.push_back(fmt("Count %d-%d", a, b)); }
				else if (op.find("Char") != std::string::npos) { size_t q = s.find(", '"); got.push_back(op+" "+(q == std::string::npos ? "" : s.substr(q+2, s.size()-q-3))); }
			}
			for (auto& b : branches) { if (!at.count(b.second)) fail(fmt("the branch at %d leads to %d, which is not an instruction", b.first, b.second)); if (b.second == (int)len) fail(fmt("the branch at %d leads to the end", b.first)); }
			if (accepts != 1+(long)looks.size()) fail(fmt("%ld instructions accept, with %zu lookaheads", accepts, looks.size()));
			leaves(n, exp); size_t nl = std::count(exp.begin(), exp.end(), std::string("NegLookahead")); exp.erase(std::remove(exp.begin(), exp.end(), std::string("NegLookahead")), exp.end());
			if (nl != looks.size()) fail(fmt("%zu lookaheads, expected %zu", looks.size(), nl));
			if (got.empty() || got.back() != "Any") fail("no search follows"); got.pop_back();	// the . of the search
			if (!many && got != exp) { size_t i = 0; while (i < got.size() && i < exp.size() && got[i] == exp[i]) i++; fail(fmt("instruction %zu is %s, expected %s", i, i < got.size() ? esc(got[i]).c_str() : "missing", i < exp.size() ? esc(exp[i]).c_str() : "none")); }
			cover("branches", branches.size());
			// ... as does the dump of all of it
			Captured c; comp.dump(nfa); std::string s = c.end(), want; for (size_t i = 0; i <= len; i++) want += fmt("%02X%s", nfa[i]&0xFF, (i+1)%5 ? " " : "   "); want += "\n"; for (auto& a : at) want += a.second;
			if (s != want) fail("the dump shows other instructions than the C string has: "+esc(s.substr(0, 300)));
			std::string start = at[0]; if (names.size()) { std::string list = fmt(", names: %zu@(", names.size()); size_t p = start.find(list); if (p == std::string::npos) fail("the names are not shown: "+esc(start)); p = start.find(')', p); std::string w; for (auto& x : names) w += " "+x; if (start.substr(p+1) != w+"\n") fail("the names shown are"+esc(start.substr(p+1))); }
		}
		RxProgram prog(nfa, true); RxProgram cprog(copy.get(), false);
		for (size_t i = 0; i < names.size(); i++) { StrVal a = cprog.group_name(i+1); std::string x(a.asUTF8(), a.numBytes()); if (x != names[i]) fail(fmt("group %zu is named '%s', expected %s", i+1, x.c_str(), names[i].c_str())); }
		for (int k = 0; k < 4; k++) {
			U t = make_text(n, g.alpha); if (rng().chance(30)) for (auto& ch : t) if (nuls && rng().chance(10)) ch = 0;
			if (literal && k == 0) { t.clear(); for (auto& c : n->kids) t += c->ch; }
			std::string e = u8::enc(t); StrVal v(e.data(), (StrValIndex)e.size());
			std::vector<int> a = results(prog, v), b = results(cprog, v);
			if (a != b) fail("the copy matched otherwise in "+esc(e));
			if (literal && k == 0) {
				if (!a[0] || a[1] != 0 || a[2] != (int)t.size()) fail(fmt("a literal did not match itself: %d (%d,%d)", a[0], a[1], a[2]));
				if (cprog.matchAfter(v.head(t.size()-1)).succeeded()) fail("a literal matched less than itself");
				cover("literal_itself");
			}
			if (a[0]) { cover("copy_matched"); seen(hash_str(re)^k); } else cover("copy_failed");
		}
		sample(st().casetext);
	}
}

#if defined(VH_HEAP)
// What a program and its results hold is released, whoever owns the NFA, and whatever happened
CHECK(X05_release)
{
	while (next_case(6000, 80000)) {
		Gen g; g.budget = rng().range(3,12); g.simple_count = true;
		N n = g.alt(3);
		std::string re; print(n, re); std::string cut = rng().chance(50) ? re : re.substr(0, rng().below(re.size()+1));
		std::vector<std::string> texts; for (int i = 0; i < 4; i++) texts.push_back(u8::enc(make_text(n, g.alpha)));
		note("re "+esc(cut));
		bool owned = rng().chance(50), ok = false; int kept = rng().below(4); long leak = 0;
		for (int pass = 0; pass < 2; pass++) {	// the first pass initialises whatever is initialised once
			long base = heapmon::live;
			{
				RxResult last;
				char* nfa = 0;
				{ RxCompiler c(StrVal(cut.c_str())); ok = c.compile(nfa); }
				if (ok) {
					RxProgram prog(nfa, owned);
					for (int i = 0; i < 4; i++) { RxResult r = i&1 ? prog.matchAt(StrVal(texts[i].c_str())) : prog.matchAfter(StrVal(texts[i].c_str())); if (i == kept) last = r; }
				}
				if (ok && !owned) delete[] nfa;
				for (int i = 0; i < 2*last.captureMax(); i++) (void)last.capture(i);	// a result outlives its program
			}
			leak = heapmon::live-base;
		}
		VH_REQUIRE(leak == 0, fmt("%ld bytes %s", leak, leak > 0 ? "leaked" : "too many released"));
		cover(ok ? owned ? "owned" : "not_owned" : "refused"); seen(hash_str(cut));
		sample(st().casetext);
	}
}
#endif

// Known finding: a counted repetition (minimum two or more) of something that can only be empty through an assertion
PROBE(count_assertion, "rx-count-assertion")
{
	char* nfa = compile_ok("(^b*){2,3}AA+");
	RxProgram prog(nfa, true);
	RxResult r = prog.matchAfter("bbbbAAAA");
	if (!r || r.offset() != 0 || r.length() != 8) present();
}
