// P01-P03: Pegexp; G01-G04: Peg grammars, AST captures, failure reports, and heap use
#include "vh.h"
#include "u8.h"
#ifdef VH_HEAP
#include "heapmon.h"
#endif
#include <memory>
#include <pegexp.h>
#include <peg.h>
#include <variant.h>
#include <peg_ast.h>
#include <char_ptr.h>
#include <utf8_ptr.h>
using namespace vh;
typedef std::u32string Text;

struct Exact {	// a NUL-terminated text with nothing after it
	char* p; size_t n;
	Exact(const std::string& s) : n(s.size()) { p = new char[n+1]; memcpy(p, s.data(), n); p[n] = 0; }
	~Exact() { delete[] p; }
	Exact(const Exact&) = delete;
};

// ---- Expressions: generated as trees, printed as Pegexps, matched by the reference on the tree
enum Kind { LIT, ANY, BOL, EOL, PROP, CLASS, REP, GROUP, AND, NOT, CALL };
struct Item { int kind; char32_t lo, hi; char prop; };	// 0: character, 1: range, 2: property
struct Nd;
typedef std::vector<Nd*> Seq;
struct Nd {
	Kind k; char32_t c = 0; char op = 0; std::string spell; bool neg = false; std::vector<Item> items; std::vector<Seq> alts; bool bars = false; Nd* sub = 0; std::string rule, label;
	int off = -1, len = 0; bool reported = false; int id = 0; bool colon = true;
};
struct Pool { std::vector<std::unique_ptr<Nd>> v; Nd* make(Kind k) { v.emplace_back(new Nd); v.back()->k = k; v.back()->id = v.size(); return v.back().get(); } };
static const char* OPS = "~@#%_;<`)^$.\\?*+(|&!";	// an atom starting with one of these is not reported as a failed terminal

struct CharInfo { char32_t c; bool alpha, digit, lower, upper, space; };
static const CharInfo extra_chars[] = { {0xE9,1,0,1,0,0}, {0xC9,1,0,0,1,0}, {0x2603,0,0,0,0,0}, {0x1E00,1,0,0,1,0}, {0x3000,0,0,0,0,1}, {0x663,0,1,0,0,0}, {0x20AC,0,0,0,0,0}, {0x1F600,0,0,0,0,0}, {0x3B1,1,0,1,0,0} };
static bool bytewise = false;	// the reference sees bytes, each of them a character, and none beyond ASCII has any property
static CharInfo info(char32_t c)
{
	if (c < 0x80) return { c, (c|32) >= 'a' && (c|32) <= 'z', c >= '0' && c <= '9', c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c == ' ' || c == 9 || c == 10 || c == 13 };	// as UCS4IsWhite(), which U04 decides; \f is white as a byte only
	for (auto& x : extra_chars) if (x.c == c) return x;
	if (bytewise) return { c, 0, 0, 0, 0, 0 };
	fail("harness: no such character");
}
static bool has_prop(char p, char32_t c)
{
	CharInfo i = info(c);
	switch (p) { case 'a': return i.alpha; case 'd': return i.digit; case 'h': return i.digit || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); case 's': return i.space; case 'L': return i.lower; case 'U': return i.upper; case 'w': return i.alpha || i.digit; }
	fail("harness: property");
}
// What the generator may use
struct Gen {
	Pool* pool; Text alphabet; bool unicode; bool labels = false, calls = false, ast = false; std::vector<std::string> rules; std::vector<std::string> names; int budget = 30; bool ctl = true; bool lookaheads = true, rich = false;
	char32_t ch() { return alphabet[rng().below(alphabet.size())]; }
};
static bool op_char(char32_t c) { return c < 0x80 && strchr("^$.\\[]?*+{()}|&!~@#%_;<`:", (int)c); }
static std::string spell_escape(char32_t c, bool next_free)	// some escape for any character; next_free: what follows cannot be taken for a digit
{
	switch (c) { case '\n': if (rng().chance(60)) return "\\n"; break; case '\t': if (rng().chance(60)) return "\\t"; break; case '\r': if (rng().chance(60)) return "\\r"; break; case '\b': return "\\b"; case 0x1B: return "\\e"; case '\f': return "\\f"; }
	int k = rng().below(6);
	if (c <= 0x1FF && k == 0) return fmt("\\%03o", (unsigned)c);
	if (c <= 0xFF && k <= 1) return rng().chance(50) ? fmt("\\x%02x", (unsigned)c) : fmt("\\x%02X", (unsigned)c);
	if (c <= 0xFF && k == 2) return fmt("\\x{%x}", (unsigned)c);
	if (c <= 0xFFFF && k <= 4) return fmt("\\u%04x", (unsigned)c);
	return fmt(rng().chance(50) ? "\\u{%x}" : "\\u{%08X}", (unsigned)c);
}
static std::string spell(char32_t c, bool in_class)
{
	if (c >= 0x80 || c < ' ' || c == 127) return spell_escape(c, false);
	if (rng().chance(8)) return spell_escape(c, false);
	bool need = in_class ? (c == ']' || c == '\\' || c == '-' || c == '^') : op_char(c);
	bool punct = ispunct((int)c);
	if (need || (punct && rng().chance(15))) return std::string("\\")+(char)c;
	return std::string(1, (char)c);
}
static Nd* gen_atom(Gen& g, int depth, bool prefixable);
static Seq gen_seq(Gen& g, int depth, int max)
{
	Seq s; int n = rng().range(1,max); for (int i = 0; i < n; i++) s.push_back(gen_atom(g, depth, true)); return s;
}
static void gen_alts(Gen& g, Nd* n, int depth, int max)
{
	n->bars = rng().chance(50);
	int k = n->bars ? rng().range(g.rich ? 2 : 1,3) : 1;
	for (int i = 0; i < k; i++) {
		n->alts.push_back(gen_seq(g, depth, n->bars ? (g.rich ? 4 : 2) : max));
		if (!i || !g.rich || rng().chance(30)) continue;
		Seq head; for (Nd* x : n->alts[0]) { if (x->k != LIT && x->k != ANY && x->k != CALL) break; Nd* y = g.pool->make(x->k); y->c = x->c; y->rule = x->rule; y->colon = true; y->label = !x->label.empty() ? rng().chance(70) ? x->label : rng().pick(g.names) : ""; head.push_back(y); if (rng().chance(30)) break; }
		n->alts[i].insert(n->alts[i].begin(), head.begin(), head.end());	// goes the same way for a while
	}
	if (!n->bars && rng().chance(5)) { n->alts[0].clear(); }
}
static Nd* gen_atom(Gen& g, int depth, bool prefixable)
{
	g.budget--;
	int r = rng().below(100); bool deep = depth > 0 && g.budget > 0; Nd* n;
	if (deep && prefixable && r < 22) { n = g.pool->make(REP); n->op = "?*+"[rng().below(3)]; n->sub = gen_atom(g, depth-1, true); return n; }
	if (deep && g.lookaheads && prefixable && r < 30) { n = g.pool->make(rng().chance(50) ? AND : NOT); n->sub = gen_atom(g, depth-1, true); return n; }
	if (g.calls && r < (deep ? 47 : 25)) { n = g.pool->make(CALL); n->rule = rng().pick(g.rules); if (rng().chance(3)) n->rule = "nosuch"; if (g.ast && rng().chance(40)) { n->label = rng().pick(g.names); n->colon = rng().chance(60); } return n; }
	if (deep && r < (g.calls ? 68 : 55)) { n = g.pool->make(GROUP); gen_alts(g, n, depth-1, 3); }
	else if (g.rich && rng().chance(60)) { n = g.pool->make(LIT); n->c = g.ch(); }
	else if ((r = deep ? rng().range(55,99) : r) < 60) n = g.pool->make(ANY);
	else if (r < 63) { n = g.pool->make(rng().chance(50) ? BOL : EOL); }
	else if (r < 69) { n = g.pool->make(PROP); n->c = "adhsLUw"[rng().below(7)]; }
	else if (r < 79) {
		n = g.pool->make(CLASS); n->neg = rng().chance(25); int k = rng().chance(5) ? 0 : rng().range(1,3);
		for (int i = 0; i < k; i++) { int t = rng().below(10); if (t < 5) n->items.push_back({0,g.ch(),0,0}); else if (t < 8) { char32_t a = g.ch(), b = g.ch(); if (a > b) std::swap(a, b); n->items.push_back({1,a,b,0}); } else n->items.push_back({2,0,0,"adhsLUw"[rng().below(7)]}); }
	}
	else { n = g.pool->make(LIT); n->c = g.ch(); }
	if (g.labels && rng().chance(g.rich ? 65 : 25)) { n->label = rng().pick(g.names); n->colon = rng().chance(60); }
	return n;
}
// Print. The next character of the pattern matters to a label without its closing colon.
static void print(Nd* n, std::string& o);
static void print_seq(const Seq& s, std::string& o) { for (Nd* n : s) print(n, o); }
static void print(Nd* n, std::string& o)
{
	// a label left open is closed by anything but a word character or a colon
	n->off = o.size();
	switch (n->k) {
	case LIT: { static const char* plain_ops = "~@#%_;`"; if (n->c < 0x80 && strchr(plain_ops, (int)n->c) && n->c && rng().chance(60)) o += (char)n->c; else o += spell(n->c, false); break; }
	case ANY: o += '.'; break; case BOL: o += '^'; break; case EOL: o += '$'; break;
	case PROP: o += '\\'; o += (char)n->c; break;
	case CLASS: { o += n->neg ? "[^" : "["; bool first = true; for (auto& i : n->items) { if (i.kind == 2) { o += '\\'; o += i.prop; } else { if (i.kind == 0 && i.lo == '-' && first && rng().chance(70)) o += '-'; else o += spell(i.lo, true); if (i.kind == 1) { o += '-'; o += spell(i.hi, true); } } first = false; } o += ']'; break; }
	case REP: o += n->op; print(n->sub, o); n->len = o.size()-n->off; return;
	case AND: o += '&'; print(n->sub, o); n->len = o.size()-n->off; return;
	case NOT: o += '!'; print(n->sub, o); n->len = o.size()-n->off; return;
	case GROUP: o += '('; for (auto& a : n->alts) { if (n->bars) o += '|'; print_seq(a, o); } o += ')'; break;
	case CALL: o += '<'+n->rule+'>'; break;
	}
	n->len = o.size()-n->off;
	n->reported = !strchr(OPS, o[n->off]);
	if (!n->label.empty()) { o += ':'+n->label; if (n->colon) o += ':'; else o += "\x01"; }	// \x01: placeholder, resolved by finish()
}
// An open label is left open only where that cannot run on into what follows
static std::string finish(const std::string& raw, std::vector<Nd*> nodes)
{
	std::string o; std::vector<int> map(raw.size()+1);
	for (size_t i = 0; i < raw.size(); i++) {
		map[i] = o.size();
		if (raw[i] == 1) { size_t k = i+1; char nx = k < raw.size() ? raw[k] : 0; if (isalnum((unsigned char)nx) || nx == '_' || nx == ':') o += ':'; }
		else o += raw[i];
	}
	map[raw.size()] = o.size();
	for (Nd* n : nodes) if (n->off >= 0) { int e = n->off+n->len; n->off = map[n->off]; n->len = map[e]-n->off; }
	return o;
}
struct Expr { Nd* top; std::string pattern; };	// top is a GROUP whose parentheses are not printed
static void collect(Nd* n, std::vector<Nd*>& v) { v.push_back(n); if (n->sub) collect(n->sub, v); for (auto& a : n->alts) for (Nd* x : a) collect(x, v); }
static Expr gen_expr(Gen& g, int depth)
{
	Expr e; e.top = g.pool->make(GROUP); gen_alts(g, e.top, depth, 4);
	std::string raw; for (auto& a : e.top->alts) { if (e.top->bars) raw += '|'; print_seq(a, raw); }
	std::vector<Nd*> v; collect(e.top, v); v.erase(v.begin());
	e.pattern = finish(raw, v); return e;
}

// ---- The reference
struct Val { int kind = 0; std::string text; std::map<std::string,Val> map; std::vector<Val> arr; };	// 0 none, 1 text, 2 map, 3 array
struct Cap { std::string name; int from, to; bool rep; };
struct RRule { std::string name; Expr e; std::set<std::string> captures; bool noted = false; };
struct RefFail { int rule; Nd* n; std::string path; };
struct Frame { Frame* parent; int rule, origin; int disabled, nesting; std::vector<Cap> caps; std::map<std::string,Val> ast; std::vector<std::map<std::string,Val>> was; int ncaps = 0; };
struct Overrun {};
struct Ref_ {
	const Text& t; std::vector<RRule>* rules = 0; bool ast = false; long steps = 0, limit = 100000; int depth = 0, maxdepth = 0; std::vector<int> byte_at;
	int partial = 0, furthest = 0; std::vector<RefFail> fails; bool leftrec = false, called = false; int lookahead_used = 0, iterations = 0, rolled = 0; bool empty_repeat = false;
	Ref_(const Text& x) : t(x) { int b = 0; for (char32_t c : t) { byte_at.push_back(b); b += bytewise ? 1 : u8::enc(c).size(); } byte_at.push_back(b); }
	int count(Frame& f) { return ast ? f.ncaps : (int)f.caps.size(); }
	void rollback(Frame& f, int n) { if (n >= count(f)) return; rolled++; if (ast) { f.ast = f.was[n]; f.was.resize(n); f.ncaps = n; if (n) partial++; } else f.caps.resize(n); }
	std::string str(int a, int b) { std::string o; for (int i = a; i < b; i++) u8::put(o, t[i]); return o; }
	void capture(Frame& f, const std::string& name, int from, int to, const Val* v)
	{
		if (!ast) { f.caps.push_back({name,from,to,f.nesting > 0}); return; }
		Val x; if (v) x = *v; else { x.kind = 1; x.text = str(from, to); }
		if (x.kind == 1 && x.text.empty()) return;
		f.was.push_back(f.ast);
		auto it = f.ast.find(name);
		if (it != f.ast.end()) { if (it->second.kind != 3) { Val a; a.kind = 3; a.arr.push_back(it->second); it->second = a; } it->second.arr.push_back(x); }
		else if (f.nesting > 0) { Val a; a.kind = 3; a.arr.push_back(x); f.ast[name] = a; }
		else f.ast[name] = x;
		f.ncaps++;
	}
	void report(Frame& f, Nd* n, int pos)
	{
		if (f.disabled || !n->reported || pos < furthest) return;
		if (pos > furthest) fails.clear();
		for (auto& x : fails) if (x.n == n) return;
		furthest = pos; std::string path; for (Frame* p = &f; p; p = p->parent) path = (*rules)[p->rule].name+"/"+path;
		fails.push_back({f.rule,n,path});
	}
	bool seq(const Seq& s, int& pos, Frame& f) { int c0 = count(f); for (Nd* n : s) if (!atom(n, pos, f)) { rollback(f, c0); return false; } return true; }
	bool alts(Nd* n, int& pos, Frame& f) { int p0 = pos; for (auto& a : n->alts) { pos = p0; if (seq(a, pos, f)) return true; } pos = p0; return false; }
	bool atom(Nd* n, int& pos, Frame& f)
	{
		if (++steps > limit) throw Overrun();
		struct Depth { Ref_& r; Depth(Ref_& x) : r(x) { if (++r.depth > r.maxdepth) r.maxdepth = r.depth; } ~Depth() { r.depth--; } } dd(*this);
		int p0 = pos, c0 = count(f), end = t.size(); bool ok = false;
		switch (n->k) {
		case LIT: ok = pos < end && t[pos] == n->c; if (ok) pos++; break;
		case ANY: ok = pos < end; if (ok) pos++; break;
		case BOL: ok = pos == 0 || t[pos-1] == '\n'; break;
		case EOL: ok = pos == end || t[pos] == '\n'; break;
		case PROP: ok = pos < end && has_prop((char)n->c, t[pos]); if (ok) pos++; break;
		case CLASS: { if (pos >= end) break; bool in = false; for (auto& i : n->items) in |= i.kind == 0 ? t[pos] == i.lo : i.kind == 1 ? t[pos] >= i.lo && t[pos] <= i.hi : has_prop(i.prop, t[pos]); ok = in != n->neg; if (ok) pos++; break; }
		case GROUP: ok = alts(n, pos, f); break;
		case AND: case NOT: { f.disabled++; lookahead_used++; int p = pos; ok = atom(n->sub, p, f) == (n->k == AND); f.disabled--; break; }
		case REP: {
			if (n->op != '?') f.nesting++;
			int did = 0; ok = true;
			for (;;) { int p = pos, c = count(f); if (!atom(n->sub, p, f)) { rollback(f, c); break; } did++; iterations++; bool moved = p != pos; pos = p; if (!moved && n->op == '+' && did == 1 && count(f) > c) empty_repeat = true; if (n->op == '?' || (!moved && !(n->op == '+' && did == 1))) break; }
			if (n->op == '+' && did == 0) ok = false;
			if (n->op != '?') f.nesting--;
			break; }
		case CALL: ok = call(n, pos, f); break;
		}
		if (!ok) { pos = p0; rollback(f, c0); if (n->k != REP && n->k != AND && n->k != NOT && n->k != GROUP && n->k != CALL) report(f, n, p0); return false; }
		if (!n->label.empty() && n->k != CALL && f.disabled == 0) capture(f, n->label, p0, pos, 0);
		return true;
	}
	int find_rule(const std::string& s) { for (size_t i = 0; i < rules->size(); i++) if ((*rules)[i].name == s) return i; return -1; }
	bool call(Nd* n, int& pos, Frame& f)
	{
		int r = find_rule(n->rule); if (r < 0) return false; called = true;
		for (Frame* p = &f; p && p->origin == pos; p = p->parent) if (p->rule == r) { leftrec = true; return false; }
		Frame s{&f, r, pos, f.disabled, 0}; int p0 = pos;
		if (!alts((*rules)[r].e.top, pos, s)) { pos = p0; return false; }
		std::string label = n->label.empty() ? n->rule : n->label;
		if (ast && f.disabled == 0 && (*rules)[f.rule].captures.count(label)) { Val v; if (s.ncaps) { v.kind = 2; v.map = s.ast; capture(f, label, p0, pos, &v); } else capture(f, label, p0, pos, 0); }
		return true;
	}
};
static std::string show(const Text& t) { return esc(u8::enc(t)); }
static Text gen_text(Gen& g, int max) { Text t; int n = rng().below(max+1); for (int i = 0; i < n; i++) t += i && rng().chance(30) ? t.back() : g.ch(); return t; }
// A text that follows the expression part of the way, so that matches go deep
static void walk(Gen& g, Nd* n, Text& t, std::vector<RRule>* rules, int depth)
{
	if (t.size() > 40 || depth > 8) return;
	if (rng().chance(4)) { t += g.ch(); return; }
	switch (n->k) {
	case LIT: t += n->c; break; case ANY: t += g.ch(); break; case BOL: break; case EOL: if (rng().chance(50)) t += '\n'; break;
	case PROP: for (int i = 0; i < 30; i++) { char32_t c = g.ch(); if (has_prop((char)n->c, c)) { t += c; return; } } t += g.ch(); break;
	case CLASS: if (n->items.size() && !n->neg && rng().chance(70)) { auto& i = n->items[rng().below(n->items.size())]; if (i.kind != 2) { t += i.lo; break; } } t += g.ch(); break;
	case REP: { int k = n->op == '?' ? rng().below(2) : rng().below(4); if (n->op == '+' && !k) k = 1; for (int i = 0; i < k; i++) walk(g, n->sub, t, rules, depth+1); break; }
	case AND: case NOT: break;
	case GROUP: if (n->alts.size()) for (Nd* x : n->alts[rng().below(n->alts.size())]) walk(g, x, t, rules, depth+1); break;
	case CALL: if (rules) for (auto& r : *rules) if (r.name == n->rule) walk(g, r.e.top, t, rules, depth+1); break;
	}
}
static Gen new_gen(Pool& p)
{
	Gen g; g.pool = &p; g.unicode = rng().chance(50);
	static const char* sets[] = { "ab", "abc", "aA1 ", "ab\n", "a-]^\\", "ab(|:", "x~@#%_;`<", "09afAFgG_", "\t\r\b\x1b\f\n a", "\x01}A\x1f" };
	const char* s = sets[rng().below(10)]; for (; *s; s++) g.alphabet += (unsigned char)*s;
	if (g.unicode) for (int i = rng().range(1,3); i > 0; i--) g.alphabet += extra_chars[rng().below(sizeof(extra_chars)/sizeof(*extra_chars))].c;
	g.names = { "x", "y", "x1", "name_2", "X", "_n", "_" };
	return g;
}

// ---- Contexts that record what they are told
template<class S> struct RecMatch : public PegexpDefaultMatch<PegexpState<S>> {
	using Source = S; using State = PegexpState<S>;
	RecMatch() {} RecMatch(State a, State b) : PegexpDefaultMatch<State>(a, b) {}
};
struct RecCap { std::string name; int from, to; bool rep; };
template<class S> struct RecContext {
	using Match = RecMatch<S>; using State = typename Match::State; using Source = S;
	int capture_disabled = 0, repetition_nesting = 0; std::vector<RecCap> caps; long failures = 0; bool in_lookahead_capture = false;
	int capture_count() const { return caps.size(); }
	int capture(PatternP name, int len, Match m, bool rep) { if (capture_disabled) in_lookahead_capture = true; caps.push_back({std::string(name, len), (int)m.from.source.current_byte(), (int)m.to.source.current_byte(), rep}); return caps.size(); }
	void rollback_capture(int n) { if (n < (int)caps.size()) caps.resize(n); }
	void record_failure(PatternP, PatternP, Source) { failures++; }
	Match match_failure(State at) { return Match(at, at); }
	Match match_result(State a, State b) { return Match(a, b); }
};
struct Outcome { bool ok = false; int from = 0, to = 0, after = 0; std::vector<RecCap> caps; std::string captured; };
template<class D, class C> static Outcome run_pegexp(const char* pattern, const char* text, bool search)
{
	typedef PegexpPointerSource<D,C> S; typedef RecContext<S> X;
	Pegexp<X> p(pattern); S src(text); X cx; Outcome o;
	typename X::Match m = search ? p.match(src, &cx) : p.match_here(src, &cx);
	o.ok = !m.is_failure(); o.after = src.current_byte();
	if (o.ok) {
		o.from = m.from.source.current_byte(); o.to = m.to.source.current_byte(); o.caps = cx.caps; StrVal v = m.from.source.string_to(m.to.source); StrValIndex n; const char* c = v.asUTF8(n); o.captured.assign(c, n);
		if (m.from.source.bytes_from(src) != (size_t)(o.from-o.after)) fail("bytes_from");
		long line = 1, col = 1; for (int i = 0; i < o.to; ) { const UTF8* q = text+i; if (sizeof(C) == 1) q++; else UTF8Get(q); if (text[i] == '\n') { line++; col = 1; } else col++; i = q-text; }
		if (m.to.source.current_line() != line || m.to.source.current_column() != col) fail(fmt("after the match the source reports line %ld column %ld, expected %ld and %ld", (long)m.to.source.current_line(), (long)m.to.source.current_column(), line, col));
		if (!m.to.source.at_eof() != (text[o.to] != 0)) fail("at_eof() after the match");
	} else if (cx.caps.size()) fail("a failed match left captures");
	if (cx.capture_disabled || cx.repetition_nesting) fail("capture_disabled or repetition_nesting not restored");
	if (cx.in_lookahead_capture) fail("captured inside a lookahead");
	return o;
}
struct RefOut { bool ok = false, empty_repeat = false; int from = 0, to = 0; std::vector<Cap> caps; long steps = 0; };
static RefOut run_ref(const Expr& e, const Text& t, bool search, long& look, long& iter)
{
	RefOut o; Ref_ r(t); std::vector<RRule> none; none.push_back({"",e,{}}); r.rules = &none;
	for (int at = 0; at <= (int)t.size(); at++) {
		Frame f{0, 0, at, 0, 0}; int pos = at;
		if (r.alts(e.top, pos, f)) { o.ok = true; o.from = at; o.to = pos; o.caps = f.caps; break; }
		if (!search) break;
	}
	look += r.lookahead_used; iter += r.iterations; o.steps = r.steps; o.empty_repeat = r.empty_repeat;
	return o;
}
static void judge(const char* who, const Outcome& g, const RefOut& w, const Text& t)
{
	Ref_ r(t); auto b = [&](int i) { return r.byte_at[i]; };
	if (g.ok != w.ok) fail(fmt("%s: %s, expected %s", who, g.ok ? "matched" : "failed", w.ok ? "a match" : "failure"));
	if (!g.ok) return;
	if (g.from != b(w.from) || g.to != b(w.to)) fail(fmt("%s: matched bytes %d-%d, expected %d-%d", who, g.from, g.to, b(w.from), b(w.to)));
	if (g.captured != (bytewise ? std::string(t.begin(), t.end()) : u8::enc(t)).substr(g.from, g.to-g.from)) fail(fmt("%s: string_to() gives '%s'", who, esc(g.captured).c_str()));
	if (w.empty_repeat) { cover("empty_repeats_not_judged"); return; }	// + may run an empty iteration once or twice
	if (g.caps.size() != w.caps.size()) fail(fmt("%s: %zu captures, expected %zu", who, g.caps.size(), w.caps.size()));
	for (size_t i = 0; i < g.caps.size(); i++) { auto& x = g.caps[i]; auto& y = w.caps[i]; if (x.name != y.name || x.from != b(y.from) || x.to != b(y.to) || x.rep != y.rep) fail(fmt("%s: capture %zu is %s %d-%d%s, expected %s %d-%d%s", who, i, x.name.c_str(), x.from, x.to, x.rep ? " repeated" : "", y.name.c_str(), b(y.from), b(y.to), y.rep ? " repeated" : "")); }
}
static void pegexp_case(bool all_pointers)
{
	Pool pool; Gen g = new_gen(pool); g.labels = rng().chance(50); Expr e = gen_expr(g, rng().range(1,5));
	bool texts = false;
	for (int k = 0; k < 4; k++) {
		Text t; if (rng().chance(60)) { if (rng().chance(30)) t = gen_text(g, 4); walk(g, e.top, t, 0, 0); if (rng().chance(40)) t += gen_text(g, 5); } else t = gen_text(g, rng().chance(10) ? 40 : 12);
		if (all_pointers && rng().chance(50)) { Text a; for (char32_t c : t) if (c < 0x80) a += c; t = a; }
		std::string bytes = u8::enc(t); Exact x(bytes), p(e.pattern); bool ascii = true; for (char32_t c : t) if (c >= 0x80) ascii = false;
		bool search = rng().chance(50); long look = 0, iter = 0; RefOut w;
		note(fmt("/%s/ %s '%s'", esc(e.pattern).c_str(), search ? "in" : "at", show(t).c_str()));
		try { w = run_ref(e, t, search, look, iter); } catch (Overrun&) { cover("too_costly"); continue; }
		Outcome o = run_pegexp<const UTF8*, UCS4>(p.p, x.p, search); judge("const UTF8*", o, w, t);
		bool ff = t.find((char32_t)'\f') != Text::npos;
		if (all_pointers) {
			judge("GuardedUTF8Ptr", run_pegexp<GuardedUTF8Ptr, UCS4>(p.p, x.p, search), w, t);
			judge("NulGuardedUTF8Ptr", run_pegexp<NulGuardedUTF8Ptr, UCS4>(p.p, x.p, search), w, t);
			judge("GuardedCharPtr", run_pegexp<GuardedCharPtr, UCS4>(p.p, x.p, search), w, t);
			if (ascii && !g.unicode && !ff) {
				judge("const char* by bytes", run_pegexp<const UTF8*, char>(p.p, x.p, search), w, t);
				judge("NulGuardedCharPtr by bytes", run_pegexp<NulGuardedCharPtr, char>(p.p, x.p, search), w, t);
				judge("GuardedCharPtr by bytes", run_pegexp<GuardedCharPtr, char>(p.p, x.p, search), w, t);
				cover("by_bytes");
			} else if (!ascii) cover("non_ascii");
		}
		texts = true; if (w.ok) cover(w.to > w.from ? "matched" : "matched_empty"); else cover("failed");
		if (look) cover("lookaheads"); if (iter) cover("iterations"); if (w.caps.size()) cover("captures", w.caps.size());
		seen(hash_str(e.pattern+"\0"+bytes), t.size() > 0 && e.pattern.size() > 1); sample(st().casetext);
	}
	(void)texts;
}
CHECK(P01) { while (next_case(VH_N(160000), 2500000)) pegexp_case(false); }

// ---- Grammars
struct Grammar { std::vector<RRule> rules; std::vector<int> order; std::vector<std::vector<const char*>> caplists; };
static std::string join_grammar(const Grammar& G) { std::string o; for (auto& r : G.rules) { o += r.name+"=/"+esc(r.e.pattern)+"/"; if (r.captures.size()) { o += "{"; for (auto& c : r.captures) o += c+","; o += "}"; } o += " "; } return o; }
static Grammar gen_grammar(Pool& pool, Gen& g, bool ast)
{
	Grammar G; static const std::vector<std::string> pool_names = { "a", "ab", "abc", "b", "TOPX", "TO", "rule", "rule1", "rules", "s", "Z", "z9", "expr", "a_b", "r_1", "_r", "a_rather_long_rule_name_1", "a_rather_long_rule_name_2", "a_rather_long_rule_name_", "two words", "x-y" };
	std::vector<std::string> names = pool_names; for (size_t i = names.size()-1; i > 0; i--) std::swap(names[i], names[rng().below(i+1)]);
	int n = rng().range(1, rng().chance(15) ? 13 : 5); names.resize(n); g.rules = names; if (rng().chance(20)) g.rules.push_back("TOP"); g.calls = true; g.ast = ast; g.labels = ast;
	names.insert(names.begin()+rng().below(names.size()+1), "TOP");
	g.rich = ast && rng().chance(40); if (g.rich) { g.names.resize(rng().range(1,3)); g.alphabet.resize(std::min<size_t>(g.alphabet.size(), 3)); }
	for (auto& r : names) {
		RRule R; R.name = r; bool top = r == "TOP";
		bool has = ast && (top || rng().chance(60)); g.labels = has; g.ast = has; g.budget = g.rich ? 30 : 14;
		R.e = gen_expr(g, rng().range(1,3));
		if (has) { std::vector<Nd*> v; collect(R.e.top, v); for (Nd* x : v) { if (!x->label.empty() && x->k != CALL) R.captures.insert(x->label); else if (x->k == CALL && rng().chance(g.rich ? 90 : 60)) R.captures.insert(x->label.empty() ? x->rule : x->label); } }
		G.rules.push_back(R);
	}
	return G;
}
typedef PegDefaultMatch<PegexpDefaultSource> NcMatch; typedef PegContextNoCapture<NcMatch> NcContext; typedef Peg<PegexpDefaultSource, NcMatch, NcContext> NcPeg;
typedef Peg<PegMemorySource, PegMatch, PegContext> AstPeg;
struct RefParse { bool ok = false; int to = 0; Val v; Ref_ r; RefParse(const Text& t) : r(t) {} };
static bool ref_parse(RefParse& p, Grammar& G, bool ast)
{
	p.r.rules = &G.rules; p.r.ast = ast; p.r.limit = 60000; int top = p.r.find_rule("TOP"); Frame f{0, top, 0, 0, 0}; int pos = 0;
	try { p.ok = p.r.alts(G.rules[top].e.top, pos, f); } catch (Overrun&) { return false; }
	if (p.ok) { p.to = pos; p.v.kind = 2; p.v.map = f.ast; }
	return true;
}
static Text grammar_text(Gen& g, Grammar& G)
{
	Text t; if (rng().chance(75)) { for (auto& r : G.rules) if (r.name == "TOP") walk(g, r.e.top, t, &G.rules, 0); if (rng().chance(30)) t += gen_text(g, 3); if (t.size() && rng().chance(25)) t[rng().below(t.size())] = g.ch(); if (t.size() && rng().chance(15)) t.resize(rng().below(t.size())); }
	else t = gen_text(g, 14);
	return t;
}
static std::string show_val(const Val& v)
{
	switch (v.kind) { case 1: return "'"+esc(v.text)+"'"; case 2: { std::string o = "{"; for (auto& x : v.map) o += x.first+":"+show_val(x.second)+","; return o+"}"; } case 3: { std::string o = "["; for (auto& x : v.arr) o += show_val(x)+","; return o+"]"; } }
	return "none";
}
static Val to_val(const Variant& v)
{
	Val o;
	switch (v.type()) {
	case Variant::String: { o.kind = 1; StrVal s = v.as_strval(); StrValIndex n; const char* p = s.asUTF8(n); o.text.assign(p, n); break; }
	case Variant::StrVarMap: { o.kind = 2; StrVariantMap m = v.as_variant_map(); m.each([&](const StrVal& k, const Variant& x) { StrValIndex n; const char* p = k.asUTF8(n); o.map[std::string(p, n)] = to_val(x); }); break; }
	case Variant::VarArray: { o.kind = 3; VariantArray a = v.as_variant_array(); for (unsigned i = 0; i < a.length(); i++) o.arr.push_back(to_val(a[i])); break; }
	default: o.kind = 9;
	}
	return o;
}
struct Built { std::vector<std::unique_ptr<Exact>> keep; std::vector<std::vector<const char*>> lists; std::map<std::string,const char*> pat; };
static void build_strings(Built& B, const Grammar& G)
{
	for (auto& r : G.rules) { B.keep.emplace_back(new Exact(r.e.pattern)); B.pat[r.name] = B.keep.back()->p; }
}
template<class Rule> static std::vector<Rule> nc_rules(Built& B, const Grammar& G)
{
	std::vector<Rule> v; std::vector<int> order; for (size_t i = 0; i < G.rules.size(); i++) order.push_back(i); for (size_t i = order.size()-1; i > 0; i--) std::swap(order[i], order[rng().below(i+1)]);
	for (int i : order) { B.keep.emplace_back(new Exact(G.rules[i].name)); v.push_back(Rule(B.keep.back()->p, B.pat[G.rules[i].name])); }
	return v;
}
static std::vector<AstPeg::Rule> ast_rules(Built& B, const Grammar& G)
{
	std::vector<AstPeg::Rule> v; std::vector<int> order; for (size_t i = 0; i < G.rules.size(); i++) order.push_back(i); for (size_t i = order.size()-1; i > 0; i--) std::swap(order[i], order[rng().below(i+1)]);
	B.lists.resize(G.rules.size());
	for (int i : order) {
		auto& r = G.rules[i]; B.keep.emplace_back(new Exact(r.name)); const char* nm = B.keep.back()->p;
		for (auto& c : r.captures) { B.keep.emplace_back(new Exact(c)); B.lists[i].push_back(B.keep.back()->p); } 
		for (size_t k = B.lists[i].size(); k > 1; k--) std::swap(B.lists[i][k-1], B.lists[i][rng().below(k)]);
		B.lists[i].push_back(0);
		v.push_back(AstPeg::Rule(nm, B.pat[r.name], B.lists[i].size() == 1 && rng().chance(50) ? (const char**)0 : B.lists[i].data()));
	}
	return v;
}
template<class D> static void other_peg(const char* who, Built& B, const Grammar& G, const char* text, const RefParse& w, int n)
{
	typedef PegexpPointerSource<D,UCS4> S; typedef PegDefaultMatch<S> M; typedef PegContextNoCapture<M> X; typedef Peg<S,M,X> OtherPeg;
	auto rules = nc_rules<typename OtherPeg::Rule>(B, G); OtherPeg peg(rules.data(), rules.size()); S src(text); auto m = peg.parse(src); bool ok = !m.is_failure();
	if (ok != w.ok) fail(fmt("%s: the parse %s, expected %s", who, ok ? "succeeded" : "failed", w.ok ? "success" : "failure"));
	int to = ok ? w.r.byte_at[w.to] : 0;
	if ((int)src.current_byte() != to) fail(fmt("%s: the parse consumed %ld bytes, expected %d", who, (long)src.current_byte(), to));
	if (src.at_eof() != (to == n)) fail(fmt("%s: at_eof() after the parse", who));
	if (ok && ((int)m.from.source.current_byte() != 0 || (int)m.to.source.current_byte() != to)) fail(fmt("%s: the extent of the match", who));
}
static void pointers_grammar()
{
	Pool pool; Gen g = new_gen(pool); Grammar G = gen_grammar(pool, g, false); std::string gs = join_grammar(G); note(gs);
	for (int k = 0; k < 3; k++) {
		Built B; build_strings(B, G); Text t = grammar_text(g, G); RefParse w(t); std::string bytes = u8::enc(t); Exact x(bytes); note(gs+" on '"+show(t)+"'");
		if (!ref_parse(w, G, false)) { cover("too_costly"); continue; }
		other_peg<const UTF8*>("const UTF8*", B, G, x.p, w, bytes.size()); other_peg<GuardedUTF8Ptr>("GuardedUTF8Ptr", B, G, x.p, w, bytes.size());
		other_peg<NulGuardedUTF8Ptr>("NulGuardedUTF8Ptr", B, G, x.p, w, bytes.size()); other_peg<GuardedCharPtr>("GuardedCharPtr", B, G, x.p, w, bytes.size());
		cover(w.ok ? "grammar_parsed" : "grammar_refused"); if (w.ok && w.to) cover("grammar_consumed"); seen(hash_str(gs+bytes), w.r.steps > 3); sample(st().casetext);
	}
}
// Text that is not well-formed UTF-8: whatever it is taken for, every kind of pointer takes it for the same
static std::string bad_utf8()
{
	std::string o; static const char* bits[] = { "a", "b", "\n", " ", "A", "1", "\xC3\xA9", "\xE2\x98\x83", "\xF0\x9F\x98\x80", "\x80", "\xBF", "\xC3", "\xE2\x98", "\xE2", "\xF0\x9F\x98", "\xC0\x80", "\xC1\xA1", "\xE0\x80\xAF", "\xED\xA0\x80", "\xF8\x88\x80\x80\x80", "\xFC\x84\x80\x80\x80\x80", "\xFE", "\xFF" };
	for (int n = rng().range(1,10); n > 0; n--) o += bits[rng().below(sizeof(bits)/sizeof(*bits))]; return o;
}
static void same_outcome(const char* who, const Outcome& a, const Outcome& b, const std::string& t)
{
	if (a.ok != b.ok) fail(fmt("%s: %s, but through a plain pointer it %s", who, b.ok ? "matched" : "failed", a.ok ? "matched" : "failed"));
	if (b.after < 0 || b.after > (int)t.size() || a.after != b.after) fail(fmt("%s: the source is left at byte %d, and at %d through a plain pointer", who, b.after, a.after));
	if (!a.ok) return;
	if (a.from != b.from || a.to != b.to) fail(fmt("%s: matched bytes %d-%d, and %d-%d through a plain pointer", who, b.from, b.to, a.from, a.to));
	if (b.from < 0 || b.to < b.from || b.to > (int)t.size()) fail(fmt("%s: matched bytes %d-%d of %zu", who, b.from, b.to, t.size()));
	if (b.captured != t.substr(b.from, b.to-b.from)) fail(fmt("%s: the extent is bytes %d-%d, but string_to() gives '%s'", who, b.from, b.to, esc(b.captured).c_str()));
	if (a.caps.size() != b.caps.size()) fail(fmt("%s: %zu captures, and %zu through a plain pointer", who, b.caps.size(), a.caps.size()));
	for (size_t i = 0; i < a.caps.size(); i++) { auto& x = a.caps[i]; auto& y = b.caps[i]; if (x.name != y.name || x.from != y.from || x.to != y.to || x.rep != y.rep) fail(fmt("%s: capture %zu is %s %d-%d, and %s %d-%d through a plain pointer", who, i, y.name.c_str(), y.from, y.to, x.name.c_str(), x.from, x.to)); }
}
static void odd_text_case()
{
	Pool pool; Gen g = new_gen(pool); g.labels = rng().chance(50); Expr e = gen_expr(g, rng().range(1,4));
	for (int k = 0; k < 3; k++) {
		std::string t = bad_utf8(); if (rng().chance(40)) { Text v; walk(g, e.top, v, 0, 0); t = rng().chance(50) ? u8::enc(v)+t : t+u8::enc(v); }
		Exact x(t), p(e.pattern); bool search = rng().chance(60); note(fmt("/%s/ %s '%s'", esc(e.pattern).c_str(), search ? "in" : "at", esc(t).c_str()));
		Outcome a = run_pegexp<const UTF8*, UCS4>(p.p, x.p, search);
		same_outcome("const UTF8*", a, a, t); same_outcome("GuardedUTF8Ptr", a, run_pegexp<GuardedUTF8Ptr, UCS4>(p.p, x.p, search), t); same_outcome("NulGuardedUTF8Ptr", a, run_pegexp<NulGuardedUTF8Ptr, UCS4>(p.p, x.p, search), t); same_outcome("GuardedCharPtr", a, run_pegexp<GuardedCharPtr, UCS4>(p.p, x.p, search), t);
		cover(a.ok ? "ill_formed_matched" : "ill_formed_failed"); seen(hash_str(e.pattern+"\0"+t), true); sample(st().casetext);
		if (!g.unicode && t.find('\f') == std::string::npos) {	// the same text by bytes
			bytewise = true; struct Off { ~Off() { bytewise = false; } } off; Text v; for (unsigned char c : t) v += c; long look = 0, iter = 0; RefOut w;
			try { w = run_ref(e, v, search, look, iter); } catch (Overrun&) { cover("too_costly"); continue; }
			judge("const char* by bytes", run_pegexp<const UTF8*, char>(p.p, x.p, search), w, v); judge("GuardedCharPtr by bytes", run_pegexp<GuardedCharPtr, char>(p.p, x.p, search), w, v); judge("NulGuardedUTF8Ptr by bytes", run_pegexp<NulGuardedUTF8Ptr, char>(p.p, x.p, search), w, v);
			cover("any_bytes_by_bytes");
		}
	}
}
CHECK(P03) { while (next_case(VH_N(80000), 1200000)) { int k = rng().below(100); if (k < 50) pegexp_case(true); else if (k < 75) odd_text_case(); else pointers_grammar(); } }
static void count_ref(RefParse& p, const Text& t)
{
	cover(p.ok ? "parsed" : "refused"); if (p.r.called) cover("calls"); if (p.r.leftrec) cover("left_recursion"); if (p.r.lookahead_used) cover("lookaheads"); if (p.ok && p.to == (int)t.size() && t.size()) cover("consumed_all");
}
CHECK(G01)
{
	while (next_case(VH_N(80000), 1200000)) {
		Pool pool; Gen g = new_gen(pool); Grammar G = gen_grammar(pool, g, false); std::string gs = join_grammar(G); note(gs);
		Built B; build_strings(B, G); alignas(NcPeg) char place[sizeof(NcPeg)];
		// and perhaps then a grammar in which the same patterns have each other's names, at the same address
		for (int twin = 0; twin < 2; twin++) {
		if (twin) { std::vector<size_t> at; for (size_t i = 0; i < G.rules.size(); i++) if (G.rules[i].name != "TOP") at.push_back(i); if (at.size() < 2 || rng().chance(50)) break; Expr e = G.rules[at[0]].e; for (size_t i = 0; i+1 < at.size(); i++) G.rules[at[i]].e = G.rules[at[i+1]].e; G.rules[at.back()].e = e; gs = join_grammar(G); note(gs); std::string first = G.rules[at.back()].name; const char* p = B.pat[G.rules[at[0]].name]; for (size_t i = 0; i+1 < at.size(); i++) B.pat[G.rules[at[i]].name] = B.pat[G.rules[at[i+1]].name]; B.pat[first] = p; cover("grammars_at_one_address"); }
		auto rules = nc_rules<NcPeg::Rule>(B, G); NcPeg& peg = *new(place) NcPeg(rules.data(), rules.size()); struct Done { NcPeg& p; ~Done() { p.~NcPeg(); } } done{peg};
		if (!twin || rng().chance(30)) for (auto& r : G.rules) { auto* q = peg.lookup((r.name+">rest").c_str()); if (!q || r.name != q->name) fail("lookup of rule "+r.name); if (peg.lookup(r.name.c_str()) != q) fail("lookup of a plain name"); if (peg.lookup((r.name+"q>").c_str()) && r.name+"q" != peg.lookup((r.name+"q>").c_str())->name) fail("lookup of a longer name found another rule"); }
		for (int k = 0; k < 4; k++) {
			Text t = grammar_text(g, G); RefParse w(t); Exact x(u8::enc(t)); note(gs+" on '"+show(t)+"'");
			if (!ref_parse(w, G, false)) { cover("too_costly"); continue; }
			PegexpDefaultSource src(x.p); auto m = peg.parse(src); bool ok = !m.is_failure();
			if (ok != w.ok) fail(fmt("the parse %s, expected %s", ok ? "succeeded" : "failed", w.ok ? "success" : "failure"));
			long at = src.current_byte(); if (at != (ok ? w.r.byte_at[w.to] : 0)) fail(fmt("the parse consumed %ld bytes, expected %d", at, w.ok ? w.r.byte_at[w.to] : 0));
			if (ok && (m.from.source.current_byte() != 0 || m.to.source.current_byte() != at)) fail("the extent of the match");
			count_ref(w, t); seen(hash_str(gs+show(t)), w.r.steps > 3); sample(st().casetext);
		}
		}
	}
}
// Parse with captures; used by G02 (values) and G03 (failures)
static void ast_case(bool want_failures)
{
	Pool pool; Gen g = new_gen(pool); Grammar G = gen_grammar(pool, g, true); std::string gs = join_grammar(G); note(gs);
	size_t before = 0; 
	Built B; build_strings(B, G); auto rules = ast_rules(B, G); AstPeg peg(rules.data(), rules.size());
	for (int k = 0; k < 4; k++) {
		Text t = grammar_text(g, G); RefParse w(t); Exact x(u8::enc(t)); note(gs+" on '"+show(t)+"'");
		if (!ref_parse(w, G, true)) { cover("too_costly"); continue; }
		if (w.r.partial) cover("rolled_back_partway");
		std::string got_s, want_s; bool ok; bool bad_fail = false; std::string why;
		before = heap_bytes();
		for (int again = 0; again < 2; again++) {
			PegMemorySource src(x.p); PegMatch m = peg.parse(src); ok = !m.is_failure();
			if (again == 0) continue;		// the second parse must not differ for the first
			if (ok != w.ok) fail(fmt("the parse %s, expected %s", ok ? "succeeded" : "failed", w.ok ? "success" : "failure"));
			if ((long)src.current_byte() != (ok ? w.r.byte_at[w.to] : 0)) fail(fmt("the parse consumed %ld bytes, expected %d", (long)src.current_byte(), w.ok ? w.r.byte_at[w.to] : 0));
			if (ok) { got_s = show_val(to_val(m.var)); want_s = show_val(w.v); if (got_s != want_s) fail("captured "+got_s+", expected "+want_s); }
			if (!ok && want_failures) {
				long fb = m.furthermost_success.current_byte(); if (fb != w.r.byte_at[w.r.furthest]) fail(fmt("the furthest failure is reported at byte %ld, expected %d", fb, w.r.byte_at[w.r.furthest]));
				std::vector<std::string> gf, wf;
				for (unsigned i = 0; i < m.failures.length(); i++) { PegFailure f = m.failures[i]; std::string path; for (unsigned j = 0; j < f.path.length(); j++) path += std::string(f.path[j])+"/"; gf.push_back(path+" "+std::string(f.atom, f.atom_len)); }
				for (auto& f : w.r.fails) { auto& r = G.rules[f.rule]; wf.push_back(f.path+" "+r.e.pattern.substr(f.n->off, f.n->len)); bool there = false; for (unsigned i = 0; i < m.failures.length(); i++) there |= m.failures[i].atom == B.pat[r.name]+f.n->off; if (!there) fail("the failed terminal "+wf.back()+" is not reported"); }
				std::sort(gf.begin(), gf.end()); std::sort(wf.begin(), wf.end());
				if (gf != wf) { std::string a, b; for (auto& s : gf) a += s+" ; "; for (auto& s : wf) b += s+" ; "; fail("reported failures: "+a+" expected: "+b); }
				if (!ok) cover(wf.empty() ? "failed_without_terminal" : wf.size() == 1 ? "one_failure" : "several_failures"); if (!ok && w.r.furthest > 0) cover("furthest_beyond_start");
			}
		}
		got_s.shrink_to_fit(); (void)bad_fail;
		count_ref(w, t); if (ok && w.v.map.size()) { cover("captured"); if (want_s.find("[") != std::string::npos) cover("captured_array"); if (want_s.find("{", 1) != std::string::npos) cover("captured_map"); if (w.r.rolled) cover("rolled_back"); }
		if (want_failures) seen(hash_str(gs+show(t)), !ok && w.r.furthest > 0); else seen(hash_str(gs+show(t)), ok && w.v.map.size() > 0);
		sample(st().casetext+" gives "+want_s.substr(0, 200));
	}
	(void)before;
}
CHECK(G02) { while (next_case(VH_N(40000), 700000)) ast_case(false); }
CHECK(G03) { while (next_case(VH_N(40000), 700000)) ast_case(true); }

// ---- P02: any pattern, any text
static std::string soup(int max, bool pattern)
{
	std::string o; int n = rng().below(max+1);
	static const char* bits[] = { "(", ")", "|", "*", "+", "?", "&", "!", "[", "]", "[^", "-", "\\", "\\x", "\\x{", "\\u", "\\u{", "}", "\\0", "\\7", ":", ":a", ":a:", "<", ">", "<a>", "^", "$", ".", "\\d", "\\a", "\\w", "\\s", "a", "b", "0", "f", "\x01", "\n", "~", "@", "`", "_", "{", "\xC3\xA9", "\xE9", "\xFF" };
	while ((int)o.size() < n) { int r = rng().below(100); if (pattern && r < 75) o += bits[rng().below(sizeof(bits)/sizeof(*bits))]; else if (r < 90) o += "ab0\n -"[rng().below(6)]; else o += (char)rng().range(1,255); }
	return o;
}
struct SoupPeg;
CHECK(P02)
{
	while (next_case(VH_N(250000), 5000000)) {
		std::string p = soup(rng().chance(10) ? 60 : 16, true); bool valid = rng().chance(30); Pool pool;
		if (valid) { Gen g = new_gen(pool); g.labels = rng().chance(50); g.calls = rng().chance(20); if (g.calls) g.rules = { "a", "b" }; p = gen_expr(g, 5).pattern; if (p.size() && rng().chance(60)) p.resize(rng().below(p.size()+1)); if (p.size() && rng().chance(40)) p.erase(rng().below(p.size()), 1); if (p.size() && rng().chance(30)) p[rng().below(p.size())] = (char)rng().range(1,255); }
		int depth = 0, worst = 0; for (char c : p) { if (strchr("(*+?&!|", c)) { if (++depth > worst) worst = depth; } }	// rough; keeps the nesting, and so the time, bounded
		std::string t = soup(worst > 6 ? 5 : worst > 3 ? 10 : 16, false); if (rng().chance(30)) t = soup(12, true);
		if (worst > 18) { cover("skipped_deep"); continue; }
		Exact P(p), T(t); note(fmt("/%s/ on '%s'", esc(p).c_str(), esc(t).c_str()));
		auto one = [&](auto tag, bool search) {
			typedef decltype(tag) S; typedef RecContext<S> X; Pegexp<X> e(P.p); S s(T.p); X cx; auto m = search ? e.match(s, &cx) : e.match_here(s, &cx);
			long at = s.current_byte(); if (at < 0 || at > (long)t.size()) fail("the source left the text"); if (!m.is_failure()) { long a = m.from.source.current_byte(), b = m.to.source.current_byte(); if (a < 0 || b < a || b > (long)t.size()) fail("the match is not within the text"); cover("matched"); } else cover("failed");
			for (auto& c : cx.caps) if (c.from < 0 || c.to < c.from || c.to > (long)t.size()) fail("a capture is not within the text");
			if (cx.caps.size()) cover("captured");
		};
		one(PegexpPointerSource<>(T.p), false); one(PegexpPointerSource<>(T.p), true); one(PegexpPointerSource<const UTF8*,char>(T.p), rng().chance(50));
		{ NcPeg::Rule r[3] = { NcPeg::Rule("TOP", "<a>"), NcPeg::Rule("a", P.p), NcPeg::Rule("b", "b") }; if (p.find('<') == std::string::npos || worst <= 4) { NcPeg peg(r, 3); PegexpDefaultSource s(T.p); auto m = peg.parse(s); (void)m; if (s.current_byte() < 0 || s.current_byte() > (long)t.size()) fail("the source of a Peg left the text"); cover("as_a_rule"); } }
		if (rng().chance(20)) { AstPeg::Rule r[2] = { AstPeg::Rule("TOP", "<a>", 0), AstPeg::Rule("a", P.p, 0) }; if (p.find('<') == std::string::npos) { FILE* so = stdout; (void)so; AstPeg peg(r, 2); PegMemorySource s(T.p); PegMatch m = peg.parse(s); for (unsigned i = 0; i < m.failures.length(); i++) { PegFailure f = m.failures[i]; long off = f.atom-P.p; if (off >= 0 && off <= (long)p.size() && (f.atom_len < 0 || off+f.atom_len > (long)p.size())) fail("a reported failure is not within its pattern"); } cover("as_a_captured_rule"); } }
		seen(hash_str(p+"\0"+t), p.size() > 1); sample(st().casetext);
	}
}

#ifdef VH_HEAP
// ---- G04: no heap
CHECK(G04)
{
	while (next_case(120000, 2000000)) {
		Pool pool; Gen g = new_gen(pool); bool peg = rng().chance(50);
		if (peg) {
			Grammar G = gen_grammar(pool, g, false); std::string gs = join_grammar(G); Built B; build_strings(B, G); auto rules = nc_rules<NcPeg::Rule>(B, G);
			for (int k = 0; k < 3; k++) {
				Text t = grammar_text(g, G); RefParse w(t); Exact x(u8::enc(t)); note(gs+" on '"+show(t)+"'");
				if (!ref_parse(w, G, false)) { cover("too_costly"); continue; }
				long before = heapmon::calls, used; bool ok;
				{ NcPeg p(rules.data(), rules.size()); PegexpDefaultSource src(x.p); auto m = p.parse(src); ok = !m.is_failure(); used = heapmon::calls-before; }
				if (used) fail(fmt("the parse allocated %ld times", used)); if (ok != w.ok) fail("outcome");
				count_ref(w, t); cover("heap_measured"); cover("deepest_"+std::to_string(w.r.maxdepth/10*10)); seen(hash_str(gs+show(t)), w.r.steps > 3); sample(st().casetext);
			}
		} else {
			Expr e = gen_expr(g, rng().range(1,5)); Text t = gen_text(g, 20); if (rng().chance(60)) { t.clear(); walk(g, e.top, t, 0, 0); } Exact x(u8::enc(t)), p(e.pattern); note(fmt("/%s/ on '%s'", esc(e.pattern).c_str(), show(t).c_str()));
			long l = 0, i = 0; try { run_ref(e, t, true, l, i); } catch (Overrun&) { cover("too_costly"); continue; }
			long before = heapmon::calls, used; bool ok;
			{ Pegexp<> q(p.p); PegexpDefaultSource src(x.p); PegexpDefaultContext<> cx; auto m = rng().chance(50) ? q.match(src, &cx) : q.match_here(src, &cx); ok = !m.is_failure(); used = heapmon::calls-before; }
			if (used) fail(fmt("the match allocated %ld times", used));
			cover(ok ? "matched" : "failed"); cover("heap_measured"); seen(hash_str(e.pattern+show(t)), e.pattern.size() > 1); sample(st().casetext);
		}
	}
}
#endif
