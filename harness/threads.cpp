// R01, R02: reference counting and values sharing bodies; T01-T03: Latch, Condition and Thread
#include "vh.h"
#include "u8.h"
#ifdef VH_HEAP
#include "heapmon.h"
#endif
#include <atomic>
#include <memory>
#include <mutex>
#include <thread>
#include <time.h>
#include <signal.h>
#include <refcount.h>
#include <lockfree.h>
#include <thread.h>
#include <condition.h>
#include <strval.h>
#include <array.h>
#include <cowmap.h>
#include <variant.h>
using namespace vh;

static void pause_some(Rng& r)	// inject delays around the operations under test
{
	switch (r.below(12)) {
	case 0: sched_yield(); break;
	case 1: { volatile int n = (int)r.below(2000); while (n > 0) n = n-1; break; }
	case 2: if (r.chance(5)) usleep(r.below(300)); break;
	default: break;
	}
}
// Threads of the harness itself are plain std::threads, released together
struct Gang {
	std::atomic<int> ready{0}; std::atomic<bool> go{false};
	std::vector<std::thread> t;
	void add(std::function<void()> f) { t.emplace_back([this,f]{ ready++; while (!go) sched_yield(); f(); }); }
	void run() { while (ready < (int)t.size()) sched_yield(); go = true; for (auto& x : t) x.join(); }
};

// ---- R01: destroyed exactly once, after the last reference
static std::atomic<long> obj_live, obj_made, obj_died;
struct Obj : public RefCounted {
	uint32_t magic; int id; Ref<Obj> next; std::vector<std::string>* log;
	static const uint32_t ALIVE = 0xA11FE0B1, DEAD = 0xDEADDEAD;
	Obj(int i, std::vector<std::string>* l = 0) : magic(ALIVE), id(i), log(l) { obj_live++; obj_made++; }
	Obj(const Obj& o) : RefCounted(), magic(ALIVE), id(o.id), next(o.next), log(o.log) { o.check(); obj_live++; obj_made++; }
	virtual ~Obj() { if (magic != ALIVE) fail(fmt("object %d destroyed twice, or never made", id)); magic = DEAD; obj_live--; obj_died++; if (log) log->push_back(fmt("%d", id)); }
	void check() const { if (magic != ALIVE) fail(fmt("an object is used after it was destroyed")); }
};
struct Obj2 : public Obj { long extra; Obj2(int i, std::vector<std::string>* l = 0) : Obj(i, l), extra(i*3L) {} Obj2(const Obj2& o) : Obj(o), extra(o.extra) {} };

// The model is the graph of references, counted by the harness
struct RNode { int id; int count; int next; bool derived; };
struct RefModel {
	std::vector<RNode> n; std::vector<std::string> died;
	int make(int id, bool derived) { n.push_back({id,0,-1,derived}); return n.size()-1; }
	void add(int k) { if (k >= 0) n[k].count++; }
	void drop(int k) { if (k >= 0 && --n[k].count == 0) { died.push_back(fmt("%d", n[k].id)); int x = n[k].next; drop(x); } }
	void assign(int& var, int k) { add(k); int o = var; var = k; drop(o); }
};
static void r01_history()
{
	std::vector<std::string> log; RefModel M; std::map<int,Obj*> ptr;
	std::vector<std::unique_ptr<Ref<Obj>>> v; std::vector<int> mv; int ids = 0;
	size_t before;
	int nv = rng().range(2,6), steps = rng().range(5,60);
	for (int i = 0; i < nv; i++) { v.emplace_back(new Ref<Obj>()); mv.push_back(-1); }
	auto verify = [&]{
		if (log != M.died) fail(fmt("objects destroyed so far: %zu, expected %zu (or another order)", log.size(), M.died.size()));
		for (int i = 0; i < nv; i++) {
			Obj* p = *v[i]; Obj* w = mv[i] < 0 ? 0 : ptr[mv[i]]; if (p != w) fail(fmt("reference %d refers to another object", i));
			if ((bool)*v[i] != (w != 0)) fail("operator bool");
			if (v[i]->GetRefCount() != (w ? M.n[mv[i]].count : 0)) fail(fmt("reference %d: GetRefCount() is %d, expected %d", i, v[i]->GetRefCount(), w ? M.n[mv[i]].count : 0));
			if (w) { w->check(); if ((*v[i])->id != M.n[mv[i]].id || (**v[i]).id != M.n[mv[i]].id) fail("-> and * refer to another object"); }
		}
	};
	(void)before;
	auto reach = [&](int from, int to) { for (int k = from; k >= 0; k = M.n[k].next) if (k == to) return true; return false; };
	std::string h;
	for (int k = 0; k < steps; k++) {
		int i = rng().below(nv), j = rng().below(nv); int op = rng().below(14); std::string what;
		switch (op) {
		case 0: case 1: { bool d = rng().chance(30); int m = M.make(++ids, d); what = fmt("r%d=new%s %d", i, d ? " derived" : "", ids); note_more("; "+what); Obj* o = d ? new Obj2(ids, &log) : new Obj(ids, &log); ptr[m] = o; *v[i] = o; M.assign(mv[i], m); break; }
		case 2: case 3: what = fmt("r%d=r%d", i, j); note_more("; "+what); *v[i] = *v[j]; M.assign(mv[i], mv[j]); break;
		case 4: what = fmt("r%d=(T*)r%d", i, j); note_more("; "+what); *v[i] = (Obj*)*v[j]; M.assign(mv[i], mv[j]); break;
		case 5: what = fmt("r%d=null", i); note_more("; "+what); if (rng().chance(50)) *v[i] = (Obj*)0; else *v[i] = Ref<Obj>(); M.assign(mv[i], -1); break;
		case 6: what = fmt("replace r%d by a copy of r%d", i, j); note_more("; "+what); { Ref<Obj>* c = new Ref<Obj>(*v[j]); M.add(mv[j]); v[i].reset(c); int o = mv[i]; mv[i] = mv[j]; M.drop(o); } break;
		case 7: what = fmt("r%d to a Ref from the pointer of r%d", i, j); note_more("; "+what); { Ref<Obj>* c = new Ref<Obj>((Obj*)*v[j]); M.add(mv[j]); v[i].reset(c); int o = mv[i]; mv[i] = mv[j]; M.drop(o); } break;
		case 8: case 9: if (mv[i] < 0 || (mv[j] >= 0 && reach(mv[j], mv[i]))) break; what = fmt("r%d->next=r%d", i, j); note_more("; "+what); (*v[i])->next = *v[j]; M.assign(M.n[mv[i]].next, mv[j]); break;
		case 10: case 11: { if (mv[i] < 0) break; what = fmt("r%d=r%d->next", i, i); note_more("; "+what); int nx = M.n[mv[i]].next; *v[i] = (*v[i])->next; M.assign(mv[i], nx); break; }
		case 12: { if (mv[i] < 0 || M.n[mv[i]].derived) break; what = fmt("unshare r%d", i); note_more("; "+what); if (M.n[mv[i]].count > 1) { int m = M.make(M.n[mv[i]].id, false); M.n[m].next = M.n[mv[i]].next; M.add(M.n[m].next); v[i]->Unshare(); ptr[m] = (Obj*)*v[i]; if (ptr[m] == ptr[mv[i]]) fail("Unshare() of a shared object kept it"); M.assign(mv[i], m); } else { v[i]->Unshare(); } break; }
		case 13: { if (mv[i] < 0 || !M.n[mv[i]].derived) break; what = fmt("cast r%d", i); note_more("; "+what); Ref<Obj2> d(static_cast<Obj2*>((Obj*)*v[i])); { Ref<Obj> b = d.Cast<Obj>(); if ((Obj*)b != ptr[mv[i]] || d->extra != d->id*3L) fail("Cast"); if (v[i]->GetRefCount() != M.n[mv[i]].count+2) fail("the count while a Cast is held"); } if (d.GetRefCount() != M.n[mv[i]].count+1) fail("the count after a Cast"); break; }
		}
		h += what+";"; cover("op_"+std::to_string(op));
		verify();
	}
	cover("destroyed_early", log.size());
	for (int i = 0; i < nv; i++) { v[i].reset(); int o = mv[i]; mv[i] = -1; M.drop(o); if (log != M.died) fail("an object was not destroyed when its last reference went"); }
	for (auto& r : M.n) if (r.count) fail("model");	// (no cycles are made)
	if (log.size() != M.n.size()) fail(fmt("%zu objects were made, %zu destroyed", M.n.size(), log.size()));
	seen(hash_str(h), steps > 5); sample(st().casetext); cover("histories");
}
static void r01_threads()
{
	long made = obj_made, died = obj_died;
	int T = rng().range(2,6), n = rng().range(1,4), N = st().thorough ? 600 : 250;
	note(fmt("%d threads share %d objects and hand references to each other", T, n));
	{
		std::vector<Ref<Obj>> base; for (int i = 0; i < n; i++) base.push_back(Ref<Obj>(new Obj(i)));
		std::mutex box_lock; std::vector<Ref<Obj>> box;
		Gang g; uint64_t seed = rng().next();
		std::vector<std::vector<Ref<Obj>>> own(T, base);
		if (rng().chance(50)) base.clear();		// the threads then hold the only references
		for (int t = 0; t < T; t++) g.add([&,t]{
			Rng r(seed+t); std::vector<Ref<Obj>> mine; mine.swap(own[t]);
			for (int k = 0; k < N; k++) {
				pause_some(r);
				size_t i = mine.size() ? r.below(mine.size()) : 0;
				switch (r.below(9)) {
				case 0: mine.push_back(Ref<Obj>(new Obj(1000+t))); break;
				case 1: if (mine.size()) mine.push_back(mine[i]); break;
				case 2: if (mine.size() > 1) mine.erase(mine.begin()+i); break;
				case 3: if (mine.size()) { size_t j = r.below(mine.size()); mine[i] = mine[j]; } break;
				case 4: if (mine.size()) { Ref<Obj> c(mine[i]); std::lock_guard<std::mutex> l(box_lock); box.push_back(c); } break;
				case 5: { Ref<Obj> c; { std::lock_guard<std::mutex> l(box_lock); if (box.size()) { c = box.back(); box.pop_back(); } } if (c) mine.push_back(c); break; }
				case 6: if (mine.size()) { mine[i]->check(); if (mine[i].GetRefCount() < 1) fail("an object with a reference has no count"); } break;
				case 7: if (mine.size()) { Ref<Obj> c = mine[i]; c = (Obj*)mine[i]; c.Unshare(); c->check(); if (c.GetRefCount() < 1) fail("count after Unshare"); } break;
				case 8: if (mine.size() > 20) mine.resize(5); break;
				}
			}
		});
		g.run(); cover("concurrent_ops", (long)T*N);
	}
	if (obj_made-made != obj_died-died) fail(fmt("%ld objects were made, %ld destroyed", obj_made-made, obj_died-died));
	seen(mix(st().index)^mix(st().seed)); sample(st().casetext); cover("objects", obj_made-made);
}
// The last references to one object are dropped by several threads at the same moment
static void r01_last()
{
	int T = rng().range(2,4), R = 60; note(fmt("%d threads drop the last references to each of %d objects at once", T, R));
	long made = obj_made, died = obj_died;
	std::vector<std::vector<Ref<Obj>>> own(T); std::vector<std::atomic<int>> at(R); for (auto& a : at) a = 0;
	for (int i = 0; i < R; i++) { Ref<Obj> o(new Obj(i)); o->next = Ref<Obj>(new Obj(1000+i)); for (auto& w : own) w.push_back(o); }
	Gang g;
	for (int t = 0; t < T; t++) g.add([&,t]{ for (int i = 0; i < R; i++) { at[i]++; for (int s = 0; at[i] < T && s < 100000; s++) if (s%1000 == 999) sched_yield(); own[t][i]->check(); if (i&1) own[t][i] = Ref<Obj>(); else own[t][i] = (Obj*)0; } });
	g.run();
	if (obj_made-made != obj_died-died) fail(fmt("%ld objects were made, %ld destroyed", obj_made-made, obj_died-died));
	seen(mix(st().index)^mix(st().seed)); cover("last_references_raced", R);
}
CHECK(R01) { while (next_case(VH_N(80000), 600000)) { note("references:"); r01_history(); } }
static void check_R01t() { while (next_case(4000, 40000)) { if (rng().chance(60)) r01_threads(); else r01_last(); } }
static Reg reg_R01t("R01:threads", check_R01t);

// ---- R02: threads that own copies of values sharing bodies
struct Bag { std::vector<StrVal> s; std::vector<Array<int>> a; std::vector<StringArray> sa; std::vector<CowMap<StrVal>> m; std::vector<Variant> v; };
static std::string text_of(const StrVal& v) { StrValIndex n; const char* p = v.asUTF8(n); return std::string(p, n); }
static const char* const words[] = { "", "a", "hello", "Grüße", "日本語テキスト", "mixed é 世 \xF0\x9F\x98\x80 end", "12345", "-77", "0x1F", "ÀÉÎÕÜ àéîõü", "x\ty\"z\\", "aaaaabaaaaab", "long enough to be allocated apart from anything else, ça va" };
static StrVal word(Rng& r) { return StrVal(words[r.below(sizeof(words)/sizeof(*words))]); }
static Bag make_bag(uint64_t seed)
{
	Rng r(seed); Bag b;
	for (int i = 0; i < 4; i++) { StrVal s = word(r)+word(r); if (r.chance(50) && s.length() > 2) s = s.substr(1, s.length()-2); b.s.push_back(s); if (r.chance(50)) b.s.push_back(s.tail(s.length()/2)); }
	for (int i = 0; i < 3; i++) { Array<int> a; int n = r.below(9); for (int k = 0; k < n; k++) a.push((int)r.below(50)); b.a.push_back(a); b.a.push_back(a.slice(0, n/2)); }
	for (int i = 0; i < 2; i++) { StringArray a; int n = r.below(5); for (int k = 0; k < n; k++) a.push(b.s[r.below(b.s.size())]); b.sa.push_back(a); }
	for (int i = 0; i < 2; i++) { CowMap<StrVal> m; int n = r.below(5); for (int k = 0; k < n; k++) m.put(word(r), b.s[r.below(b.s.size())]); b.m.push_back(m); }
	for (int i = 0; i < 4; i++) {
		Variant v; switch (r.below(5)) { case 0: v = Variant((int)r.below(1000)); break; case 1: v = Variant(b.s[r.below(b.s.size())]); break; case 2: v = Variant(b.sa[r.below(2)]); break;
		case 3: { VariantArray a; a.push(Variant(1)); a.push(Variant(b.s[0])); a.push(Variant(b.sa[0])); v = Variant(a); break; } case 4: { StrVariantMap m; m.put(StrVal("k"), Variant(b.s[1])); m.put(StrVal("é"), Variant(7)); v = Variant(m); break; } }
		b.v.push_back(v);
	}
	// Values are often shared straight after a change, before anything has measured them
	for (auto& s : b.s) switch (r.below(12)) {
		case 0: case 1: s.toUpper(); break;
		case 2: case 3: s.toLower(); break;
		case 4: s += StrVal("é世"); break;
		case 5: s.insert(0, word(r)); break;
		case 6: s.transform([](const char*& cp, const char*) -> StrVal { UCS4 c = UTF8Get(cp); return c == 'a' ? StrVal("éé") : StrVal(c); }); break;
		case 7: s = StrVal("é")+s; break;
		case 8: s = s.asJSON(); break;
		case 9: s = word(r); break;
	}
	for (auto& a : b.sa) if (r.chance(50)) { a.push(StrVal("x")); StrVal j(a.join(StrVal("é"))); j.toUpper(); a.push(j); }
	for (auto& a : b.a) switch (r.below(5)) { case 0: a.reverse(); break; case 1: a.push(3); break; case 2: a.insert(0, a); break; }
	return b;
}
static std::string bag_text(const Bag& b)
{
	std::string o;
	for (auto& s : b.s) o += "S"+std::to_string(s.length())+":"+text_of(s)+"\n";
	for (auto& a : b.a) { o += "A"; for (unsigned i = 0; i < a.length(); i++) o += std::to_string(a[i])+","; o += "\n"; }
	for (auto& a : b.sa) { o += "T"; for (unsigned i = 0; i < a.length(); i++) o += text_of(a[i])+","; o += "\n"; }
	for (auto& m : b.m) { o += "M"; m.each([&](const StrVal& k, const StrVal& v){ o += text_of(k)+"="+text_of(v)+","; }); o += "\n"; }
	for (auto& v : b.v) o += "V"+text_of(v.as_json())+"\n";
	return o;
}
static std::atomic<long> cover_coercions{0};
// One deterministic operation; its observable result is added to the transcript
static void bag_op(Bag& b, Rng& r, std::string& out)
{
	size_t i = r.below(b.s.size()), j = r.below(b.s.size()), k = r.below(b.a.size()), k2 = r.below(b.a.size()), m = r.below(b.m.size()), q = r.below(b.sa.size()), w = r.below(b.v.size());
	StrVal& s = b.s[i]; int n = s.length();
	switch (r.below(46)) {
	case 0: if (n < 200) s += b.s[j]; break;
	case 1: if (n < 200) s += (UCS4)r.range(0x20,0x3000); break;
	case 2: if (n < 200) s.insert(r.below(n+1), b.s[j]); break;
	case 3: s = s.substr(r.below(n+1), r.below(n+2)); break;
	case 4: s.toUpper(); break;
	case 5: s.toLower(); break;
	case 6: out += std::to_string(s.find(b.s[j]))+","+std::to_string(s.rfind((UCS4)'a')); break;
	case 7: out += std::to_string(s.compare(b.s[j]))+","+(s == b.s[j] ? "eq" : "ne"); break;
	case 8: if (n) { int x = r.below(n); out += std::to_string((unsigned)s[x]); out += ","+std::to_string((unsigned)s[n-1-x]); } break;
	case 9: s = b.s[j]; break;
	case 10: out += text_of(s.asJSON()); break;
	case 11: { ErrNum e; StrValIndex used; int x = s.asInt32(&e, 10, &used); out += std::to_string(x)+"/"+std::to_string((int)e)+"/"+std::to_string(used); break; }
	case 12: s = word(r); break;
	case 13: out += s.asUTF8(); break;
	case 14: s.transform([](const char*& cp, const char*) -> StrVal { UCS4 c = UTF8Get(cp); return c == 'a' ? StrVal("éé") : StrVal(c); }); if (s.length() > 300) s = s.head(20); break;
	case 15: if (b.a[k].length() < 200) b.a[k] += b.a[k2]; break;
	case 16: b.a[k].push((int)r.below(100)); break;
	case 17: if (b.a[k].length()) b.a[k].set(r.below(b.a[k].length()), -(int)r.below(100)); break;
	case 18: b.a[k] = b.a[k2].slice(r.below(b.a[k2].length()+1)); break;
	case 19: b.a[k].reverse(); out += std::to_string(b.a[k].find(7)); break;
	case 20: if (b.a[k].length()) out += std::to_string(b.a[k].shift()); break;
	case 21: if (b.a[k].length() < 200) b.a[k].insert(r.below(b.a[k].length()+1), b.a[k2]); break;
	case 22: b.m[m].put(s, b.s[j]); break;
	case 23: if (b.m[m].contains(s)) { b.m[m].remove(s); out += "removed"; } break;
	case 24: out += std::to_string(b.m[m].size()); b.m[m] = b.m[r.below(b.m.size())]; break;
	case 25: if (b.sa[q].length() < 60) b.sa[q].push(s); out += text_of(b.sa[q].join(StrVal("/"))).substr(0, 400); break;
	case 26: if (b.sa[q].length()) { int x = r.below(b.sa[q].length()); out += text_of(b.sa[q].delete_at(x)); } break;
	case 27: b.v[w] = b.v[r.below(b.v.size())]; break;
	case 28: if (b.v[w].type() == Variant::VarArray) { VariantArray a = b.v[w].as_variant_array(); if (a.length() < 20) a.push(Variant(s)); b.v[w] = Variant(a); }
		else if (b.v[w].type() == Variant::StrVarMap) { StrVariantMap x = b.v[w].as_variant_map(); if (x.size() < 20) x.put(s, Variant(n)); b.v[w] = Variant(x); }
		else b.v[w] = Variant(s); break;
	case 29: out += text_of(b.v[w].as_json()).substr(0, 400); out += b.v[w].type_name(); break;
	case 30: { int x = (int)r.next(); Variant v(x); out += text_of(v.as_strval()); out += std::to_string(v.as_longlong()); cover_coercions++; break; }
	case 31: { long long x = (long long)r.next(); Variant v(x); out += text_of(v.as_strval()); Variant c(v); out += text_of(c.as_json()); cover_coercions++; break; }
	case 32: if (b.v[w].type() == Variant::Integer) { Variant c(b.v[w]); out += std::to_string(c.as_long()); c.as_longlong(); b.v[w] = Variant(c.as_strval()); } else if (b.v[w].type() == Variant::String) { Variant c(b.v[w]); out += text_of(c.as_strval()); } break;
	case 33: { VariantArray a; a.push(Variant(s)); a.push(Variant(n)); a.push(Variant((int)r.below(1000))); out += text_of(StrVal::format(r.chance(50) ? StrVal("é%s-%d%%%g") : StrVal("%3$d %1$s"), a)).substr(0, 300); break; }
	case 34: out += std::to_string(s.findAny(b.s[j]))+","+std::to_string(s.rfindAny(b.s[j]))+","+std::to_string(s.findNot(b.s[j]))+","+std::to_string(s.rfindNot(b.s[j]))+","+std::to_string(s.rfind(b.s[j])); break;
	case 35: { int x = r.below(n+1); out += text_of(s.head(x)); out += text_of(s.tail(x)); out += text_of(s.shorter(x)); break; }
	case 36: if (n < 60) s = s*r.below(4); break;
	case 37: if (n < 200) s.prepend(b.s[j]); break;
	case 38: out += text_of(s.asLower()); out += text_of(s.asUpper()); break;
	case 39: { Array<int> x = b.a[k].select([](const int& e) { return e%2 == 0; }); for (unsigned z = 0; z < x.length(); z++) out += std::to_string(x[z])+","; out += std::to_string(b.a[k].inject<long>(1, [](long& t, const int& e) { return t*3%1000+e; })); break; }
	case 40: b.a[k].delete_if([](const int& e) { return e%3 == 0; }); break;
	case 41: if (b.a[k].length()) { int x = r.below(b.a[k].length()); b.a[k].remove(x, r.below(b.a[k].length()-x+1)); } break;
	case 42: { Array<int> x = b.a[k].map<Array<int>, int>([](const int& e) { return e+1; }); out += std::to_string(x.compare(b.a[k2]))+(x == b.a[k2] ? "e" : "n"); if (x.length() < 100) b.a[k2] = x; break; }
	case 43: { Array<StrVal> ks = b.m[m].keys(); for (unsigned z = 0; z < ks.length(); z++) out += text_of(ks[z])+","; CowMap<StrVal> x = b.m[m].select([](const StrVal& kk, const StrVal& v) { return kk.length() > v.length(); }); out += std::to_string(x.size()); if (r.chance(30)) b.m[m] = x; break; }
	case 44: if (r.chance(40)) b.m[m].clear(); else b.m[m].insert(b.s[j], s); break;
	case 45: { Variant v(b.sa[q]); Variant c(v); c = b.v[w]; out += text_of(v.as_json(r.range(-2, 2))).substr(0, 200); out += text_of(c.as_json(r.range(-2, 2))).substr(0, 200); break; }
	}
	out += ";";
}
static std::string bag_run(Bag& b, uint64_t seed, int N, bool delays)
{
	Rng r(seed), d(seed^77); std::string out;
	for (int k = 0; k < N; k++) { if (delays) pause_some(d); bag_op(b, r, out); }
	return out+"\n"+bag_text(b);
}
static void r02_case()
{
	uint64_t bs = rng().next(); int T = rng().range(2,5), N = rng().range(20,120); std::vector<uint64_t> seeds; for (int t = 0; t < T; t++) seeds.push_back(rng().next());
	if (rng().chance(25)) seeds[1] = seeds[0];		// doing the very same things
	note(fmt("%d threads, %d operations each on copies of values sharing bodies (bag %llx, seeds %llx %llx ...)", T, N, (unsigned long long)bs, (unsigned long long)seeds[0], (unsigned long long)seeds[1]));
	std::vector<std::string> expect, got(T);
	{
		Bag base = make_bag(bs); std::string text0;
		if (rng().chance(40)) text0 = bag_text(base); else { Bag same = make_bag(bs); text0 = bag_text(same); cover("shared_unmeasured"); }
		std::vector<Bag> own(T, base);
		bool keep = rng().chance(60); Bag kept; if (keep) kept = base; base = Bag();
		Gang g;
		for (int t = 0; t < T; t++) g.add([&,t]{ Bag mine = own[t]; own[t] = Bag(); got[t] = bag_run(mine, seeds[t], N, true); });
		g.run();
		if (keep && bag_text(kept) != text0) fail("the values the threads copied from have changed");
	}
	for (int t = 0; t < T; t++) { Bag alone = make_bag(bs); std::string e = bag_run(alone, seeds[t], N, false); if (e != got[t]) { size_t p = 0; while (p < e.size() && p < got[t].size() && e[p] == got[t][p]) p++; fail(fmt("thread %d saw something other than it would alone, at %zu of its record: '%s' instead of '%s'", t, p, esc(got[t].substr(p > 20 ? p-20 : 0, 80)).c_str(), esc(e.substr(p > 20 ? p-20 : 0, 80)).c_str())); } }
	cover("concurrent_ops", (long)T*N); seen(mix(bs^seeds[0])); sample(st().casetext); cover("shared_bags"); cover("coercions", cover_coercions.exchange(0));
}
CHECK(R02) { while (next_case(VH_N(3000), 30000)) r02_case(); }

// ---- T01: Latch
static void t01_misuse()
{
#if !defined(VH_TSAN)
	Latch l;
	if (!l.probe()) fail("probe() of a free latch failed"); if (!l.holding()) fail("holding() by the holder"); if (l.probe()) fail("probe() gained a held latch"); if (!l.holding()) fail("holding() after a failed probe()"); l.leave();
	if (l.holding()) fail("holding() of a free latch"); if (!l.probe()) fail("holding() of a free latch left it held"); l.leave();
	l.enter(); if (!l.holding()) fail("holding() after enter()"); l.leave();
	cover("alone");
	auto refused = [](const char* what, std::function<void()> f) { int s = in_child([&]{ alarm(5); f(); }); if (WIFEXITED(s) && WEXITSTATUS(s) == 0) fail(std::string(what)+" was accepted"); cover("misuse_refused"); };
	refused("entering a latch twice", []{ Latch x; x.enter(); x.enter(); });
	refused("leaving a latch not held", []{ Latch x; x.leave(); });
#endif
}
static void t01_case()
{
	int L = rng().range(1,3), T = rng().range(2,6), N = st().thorough ? 400 : 150; bool ask = rng().chance(50), probes = rng().chance(60);
	note(fmt("%d threads contend for %d latches%s%s", T, L, ask ? ", asking holding()" : "", probes ? ", using probe()" : ""));
	struct Slot { Latch l; int occupant = -1; long count = 0; std::vector<int> order; }; std::vector<std::unique_ptr<Slot>> s; for (int i = 0; i < L; i++) s.emplace_back(new Slot);
	std::vector<std::vector<long>> done(T, std::vector<long>(L)); std::atomic<long> refused{0}, handovers{0}; uint64_t seed = rng().next();
	Gang g;
	for (int t = 0; t < T; t++) g.add([&,t]{
		Rng r(seed+t);
		for (int k = 0; k < N; k++) {
			Slot& x = *s[r.below(L)]; size_t li = &x == s[0].get() ? 0 : L > 1 && &x == s[1].get() ? 1 : 2;
			pause_some(r);
			if (ask && r.chance(10)) { if (x.l.holding()) fail("holding() by a thread that does not hold the latch"); continue; }
			if (probes && r.chance(40)) { if (!x.l.probe()) { refused++; continue; } } else x.l.enter();
			if (x.occupant != -1) fail(fmt("thread %d is inside the latch that thread %d holds", t, x.occupant));
			x.occupant = t; if (x.order.empty() || x.order.back() != t) handovers++;
			if (x.order.size() < 1000) x.order.push_back(t);
			if (r.chance(20)) { if (!x.l.holding()) fail("holding() by the holder"); }
			if (r.chance(10)) { if (x.l.probe()) fail("probe() gained a latch already held by this thread"); }
			pause_some(r);
			x.count++; done[t][li]++; if (x.occupant != t) fail("another thread entered"); x.occupant = -1;
			x.l.leave();
		}
	});
	g.run();
	for (int i = 0; i < L; i++) { long n = 0; for (auto& d : done) n += d[i]; if (s[i]->count != n) fail(fmt("%ld updates under the latch, %ld remain", n, s[i]->count)); if (!s[i]->l.probe()) fail("the latch is not free after every thread left"); s[i]->l.leave(); }
	std::string o; for (auto& x : s) { for (int t : x->order) o += (char)('0'+t); o += '/'; }
	cover("entries", (long)T*N); cover("probe_refused", refused); cover("handovers", handovers); seen(hash_str(o)); sample(st().casetext+" order "+o.substr(0, 100));
}
// Who may take it while another holds it
static void t01_held()
{
	note("one thread holds the latch while another probes, asks and enters"); Latch l; std::atomic<int> phase{0}; bool inside = false; int shared = 0;
	l.enter();
	std::thread a([&]{ if (l.probe()) fail("probe() gained a latch held by another thread"); phase = 1; if (l.holding()) fail("holding() by another thread than the holder"); l.enter(); if (!l.holding()) fail("holding() after enter()"); if (!inside) fail("entered before the holder left"); shared++; inside = false; l.leave(); });
	while (phase == 0) sched_yield();
	Rng r(rng().next()); for (int k = 0; k < 20; k++) pause_some(r);
	if (!l.holding()) fail("holding() by the holder, while another thread asks"); shared++; inside = true; l.leave();
	a.join(); if (shared != 2 || inside) fail("an update was lost"); if (!l.probe()) fail("the latch is not free"); l.leave(); cover("held_by_another"); seen(mix(st().index));
}
CHECK(T01) { while (next_case(VH_N(10000), 100000)) { if (rng().chance(3)) { note("misuse"); t01_misuse(); } else if (rng().chance(20)) t01_held(); else t01_case(); } }

// ---- T02: Condition
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec+t.tv_nsec*1e-9; }
static const double PATIENCE = 40;	// seconds: a wakeup this late is lost
static bool until(std::function<bool()> f) { double e = now()+PATIENCE; for (int k = 0; !f(); k++) { if (now() > e) return false; if (k < 50) sched_yield(); else usleep(200); } return true; }
struct Waiters {
	Latch l; Condition c; int waiting = 0, woken = 0, occupant = -1; bool stop = false;
	bool timed = false; long delay = 0;
};
// K threads wait; signal and broadcast in some order, each time checking who wakes
static void t02_wake()
{
	int K = rng().range(1,6); int rounds = rng().range(1,6); bool inside = rng().chance(60); Waiters w; uint64_t seed = rng().next(); bool timedsome = rng().chance(40);
	std::string plan; for (int i = 0; i < rounds; i++) plan += rng().chance(50) ? 's' : 'b';
	note(fmt("%d threads wait, wakeups %s%s%s", K, plan.c_str(), inside ? " under the latch" : "", timedsome ? ", some waits timed" : ""));
	std::vector<std::thread> t; std::atomic<long> wakeups{0};
	for (int i = 0; i < K; i++) t.emplace_back([&,i]{
		Rng r(seed+i); bool timed = timedsome && (i&1); pause_some(r);
		w.l.enter();
		while (!w.stop) {
			w.waiting++;
			if (timed) { long d = 1000000; w.c.wait(d, &w.l); if (d <= 0 || d > 1000000) fail(fmt("a wait of 1000000ms that was woken at once reports %ld ms remaining", d)); }
			else w.c.wait(&w.l);
			if (!w.l.holding()) fail("wait() returned without the latch");
			if (w.occupant != -1) fail("wait() returned while another thread was inside the latch");
			w.occupant = i; w.woken++; wakeups++; pause_some(r); if (w.occupant != i) fail("two threads inside the latch"); w.occupant = -1; w.waiting--;
		}
		w.l.leave();
	});
	auto state = [&](int& waiting, int& woken) { w.l.enter(); waiting = w.waiting; woken = w.woken; w.l.leave(); };
	int a, b;
	for (char p : plan) {
		if (!until([&]{ state(a, b); return a == K; })) fail("a waiting thread keeps the latch, or does not arrive");
		w.l.enter(); int before = w.woken; bool out = !inside; if (out) w.l.leave();
		if (p == 's') w.c.signal(); else w.c.broadcast();
		if (!out) { w.occupant = 99; if (w.woken != before) fail("a thread left wait() while the latch was held"); w.occupant = -1; w.l.leave(); }
		int need = p == 's' ? 1 : K;
		if (!until([&]{ state(a, b); return b >= before+need; })) fail(fmt("after %s with %d threads waiting, %d woke", p == 's' ? "signal()" : "broadcast()", K, b-before));
		cover(p == 's' ? "signals" : "broadcasts");
		if (p == 's' && K > 1 && rng().chance(35)) {	// a spurious wakeup is allowed, but not every time
			static int trials, crowds; usleep(15000); state(a, b); trials++; if (b-before > 1) crowds++;
			if (trials >= 10 && crowds*2 > trials) fail(fmt("after signal() more than one thread woke, %d times of %d", crowds, trials));
			cover(b-before == 1 ? "signal_woke_one" : "signal_woke_more");
		}
	}
	until([&]{ state(a, b); return a == K; });
	w.l.enter(); w.stop = true; w.c.broadcast(); w.l.leave();
	for (auto& x : t) x.join();		// a hang here is a lost wakeup
	cover("wakeups", wakeups); seen(hash_str(st().casetext)^mix(wakeups)); sample(st().casetext);
}
// A bounded queue: every item passes exactly once, in each producer's order
static void t02_queue()
{
	int P = rng().range(1,3), C = rng().range(1,3), cap = rng().range(1,4), N = rng().range(20,150); uint64_t seed = rng().next(); bool bc = rng().chance(40), outside = rng().chance(40), timed = rng().chance(30);
	note(fmt("a queue of %d, %d producers of %d, %d consumers%s%s%s", cap, P, N, C, bc ? ", broadcasting" : "", outside ? ", signalling outside the latch" : "", timed ? ", timed waits" : ""));
	Latch l; Condition not_full, not_empty; std::vector<int> q; int produced_all = 0; std::vector<std::vector<int>> got(C); std::atomic<long> waits{0};
	std::vector<std::thread> t;
	auto wait = [&](Condition& c) { waits++; if (timed) { long d = 1000000; c.wait(d, &l); } else c.wait(&l); };
	auto wake = [&](Condition& c) { if (bc) c.broadcast(); else c.signal(); };
	for (int p = 0; p < P; p++) t.emplace_back([&,p]{ Rng r(seed+p); for (int i = 0; i < N; i++) { pause_some(r); l.enter(); while ((int)q.size() >= cap) wait(not_full); q.push_back(p*1000+i); if (outside) { l.leave(); wake(not_empty); } else { wake(not_empty); l.leave(); } } l.enter(); if (++produced_all == P) not_empty.broadcast(); l.leave(); });
	for (int c = 0; c < C; c++) t.emplace_back([&,c]{ Rng r(seed+50+c); for (;;) { pause_some(r); l.enter(); while (q.empty() && produced_all < P) wait(not_empty); if (q.empty()) { l.leave(); break; } int x = q.front(); q.erase(q.begin()); got[c].push_back(x); if (outside) { l.leave(); wake(not_full); } else { wake(not_full); l.leave(); } } });
	for (auto& x : t) x.join();
	std::set<int> all; std::string o;
	for (auto& g : got) { std::map<int,int> last; for (int x : g) { if (!all.insert(x).second) fail(fmt("item %d came out twice", x)); auto it = last.find(x/1000); if (it != last.end() && it->second >= x) fail("items of one producer came out of order"); last[x/1000] = x; o += std::to_string(x)+","; } o += "/"; }
	if ((int)all.size() != P*N) fail(fmt("%d items went in, %zu came out", P*N, all.size()));
	cover("queue_items", P*N); cover("queue_waits", waits); seen(hash_str(o)); sample(st().casetext);
}
// Unsignalled timed waits, from any phase of the clock's second
static void t02_timed()
{
	int T = rng().range(4,20); uint64_t seed = rng().next(); note(fmt("%d threads wait for a time without a signal", T));
	Latch l; Condition c; std::vector<std::thread> t; int occupant = -1;
	for (int i = 0; i < T; i++) t.emplace_back([&,i]{
		Rng r(seed+i);
		long ms = r.chance(15) ? r.below(3) : r.chance(10) ? r.range(1000,1150) : r.chance(10) ? r.range(900,999) : r.range(3,250);
		int early = 0;
		for (int attempt = 0; attempt < 4; attempt++) {
			l.enter(); long d = ms; double t0 = now(); c.wait(d, &l); double t1 = now()-t0;
			if (!l.holding()) fail("a timed wait() returned without the latch");
			if (occupant != -1) fail("a timed wait() returned while another thread was inside the latch"); occupant = i; sched_yield(); occupant = -1;
			l.leave();
			if (d == 0 && ms > 0 && t1*1000 < ms-3) { early++; if (attempt == 3) fail(fmt("a timed wait of %ld ms without a signal timed out after %.1f ms", ms, t1*1000)); continue; }
			if (d != 0) { if (attempt == 3) fail(fmt("a timed wait of %ld ms without a signal returned after %.1f ms with %ld ms remaining", ms, t1*1000, d)); continue; }	// once may be spurious
			if (t1*1000 > ms+PATIENCE*1000) fail(fmt("a timed wait of %ld ms took %.0f ms", ms, t1*1000));
			if (t1*1000 > ms+900) { if (attempt == 3) fail(fmt("a timed wait of %ld ms takes %.0f ms", ms, t1*1000)); continue; }	// once may be the machine
			break;
		}
	});
	for (auto& x : t) x.join();
	cover("timed_waits", T); seen(mix(seed)); sample(st().casetext);
}
CHECK(T02) { while (next_case(VH_N(1500), 15000)) { int k = rng().below(100); if (k < 57) t02_wake(); else if (k < 96) t02_queue(); else t02_timed(); } }

// ---- T03: Thread
struct Forest; struct Node : public Thread {
	Forest* f; int idx; std::atomic<int> runs{0}, ended{0}; long result = 0; std::vector<Node*> children; std::vector<bool> join_child; uint64_t seed; int returned = 0; int joined = 0; Id ran_as = 0; bool leaves = rng().chance(25); std::atomic<int> unwound{0};
	void leave(Rng& r);
	Node(Forest* fo, int i, uint64_t s) : f(fo), idx(i), seed(s) {}
	int run() override;
	static long value(int i) { return i*7919L+13; }
	State state_now() const { return state; }
};
struct Forest { std::vector<Node*> all; std::atomic<int> started{0}, ran{0}; std::atomic<bool> freed{false}; };
int Node::run()
{
	Rng r(seed); runs++; f->ran++; ran_as = currentId();
	if (id() != currentId()) fail("id() inside run() is not the current thread's");
	if (Thread::current() != this) fail(fmt("Thread::current() inside run() is another Thread (%p, not %p)", (void*)Thread::current(), (void*)(Thread*)this));
	pause_some(r);
	for (size_t i = 0; i < children.size(); i++) { f->started++; children[i]->resume(); pause_some(r); }
	for (size_t i = 0; i < children.size(); i++) if (join_child[i]) {
		pause_some(r); children[i]->join();
		if (!children[i]->ended) fail("join() returned before the thread ended its run()");
		if (children[i]->result != value(children[i]->idx)) fail("the result of a joined thread is not there");
		children[i]->joined++; if (r.chance(20)) children[i]->join();	// again: returns at once
	}
	pause_some(r); if (r.chance(10)) Thread::yield(r.below(2));
	result = value(idx);
	if (leaves) leave(r);
	ended = 1;
	return (int)idx;
}
// End by Thread::exit(), some calls deep. What the thread has on its stack is released before joinAny() gives it back
void Node::leave(Rng& r)
{
	struct AtEnd { Node* n; Rng& r; ~AtEnd() { pause_some(r); if (n->unwound++) fail("a thread ended twice"); } } at_end{this, r};
	ended = 1;
	exit(idx);
	fail("exit() returned to the thread that called it");
}
static int grow(Forest& f, std::vector<Node*>& out, int depth, int width, bool joins)
{
	Node* n = new Node(&f, f.all.size(), rng().next()); f.all.push_back(n); out.push_back(n); int made = 1;
	if (depth > 0) { int k = rng().below(width+1); for (int i = 0; i < k && f.all.size() < 40; i++) { std::vector<Node*> c; made += grow(f, c, depth-1, width, joins); n->children.push_back(c[0]); n->join_child.push_back(joins && rng().chance(50)); } }
	return made;
}
static void t03_case()
{
	Forest f; int roots = rng().range(1,6), depth = rng().below(4); bool joins = rng().chance(50), del = !joins && rng().chance(60); int J = rng().chance(30) ? rng().range(2,3) : 1;
	std::vector<Node*> root; for (int i = 0; i < roots; i++) { std::vector<Node*> c; grow(f, c, depth, 3, joins); root.push_back(c[0]); }
	std::vector<bool> main_join(roots); for (int i = 0; i < roots; i++) main_join[i] = joins && rng().chance(40);
	note(fmt("%zu threads, %d of them roots, nesting %d, %d callers of joinAny()%s%s", f.all.size(), roots, depth, J, joins ? ", some joined directly" : "", del ? ", deleted when joined" : ""));
	Rng r(rng().next());
	if (rng().chance(20)) { Node* never = new Node(&f, 9999, 1); delete never; cover("never_resumed"); }
	if (Thread::current() != 0) fail("Thread::current() of the main thread");	// it is not in the map
	int total = f.all.size();
	for (int i = 0; i < roots; i++) { f.started++; root[i]->resume(); pause_some(r); }
	std::mutex rl; std::vector<Node*> returned; std::atomic<int> nulls{0}; std::set<void*> live; for (auto n : f.all) live.insert(n);
	bool direct_first = rng().chance(50);
	auto direct = [&]{ for (int i = 0; i < roots; i++) if (main_join[i]) { pause_some(r); root[i]->join(); if (!root[i]->ended || root[i]->result != Node::value(root[i]->idx)) fail("join() returned before the thread ended"); root[i]->joined++; } };
	auto collector = [&](uint64_t seed) {
		Rng q(seed);
		while (Thread* t = Thread::joinAny()) {
			Node* n = static_cast<Node*>(t);
			{ std::lock_guard<std::mutex> g(rl); if (!live.count(n)) fail("joinAny() returned something that is not a thread, or not any more"); if (n->returned++) fail(fmt("joinAny() returned thread %d twice", n->idx)); if (del) live.erase(n); returned.push_back(n); }
			if (!n->ended) fail("joinAny() returned a thread that has not ended its run()");
			if (n->result != Node::value(n->idx) || n->runs != 1) fail("the result of a thread from joinAny() is not there");
			if (n->unwound != n->leaves) fail("joinAny() returned a thread that was still ending");
			if (del) delete n;
			pause_some(q);
		}
		nulls++;
	};
	if (direct_first) direct();
	if (J == 1) collector(r.next());
	else { std::vector<std::thread> t; for (int k = 0; k < J; k++) { uint64_t s = r.next(); t.emplace_back([&,s]{ collector(s); }); } for (auto& x : t) x.join(); }
	if (!direct_first) direct();
	if (f.ran != total) fail(fmt("joinAny() returned null when %d of %d threads had run", (int)f.ran, total));
	if (Thread::joinAny()) fail("joinAny() returned a thread when none remained");
	if (!joins && (int)returned.size() != total) fail(fmt("%d threads, joinAny() returned %zu", total, returned.size()));
	for (auto n : f.all) if (!del && n->leaves) cover("ended_by_exit");
	std::string o; for (auto n : returned) o += del ? "." : std::to_string(n->idx)+",";
	if (!del) for (auto n : f.all) {
		if (n->runs != 1) fail(fmt("thread %d ran %d times", n->idx, (int)n->runs));
		if (!n->ended || n->result != Node::value(n->idx)) fail("a thread had not ended when everything was joined");
		if (!n->joined && !n->returned) fail(fmt("thread %d was neither joined nor returned by joinAny()", n->idx));
		if (n->state_now() != Thread::Ended) fail("an ended thread's state");
		if (n->returned && n->joined) cover("joined_both_ways");	// join() of a thread that joinAny() took first returns
		delete n;
	}
	cover("threads", total); cover("joinAny_returned", returned.size()); cover("null_returned", nulls); seen(hash_str(o)^mix(total*64+J)); sample(st().casetext+" order "+o.substr(0,100));
}
// Thread::yield(ms) lasts at least as long as it was given, however often signals interrupt it
static void on_usr1(int) {}
class Sleeper : public Thread
{
public:
	unsigned long ms; std::atomic<long> took{-1}; std::atomic<int> asleep{0}; std::atomic<pthread_t> me{0};
	Sleeper(unsigned long m) : ms(m) {}
	int run() { me = pthread_self(); timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a); asleep = 1; yield(ms); clock_gettime(CLOCK_MONOTONIC, &b); took = (b.tv_sec-a.tv_sec)*1000000+(b.tv_nsec-a.tv_nsec)/1000; asleep = 2; return 0; }
};
static void t03_yield()
{
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_usr1; sigaction(SIGUSR1, &sa, 0);
	int n = rng().range(1,5); std::vector<Sleeper*> v; long interrupted = 0;
	for (int i = 0; i < n; i++) v.push_back(new Sleeper(rng().chance(10) ? 0 : rng().chance(4) ? 1000+(rng().chance(50) ? 0 : rng().below(60)) : rng().below(40)));
	note(fmt("%d threads that sleep, interrupted by signals", n)); Rng r(rng().next());
	if (!Thread::main() || Thread::main()->id() != Thread::currentId()) fail("Thread::main() is not the main thread");
	if (Thread::currentProcessId() != getpid()) fail("Thread::currentProcessId()");
	for (auto s : v) s->resume();
	bool storm = rng().chance(80);
	for (bool busy = true; busy && storm; ) { busy = false; for (auto s : v) if (s->asleep < 2) { busy = true; if (s->asleep == 1) { pthread_kill(s->me, SIGUSR1); interrupted++; } } usleep(100+r.below(3000)); }
	for (auto s : v) s->join();
	for (auto s : v) { if (s->took < (long)s->ms*1000-50) fail(fmt("Thread::yield(%lu) returned after %ld microseconds", s->ms, (long)s->took)); delete s; }
	cover("slept", n); cover("sleep_interrupted", interrupted); seen(hash_str(fmt("yield %d %ld", n, interrupted)));
}
CHECK(T03) { if (Thread::joinAny()) fail("joinAny() before any thread"); while (next_case(VH_N(6000), 60000)) if (rng().chance(2)) t03_yield(); else t03_case(); }
// Resources: address space and tasks must not grow with the number of threads used
static long proc_field(const char* file, const char* name) { FILE* fp = fopen(file, "r"); if (!fp) return -1; char b[256]; long v = -1; while (fgets(b, sizeof b, fp)) if (!strncmp(b, name, strlen(name))) { v = atol(b+strlen(name)); break; } fclose(fp); return v; }
static void check_T03leak()
{
	while (next_case(8, 60)) {
		note("address space of the process after many threads");
		auto round = [&](int n, int how) {
			for (int i = 0; i < n; i++) {
				Forest f; std::vector<Node*> v; for (int k = 0; k < 4; k++) { v.push_back(new Node(&f, k, rng().next())); v.back()->resume(); }
				if (how == 0) for (auto x : v) x->join(); else if (how == 1) while (Thread::joinAny()) ; else { v[0]->join(); v[2]->join(); while (Thread::joinAny()) ; }
				for (auto x : v) delete x;
			}
		};
		for (int how = 0; how < 3; how++) {
			round(10, how); long a = proc_field("/proc/self/status", "VmSize:"), n = 60;
			round(n, how); long b = proc_field("/proc/self/status", "VmSize:"), t = proc_field("/proc/self/status", "Threads:");
			if (a > 0 && b-a > n*4*8192/3) fail(fmt("%ld joined threads later the process has %ld KB more address space", n*4, b-a));
			if (t > 8) { usleep(200000); t = proc_field("/proc/self/status", "Threads:"); if (t > 8) fail(fmt("%ld threads exist after all were joined", t)); }
			cover("joined_threads", n*4); cover(how == 0 ? "by_join" : how == 1 ? "by_joinAny" : "by_both"); seen(mix(st().index*3+how)); sample(fmt("VmSize %ld -> %ld KB over %ld threads", a, b, n*4));
		}
	}
}
static Reg reg_T03leak("T03:leak", check_T03leak);
