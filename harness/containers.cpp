/*
 * Monitors for Array, CowMap and Variant: pools of values shadowed by plain std containers, instrumented elements
 * whose construction and destruction are counted, and an independent JSON reader.
 */
#include "vh.h"
#include "u8.h"
#include "refint.h"
#include "json.h"
#include <memory>
#include <deque>
#include <variant.h>
#include <array.h>
#include <cowmap.h>
#include <strval.h>
using namespace vh;
typedef std::u32string U;

// ---- An instrumented element: owns heap memory, and knows whether it is alive
struct El {
	static long live, made;
	uint32_t magic; int* p;
	El() : magic(0xE1E1E1E1), p(new int(0)) { live++; made++; }
	El(int k) : magic(0xE1E1E1E1), p(new int(k)) { live++; made++; }
	El(const El& o) : magic(0xE1E1E1E1), p(0) { o.check("copied from"); p = new int(*o.p); live++; made++; }
	~El() { check("destroyed"); magic = 0xDEADDEAD; live--; delete p; p = 0; }
	El& operator=(const El& o) { check("assigned to"); o.check("assigned from"); int k = *o.p; delete p; p = new int(k); return *this; }
	void check(const char* what) const { if (magic != 0xE1E1E1E1) fail(fmt("an element that is not alive is %s", what)); }
	int key() const { check("read"); return *p; }
	bool operator==(const El& o) const { return key() == o.key(); }
	bool operator<(const El& o) const { return key() < o.key(); }
};
long El::live = 0, El::made = 0;

template<class T> struct Kit;
template<> struct Kit<int> { static int mk(int k) { return k; } static int key(int v) { return v; } static const char* name() { return "int"; } };
template<> struct Kit<El> { static El mk(int k) { return El(k); } static int key(const El& v) { return v.key(); } static const char* name() { return "El"; } };
template<> struct Kit<StrVal> {
	static StrVal mk(int k) { return StrVal(fmt("%05d-\xE2\x82\xAC", k+1000).c_str()); }
	static int key(const StrVal& v) { StrValIndex n = 0; const char* p = v.asUTF8(n); if (n == 0) return 0; if (n != 9) fail("a string element is corrupt"); return atoi(std::string(p, 5).c_str())-1000; }
	static const char* name() { return "StrVal"; }
};

typedef std::vector<int> M;
static std::string show(const M& m) { std::string s = "["; for (int k : m) s += fmt("%s%d", s.size() > 1 ? "," : "", k); return s+"]"; }

template<class T> void same(const Array<T>& a, const M& m, const std::string& what)
{
	if (a.length() != m.size()) fail(fmt("%s: length %u, expected %zu", what.c_str(), (unsigned)a.length(), m.size()));
	if (a.isEmpty() != m.empty()) fail(what+": isEmpty");
	const T* p = a.asElements();
	for (size_t i = 0; i < m.size(); i++) {
		int k = Kit<T>::key(a.elem_ref(i));
		if (k != m[i]) fail(fmt("%s: element %zu is %d, expected %d of %s", what.c_str(), i, k, m[i], show(m).c_str()));
		if (&a.elem_ref(i) != p+i) fail(what+": asElements");
	}
	if (m.size()) { size_t i = m.size()/2; if (Kit<T>::key(a[i]) != m[i] || Kit<T>::key(a.elem(i)) != m[i]) fail(what+": operator[]"); }
}

template<class T> struct Pool {
	std::vector<Array<T>> v; std::vector<M> m;
	std::deque<std::vector<T>> bytes; std::deque<std::unique_ptr<ArrayBody<T>>> bodies;
	int range = 6, maxlen = 8;
	M vals(int maxn) { M r; int n = rng().chance(10) ? 0 : rng().range(1, maxn); for (int i = 0; i < n; i++) r.push_back(rng().below(range)); return r; }
	Array<T> make(const M& u)
	{
		std::vector<T> e; for (int k : u) e.push_back(Kit<T>::mk(k));
		switch (rng().below(6)) {
		case 0: return Array<T>(e.data(), e.size());
		case 1: return Array<T>(e.data(), e.size(), e.size()+rng().below(20));
		case 2: { Array<T> a; for (auto& x : e) a.push(x); return a; }
		case 3: { Array<T> a; for (auto& x : e) a << x; return a; }
		case 4: if (e.empty()) return Array<T>(); bytes.push_back(e); bodies.emplace_back(new ArrayBody<T>(bytes.back().data(), false, e.size())); return Array<T>(bodies.back().get());
		default: { if (e.size() == 1) return Array<T>(e[0]); Array<T> a; for (size_t i = e.size(); i-- > 0; ) a.unshift(e[i]); return a; }
		}
	}
	Array<T> sliced(const M& u)	// u as a slice of something longer
	{
		if (rng().chance(40)) return make(u);
		M x = rng().chance(50) ? vals(5) : M(), y = rng().chance(50) ? vals(5) : M(), all = x;
		all.insert(all.end(), u.begin(), u.end()); all.insert(all.end(), y.begin(), y.end());
		return make(all).slice(x.size(), u.size());
	}
	int idx() { return rng().below(v.size()); }
	void verify(const std::string& what) { for (size_t i = 0; i < v.size(); i++) same(v[i], m[i], what+fmt(": value %zu", i)); }
	void done() { v.clear(); for (auto& b : bodies) VH_REQUIRE(b->GetRefCount() == 1, "a static body has references after all values are gone"); bodies.clear(); bytes.clear(); }
};
static M sub(const M& a, size_t at, long len) { if (at >= a.size()) return M(); size_t l = len < 0 || at+len > a.size() ? a.size()-at : len; return M(a.begin()+at, a.begin()+at+l); }
static M cat(const M& a, const M& b) { M r = a; r.insert(r.end(), b.begin(), b.end()); return r; }

// ---- A01: every operation, on a whole array or a slice, against the plain sequence
template<class T> void a01()
{
	Pool<T> P; P.range = rng().chance(20) ? 2 : rng().range(3, 12);
	M m = P.vals(rng().chance(5) ? 120 : rng().chance(30) ? 20 : 8); long n = m.size(); M b = rng().chance(30) && n ? sub(m, rng().below(n), rng().below(4)) : P.vals(4);
	if (rng().chance(10)) b = m; if (rng().chance(10)) { b = m; b.push_back(1); } if (rng().chance(10) && n) { b = m; b.pop_back(); } if (rng().chance(10) && n) { b = m; b[rng().below(n)] ^= 1; }
	note(fmt("%s %s and %s", Kit<T>::name(), show(m).c_str(), show(b).c_str()));
	Array<T> A = P.sliced(m), B = P.sliced(b);
	same(A, m, "a"); same(B, b, "b");
	auto mk = [](int k) { return Kit<T>::mk(k); }; auto key = [](const T& t) { return Kit<T>::key(t); };
	int want = n && rng().chance(70) ? m[rng().below(n)] : rng().below(P.range+1); T W = mk(want);
	auto is = [&](const T& t) { return key(t) == want; };
	// searches
	for (long after = -1; after < n; after++) {
		long w = -1; for (long i = after+1; i < n; i++) if (m[i] == want) { w = i; break; }
		long g = A.find(W, after), h = A.find(std::function<bool(const T&)>(is), after);
		if (g != w || h != w) fail(fmt("find(%d, after %ld) = %ld and %ld, expected %ld", want, after, g, h, w));
		cover(w < 0 ? "search_absent" : "search_found");
	}
	for (long before = -1; before <= n; before++) {
		long w = -1; for (long i = (before < 0 ? n : before)-1; i >= 0; i--) if (m[i] == want) { w = i; break; }
		long g = A.rfind(W, before), h = A.rfind(std::function<bool(const T&)>(is), before);
		if (g != w || h != w) fail(fmt("rfind(%d, before %ld) = %ld and %ld, expected %ld", want, before, g, h, w));
	}
	{ long w = std::find(m.begin(), m.end(), want)-m.begin(); if (w == n) w = -1; if (A.detect(is) != w) fail("detect"); if (A.find(W) != w) fail("find"); if (A.find(std::function<bool(const T&)>(is)) != w) fail("find by function"); w = -1; for (long i = n-1; i >= 0; i--) if (m[i] == want) { w = i; break; } if (A.rfind(W) != w || A.rfind(std::function<bool(const T&)>(is)) != w) fail("rfind"); }
	long count = std::count(m.begin(), m.end(), want);
	if (A.any(is) != (count > 0)) fail("any"); if (A.all(is) != (count == n)) fail("all"); if (A.one(is) != (count == 1)) fail("one");
	{ M e; for (int k : m) if (k == want) e.push_back(k); same(A.select(is), e, "select"); e.clear(); for (int k : m) if (k < want) e.push_back(k); same(A.select([&](const T& t) { return key(t) < want; }), e, "select <"); }
	{ M e; const Array<T>& r = A.each([&](const T& t) { e.push_back(key(t)); }); if (e != m) fail("each visited "+show(e)); if (&r != &A) fail("each does not return its subject"); }
	{ M e; for (int k : m) e.push_back(k+1); Array<T> r = A.template map<Array<T>, T>([&](const T& t) { return mk(key(t)+1); }); same(r, e, "map"); Array<int> ri = A.template map<Array<int>, int>([&](const T& t) { return key(t)+1; }); same(ri, e, "map to int"); }
	{ std::string e, g = A.template inject<std::string>(std::string("<"), [&](std::string& s, const T& t) { return s+fmt("%d,", key(t)); }); e = "<"; for (int k : m) e += fmt("%d,", k); if (e != g) fail("inject gave "+g); }
	{	// binary search of a sorted, distinct version
		M s = m; std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end()); Array<T> S = P.sliced(s);
		for (int k = -1; k <= P.range; k++) {
			long calls = 0; int g = S.bsearch([&](const T& t) { if (++calls > 200) fail("bsearch does not end"); return key(t)-k; });
			long w = std::lower_bound(s.begin(), s.end(), k)-s.begin(); if (w == (long)s.size() || s[w] != k) w = -1;
			if (g != w) fail(fmt("bsearch for %d in %s = %d, expected %ld", k, show(s).c_str(), g, w));
			if (calls > 9) fail(fmt("bsearch of %zu elements used %ld comparisons", s.size(), calls));
		}
	}
	// comparison
	{ int e = m < b ? -1 : b < m ? 1 : 0; int g = A.compare(B), r = B.compare(A); if ((g < 0 ? -1 : g > 0) != e || (r < 0 ? -1 : r > 0) != -e) fail(fmt("compare = %d and %d, expected %d", g, r, e)); if ((A == B) != (e == 0) || (A != B) != (e != 0)) fail("== or !="); if (A.compare(A) != 0 || !(A == A)) fail("compare to itself"); cover(e ? "unequal" : "equal"); }
	// slices of one array compared to each other
	{
		M p = n ? cat(m, m) : m; if (rng().chance(30)) { p.clear(); int w = rng().below(12), c = rng().below(P.range); for (int i = 0; i < w; i++) p.push_back(rng().chance(80) ? c : rng().below(P.range)); }
		Array<T> W2 = P.sliced(p); long np = p.size();
		for (int k = 0; k < 6; k++) {
			long l = rng().below(np+1), i = rng().below(np-l+1), j = k%2 ? rng().below(np-l+1) : std::min(np-l, i+n), l2 = rng().chance(70) ? l : rng().below(np-j+1);
			M x = sub(p,i,l), y = sub(p,j,l2); if (l == 0) x.clear(); if (l2 == 0) y.clear(); Array<T> X = W2.slice(i,l), Y = W2.slice(j,l2);
			int e = x < y ? -1 : y < x ? 1 : 0, g = X.compare(Y);
			if ((g < 0 ? -1 : g > 0) != e || (X == Y) != (e == 0) || (X != Y) != (e != 0)) fail(fmt("slices %s and %s of %s: compare = %d, == is %d, expected order %d", show(x).c_str(), show(y).c_str(), show(p).c_str(), g, (int)(X == Y), e));
			cover(e ? "slices_unequal" : i == j ? "slices_same" : "slices_equal_elsewhere");
		}
	}
	// slices
	for (int k = 0; k < 6; k++) { long at = rng().below(n+3), len = rng().chance(25) ? -1 : rng().below(n+3); same(A.slice(at, len), sub(m, at, len), fmt("slice(%ld,%ld)", at, len)); if (len < 0) same(A.slice(at), sub(m, at, -1), "slice to the end"); }
	for (int k = 0; k < 3; k++) { long c = rng().below(n+1); same(A.head(c), sub(m,0,c), "head"); same(A.tail(c), sub(m,n-c,c), fmt("tail(%ld)", c)); same(A.shorter(c), sub(m,0,n-c), "shorter"); same(A.drop(c), sub(m,c,-1), "drop"); }
	{ long i = rng().below(n+1), j = i+rng().below(n-i+1), k = j+rng().below(n-j+1); Array<T> x = A.slice(i,j-i), y = A.slice(j,k-j); same(x+y, sub(m,i,k-i), "contiguous slices added"); x += y; same(x, sub(m,i,k-i), "contiguous slices joined"); Array<T> z = A.slice(j,k-j); z.insert(0, A.slice(i,j-i)); same(z, sub(m,i,k-i), "contiguous slices joined in front"); long p = rng().below(k-j+1); z = A.slice(j,k-j); z.insert(p, A.slice(i,j-i)); same(z, cat(cat(sub(m,j,p),sub(m,i,j-i)),sub(m,j+p,k-j-p)), "the slice before inserted"); p = rng().below(j-i+1); z = A.slice(i,j-i); z.insert(p, A.slice(j,k-j)); same(z, cat(cat(sub(m,i,p),sub(m,j,k-j)),sub(m,i+p,j-i-p)), "the slice after inserted"); }
	same(A+B, cat(m,b), "a+b"); same(B+A, cat(b,m), "b+a"); same(A+A, cat(m,m), "a+a"); same(A+W, cat(m,M{want}), "a+element");
	if (n) { if (key(Array<T>(A).last()) != m.back() || key(A.last_ref()) != m.back()) fail("last"); long i = rng().below(n); if (key(A[i]) != m[i] || key(A.elem(i)) != m[i]) fail("elem"); }
	// mutations, each on a copy (which shares) or on a fresh array (which does not)
	auto fresh = [&]() { return rng().chance(50) ? A : P.sliced(m); };
	auto mut = [&](const char* name, const M& e, const std::function<void(Array<T>&)>& f) { Array<T> t = fresh(); note_more(fmt("; %s", name)); f(t); same(t, e, name); if (e.size()) { t.push(W); same(t, cat(e,M{want}), fmt("%s then push", name)); } same(A, m, fmt("the original after %s", name)); same(B, b, fmt("the argument after %s", name)); };
	mut("+=element", cat(m,M{want}), [&](Array<T>& t) { t += W; });
	mut("push", cat(m,M{want}), [&](Array<T>& t) { t.push(W); });
	mut("append element", cat(m,M{want}), [&](Array<T>& t) { t.append(W); });
	mut("<<", cat(m,M{want}), [&](Array<T>& t) { t << W; });
	mut("+=", cat(m,b), [&](Array<T>& t) { t += B; });
	mut("append", cat(m,b), [&](Array<T>& t) { t.append(B); });
	mut("unshift", cat(M{want},m), [&](Array<T>& t) { t.unshift(W); });
	{ long p = rng().below(n+1); M e = cat(cat(sub(m,0,p),b),sub(m,p,-1)); mut("insert", e, [&](Array<T>& t) { t.insert(p, B); }); }
	{ long p = rng().below(n+1), i = rng().below(n+1), l = rng().below(n-i+1); M e = cat(cat(sub(m,0,p),sub(m,i,l)),sub(m,p,-1)); mut("insert of its own slice", e, [&](Array<T>& t) { t.insert(p, t.slice(i, l)); }); }
	{ M e = m; std::reverse(e.begin(), e.end()); mut("reverse", e, [&](Array<T>& t) { t.reverse(); }); }
	{ long p = rng().below(n+1), l = rng().chance(30) ? -1 : rng().below(n-p+1); M e = cat(sub(m,0,p), l < 0 ? M() : sub(m,p+l,-1)); mut("remove", e, [&](Array<T>& t) { if (l < 0 && rng().chance(50)) t.remove(p); else t.remove(p, l); }); }
	{ M e; for (int k : m) if (k != want) e.push_back(k); mut("delete_if", e, [&](Array<T>& t) { t.delete_if(is); }); e.clear(); for (int k : m) if (k < want) e.push_back(k); mut("delete_if >=", e, [&](Array<T>& t) { t.delete_if([&](const T& x) { return !(key(x) < want); }); }); }
	mut("clear", M(), [&](Array<T>& t) { t.clear(); });
	if (n) {
		long i = rng().below(n); M e = m; e[i] = want; mut("set", e, [&](Array<T>& t) { const T& r = t.set(i, W); if (key(r) != want) fail("set returned another"); });
		mut("elem_mut", e, [&](Array<T>& t) { t.elem_mut(i) = W; });
		e = m; e.back() = want; mut("last_mut", e, [&](Array<T>& t) { t.last_mut() = W; });
		mut("pull", sub(m,0,n-1), [&](Array<T>& t) { if (key(t.pull()) != m.back()) fail("pull returned another"); });
		mut("shift", sub(m,1,-1), [&](Array<T>& t) { if (key(t.shift()) != m[0]) fail("shift returned another"); });
		e = m; e.erase(e.begin()+i); mut("delete_at", e, [&](Array<T>& t) { if (key(t.delete_at(i)) != m[i]) fail("delete_at returned another"); });
	}
	same(A, m, "a afterwards"); same(B, b, "b afterwards");
	seen(hash_str(show(m)+show(b)+fmt("%d%s", want, Kit<T>::name())), n > 1); sample(st().casetext);
}
CHECK(A01)
{
	while (next_case(VH_N(90000), 2000000)) {
		switch (rng().below(3)) { case 0: a01<int>(); break; case 1: a01<El>(); break; default: a01<StrVal>(); break; }
	}
}

// ---- A02: histories over a pool of arrays that share bodies
template<class T> void astep(Pool<T>& P)
{
	int a = P.idx(), b = P.idx(), d = P.idx();
	Array<T>& A = P.v[a]; M& m = P.m[a]; Array<T>& B = P.v[b]; M& mb = P.m[b];
	long n = m.size(), nb = mb.size(); const size_t big = 60;
	auto mk = [](int k) { return Kit<T>::mk(k); }; auto key = [](const T& t) { return Kit<T>::key(t); };
	int k = rng().below(P.range);
	switch (rng().below(31)) {
	case 30: {	// build from borrowed elements that are overwritten afterwards
		M u = P.vals(P.maxlen); if (u.empty() || n+(long)u.size() > (long)big) break;
		int w = rng().below(8); long p = rng().below(n+1); note_more(fmt("; v%d built from v%d and borrowed %s (%d at %ld)", d, a, show(u).c_str(), w, p));
		std::vector<T> e; for (int x : u) e.push_back(mk(x)); M want; Array<T> r;
		{
			std::unique_ptr<ArrayBody<T>> body(new ArrayBody<T>(e.data(), false, e.size()));
			{
				Array<T> s(body.get());
				switch (w) {
				case 0: r += s; want = u; break;
				case 1: r = A; r += s; want = cat(m,u); break;
				case 2: r = A+s; want = cat(m,u); break;
				case 3: r = s; r.push(mk(k)); want = cat(u,M{k}); break;
				case 4: r = A; r.insert(p, s); want = cat(cat(sub(m,0,p),u),sub(m,p,-1)); break;
				case 5: r.append(s); r.append(s); want = cat(u,u); break;
				case 6: r = s; r.reverse(); want = u; std::reverse(want.begin(), want.end()); break;
				default: r = s+s; want = cat(u,u); break;
				}
				same(s, u, "the borrowing array");
			}
			VH_REQUIRE(body->GetRefCount() == 1, "borrowed elements are still referred to by a value built from them");
		}
		for (size_t i = 0; i < e.size(); i++) if (key(e[i]) != u[i]) fail("borrowed elements were changed");
		for (auto& x : e) x = mk(P.range+1);
		same(r, want, "a value built from borrowed elements"); P.v[d] = r; P.m[d] = want; break;
	}
	case 0: { M u = P.vals(P.maxlen); note_more(fmt("; v%d=%s", d, show(u).c_str())); P.v[d] = P.make(u); P.m[d] = u; break; }
	case 1: note_more(fmt("; v%d=v%d", d, a)); P.v[d] = A; P.m[d] = M(m); break;
	case 2: case 3: { long at = rng().below(n+2), l = rng().chance(20) ? -1 : rng().below(n+2); note_more(fmt("; v%d=v%d.slice(%ld,%ld)", d, a, at, l)); M e = sub(m,at,l); P.v[d] = A.slice(at,l); P.m[d] = e; break; }
	case 4: { if (n+nb > (long)big) break; note_more(fmt("; v%d=v%d+v%d", d, a, b)); M e = cat(m,mb); P.v[d] = A+B; P.m[d] = e; break; }
	case 5: { long i = rng().below(n+1), j = i+rng().below(n-i+1), l = j+rng().below(n-j+1); note_more(fmt("; v%d=v%d[%ld,%ld)+[%ld,%ld)", d, a, i,j,j,l)); M e = sub(m,i,l-i); Array<T> x = A.slice(i,j-i), y = A.slice(j,l-j); switch (rng().below(4)) { case 0: P.v[d] = x+y; break; case 1: x += y; P.v[d] = x; break; case 2: { long p = rng().below(l-j+1); y.insert(p, x); P.v[d] = y; e = cat(cat(sub(m,j,p),sub(m,i,j-i)),sub(m,j+p,l-j-p)); break; } default: y.insert(0, x); P.v[d] = y; } P.m[d] = e; break; }
	case 6: { if (n+nb > (long)big) break; note_more(fmt("; v%d+=v%d", a, b)); M e = cat(m,mb); A += B; m = e; break; }
	case 7: { if (n+nb > (long)big) break; note_more(fmt("; v%d.append(v%d)", a, b)); M e = cat(m,mb); A.append(B); m = e; break; }
	case 8: { if (n+1 > (long)big) break; note_more(fmt("; v%d.push(%d)", a, k)); A.push(mk(k)); m.push_back(k); break; }
	case 9: { if (!nb || n+1 > (long)big) break; long i = rng().below(nb); note_more(fmt("; v%d.push(v%d[%ld])", a, b, i)); int x = mb[i]; A.push(B.elem_ref(i)); m.push_back(x); break; }
	case 10: { if (!nb || n+1 > (long)big) break; long i = rng().below(nb); note_more(fmt("; v%d.unshift(v%d[%ld])", a, b, i)); int x = mb[i]; A.unshift(B.elem_ref(i)); m.insert(m.begin(), x); break; }
	case 11: { if (!n || !nb) break; long i = rng().below(n), j = rng().below(nb); note_more(fmt("; v%d.set(%ld, v%d[%ld])", a, i, b, j)); int x = mb[j]; T e = B[j]; A.set(i, e); m[i] = x; break; }
	case 12: { if (!n) break; long i = rng().below(n); note_more(fmt("; v%d.elem_mut(%ld)=%d", a, i, k)); A.elem_mut(i) = mk(k); m[i] = k; break; }
	case 13: { if (!n) break; note_more(fmt("; v%d.last_mut()=%d", a, k)); A.last_mut() = mk(k); m.back() = k; break; }
	case 14: case 15: { if (n+nb > (long)big) break; long p = rng().below(n+1); note_more(fmt("; v%d.insert(%ld,v%d)", a, p, b)); M e = cat(cat(sub(m,0,p),mb),sub(m,p,-1)); A.insert(p, B); m = e; break; }
	case 16: { long p = rng().below(n+1), i = rng().below(n+1), l = rng().below(n-i+1); if (n+l > (long)big) break; note_more(fmt("; v%d.insert(%ld,own[%ld,+%ld])", a, p, i, l)); M e = cat(cat(sub(m,0,p),sub(m,i,l)),sub(m,p,-1)); A.insert(p, A.slice(i,l)); m = e; break; }
	case 17: case 18: { long p = rng().below(n+1), l = rng().chance(20) ? -1 : rng().below(n-p+1); note_more(fmt("; v%d.remove(%ld,%ld)", a, p, l)); M e = cat(sub(m,0,p), l < 0 ? M() : sub(m,p+l,-1)); A.remove(p,l); m = e; break; }
	case 19: { if (!n) break; int w = rng().below(3); long i = rng().below(n); note_more(fmt("; v%d.%s(%ld)", a, w == 0 ? "pull" : w == 1 ? "shift" : "delete_at", i)); int x; int want; M e = m; if (w == 0) { want = m.back(); e.pop_back(); x = key(A.pull()); } else if (w == 1) { want = m[0]; e.erase(e.begin()); x = key(A.shift()); } else { want = m[i]; e.erase(e.begin()+i); x = key(A.delete_at(i)); } if (x != want) fail(fmt("%d was returned, expected %d", x, want)); m = e; break; }
	case 20: { note_more(fmt("; v%d.reverse", a)); A.reverse(); std::reverse(m.begin(), m.end()); break; }
	case 21: { note_more(fmt("; v%d.delete_if(%d)", a, k)); Array<T> keep; if (rng().chance(30)) keep = A; M old = m; A.delete_if([&](const T& t) { return key(t) == k; }); m.erase(std::remove(m.begin(), m.end(), k), m.end()); if (keep.length()) same(keep, old, "a copy"); break; }
	case 22: { note_more(fmt("; v%d.clear", a)); A.clear(); m.clear(); break; }
	case 23: { note_more(fmt("; v%d=v%d.select(>=%d)", d, a, k)); M e; for (int x : m) if (x >= k) e.push_back(x); P.v[d] = A.select([&](const T& t) { return key(t) >= k; }); P.m[d] = e; break; }
	case 24: { note_more(fmt("; v%d=v%d.map(+%d)", d, a, k)); M e; for (int x : m) e.push_back((x+k)%P.range); P.v[d] = A.template map<Array<T>, T>([&](const T& t) { return mk((key(t)+k)%P.range); }); P.m[d] = e; break; }
	case 25: {	// iterate over one while changing another that shares its body
		if (a == b || n+nb > (long)big) break; note_more(fmt("; v%d each pushed to v%d", a, b)); M e = cat(mb,m); A.each([&](const T& t) { B.push(t); }); mb = e; break; }
	case 26: {	// iterate over a copy while changing the original
		if (2*n > (long)big) break; note_more(fmt("; v%d doubled while iterating", a)); M e = cat(m,m); Array<T> c = A; c.each([&](const T& t) { A.push(t); }); m = e; same(c, sub(e,0,n), "the copy iterated"); break; }
	case 27: { long c = rng().below(n+1); note_more(fmt("; v%d=v%d.drop(%ld)", d, a, c)); M e = sub(m,c,-1); P.v[d] = A.drop(c); P.m[d] = e; break; }
	case 28: { if (n+1 > (long)big) break; note_more(fmt("; v%d=v%d+%d", d, a, k)); M e = cat(m,M{k}); P.v[d] = A+mk(k); P.m[d] = e; break; }
	case 29: {	// grow one at a time, past several reallocations
		note_more(fmt("; v%d grown", a)); Array<T> c; if (rng().chance(50)) c = A; M old = m; while (m.size() < big) { int x = m.size()%P.range; A.push(mk(x)); m.push_back(x); } if (c.length()) same(c, old, "a copy"); if (rng().chance(80)) { A.remove(8); m.resize(8); } break; }
	}
}
template<class T> void a02()
{
	size_t before = heap_bytes(); long live = El::live; long steps;
	{
		Pool<T> P; P.range = 8; int k = rng().range(2,5); note(fmt("%s", Kit<T>::name()));
		for (int i = 0; i < k; i++) { M u = P.vals(8); note_more(fmt(" v%d=%s", i, show(u).c_str())); P.m.push_back(u); P.v.push_back(P.make(u)); }
		steps = rng().range(5,70);
		for (int i = 0; i < steps; i++) { astep(P); P.verify("after an operation"); }
		P.done();
	}
	if (El::live != live) fail(fmt("%ld elements were not destroyed", El::live-live));
	size_t after = heap_bytes();
	VH_REQUIRE(after == before, fmt("%ld bytes leaked", (long)(after-before)));
	seen(hash_str(st().casetext), steps > 5); sample(st().casetext);
}
CHECK(A02)
{
	while (next_case(VH_N(60000), 1200000)) {
		long made = El::made;
		switch (rng().below(4)) { case 0: a02<int>(); break; case 1: a02<StrVal>(); break; default: a02<El>(); break; }
		cover("cases_balanced_heap"); cover("elements_constructed", El::made-made);
	}
}

// ---- M01: CowMap against std::map
template<class V, class K> struct MPool {
	typedef CowMap<V,K> C; typedef std::map<int,int> MM;
	std::vector<C> v; std::vector<MM> m; long hits = 0, misses = 0, changed = 0;
	static std::string show(const MM& x) { std::string s = "{"; for (auto& p : x) s += fmt("%s%d:%d", s.size() > 1 ? "," : "", p.first, p.second); return s+"}"; }
	void same(C& c, const MM& e, const std::string& what)
	{
		if (c.size() != e.size()) fail(fmt("%s: size %zu, expected %zu", what.c_str(), c.size(), e.size()));
		auto i = c.begin(); for (auto& p : e) { if (i == c.end()) fail(what+": iteration ended early"); if (Kit<K>::key(i->first) != p.first || Kit<V>::key(i->second) != p.second) fail(what+fmt(": %d:%d, expected %d:%d of ", Kit<K>::key(i->first), Kit<V>::key(i->second), p.first, p.second)+show(e)); i++; }
		if (i != c.end()) fail(what+": iteration goes on");
	}
	void verify(const std::string& what) { for (size_t i = 0; i < v.size(); i++) same(v[i], m[i], what+fmt(": map %zu", i)); }
	void step()
	{
		auto mkk = [](int k) { return Kit<K>::mk(k); }; auto mkv = [](int k) { return Kit<V>::mk(k); }; auto kk = [](const K& k) { return Kit<K>::key(k); }; auto kv = [](const V& k) { return Kit<V>::key(k); };
		int a = rng().below(v.size()), b = rng().below(v.size()), d = rng().below(v.size()); C& A = v[a]; MM& x = m[a]; int k = rng().below(9), w = rng().below(7);
		switch (rng().below(25)) {
		case 0: case 1: case 2: case 3: { note_more(fmt("; m%d.put(%d,%d)", a, k, w)); K r = A.put(mkk(k), mkv(w)); if (kk(r) != k) fail("put returned another key"); x[k] = w; break; }
		case 4: case 5: note_more(fmt("; m%d.insert(%d,%d)", a, k, w)); A.insert(mkk(k), mkv(w)); x.insert({k,w}); break;
		case 6: case 7: note_more(fmt("; m%d.remove(%d)", a, k)); A.remove(mkk(k)); x.erase(k); break;
		case 8: { note_more(fmt("; m%d=m%d", d, a)); MM e = x; v[d] = A; m[d] = e; break; }
		case 9: { note_more(fmt("; m%d=copy", d)); MM e = x; C c(A); v[d] = c; m[d] = e; break; }
		case 10: if (rng().chance(30)) { note_more(fmt("; m%d.clear", a)); A.clear(); x.clear(); } break;
		case 11: {	// arguments that are its own contents
			if (x.empty()) break; int i = rng().below(x.size()), j = rng().below(x.size()); auto p = A.begin(); auto q = A.begin(); while (i--) p++; while (j--) q++;
			int pk = kk(p->first), qv = kv(q->second); note_more(fmt("; m%d.put(own key %d, own value %d)", a, pk, qv)); K r = A.put(p->first, q->second); if (kk(r) != pk) fail("put returned another key"); x[pk] = qv; break; }
		case 12: { if (x.empty()) break; int i = rng().below(x.size()); auto p = A.begin(); while (i--) p++; int pk = kk(p->first); note_more(fmt("; m%d.remove(own key %d)", a, pk)); A.remove(p->first); x.erase(pk); break; }
		case 13: {	// change the original while iterating over a copy
			note_more(fmt("; m%d changed while iterating a copy", a)); C c = A; MM old = x; for (auto i = c.begin(); i != c.end(); i++) { int q = kk(i->first); if (q%3 == 0) { A.remove(i->first); x.erase(q); } else { A.put(i->first, mkv((q+w)%7)); x[q] = (q+w)%7; } } same(c, old, "the copy iterated"); break; }
		case 14: { note_more(fmt("; m%d=m%d.select(>%d)", d, a, k)); MM e; for (auto& p : x) if (p.first > k || p.second == w) e.insert(p); v[d] = A.select([&](const K& q, const V& r) { return kk(q) > k || kv(r) == w; }); m[d] = e; break; }
		case 15: { note_more(fmt("; m%d=m%d.map(+%d)", d, a, w)); MM e; for (auto& p : x) e[p.first/2] = (p.second+w)%7; v[d] = A.template map<V,K>([&](const K& q, const V& r) { return std::make_pair(mkk(kk(q)/2), mkv((kv(r)+w)%7)); }); m[d] = e; break; }
		case 16: { note_more(fmt("; m%d.keys/values", a)); Array<K> ks = A.keys(); Array<V> vs = A.values(); M ek, ev; for (auto& p : x) { ek.push_back(p.first); ev.push_back(p.second); } ::same(ks, ek, "keys"); ::same(vs, ev, "values"); break; }
		case 17: { M e, g; A.each([&](const K& q, const V& r) { g.push_back(kk(q)); g.push_back(kv(r)); }); for (auto& p : x) { e.push_back(p.first); e.push_back(p.second); } if (e != g) fail("each"); int s = A.template inject<int>(7, [&](int& acc, const K& q, const V& r) { return acc%9973*31+kk(q)*5+kv(r); }); int es = 7; for (auto& p : x) es = es%9973*31+p.first*5+p.second; if (s != es) fail("inject"); break; }
		case 18: { auto f = [&](const K& q, const V& r) { return kk(q) < k && kv(r) != w; }; int c = 0; for (auto& p : x) c += p.first < k && p.second != w; if (A.any(f) != (c > 0) || A.all(f) != (c == (int)x.size()) || A.one(f) != (c == 1)) fail("any, all or one"); break; }
		case 19: { std::vector<K> ks; std::vector<V> vs; MM e; int n = rng().below(8); note_more(fmt("; m%d={", d)); for (int i = 0; i < n; i++) { int q = rng().below(9), r = rng().below(7); ks.push_back(mkk(q)); vs.push_back(mkv(r)); e.insert({q,r}); note_more(fmt("%d:%d ", q, r)); } note_more("}"); v[d] = C(ks.data(), vs.data(), n); m[d] = e; break; }
		case 20: { note_more("; self"); C& me = A; A = me; break; }
		case 21: {	// a functional method whose function changes the map: it goes on over the associations there were
			int how = rng().below(7), stop = rng().below(10), p = rng().range(5,90); MM old = x, es; M g, e; bool shared = rng().chance(30); C other; if (shared) other = A; int n = 0;
			note_more(fmt("; m%d changed by the function given to its %s%s", a, (const char*[]){"each","inject","all","any","one","select","map"}[how], shared ? ", shared" : ""));
			auto change = [&]() {
				if (!rng().chance(p)) return; changed++;
				int q = rng().below(9), r = rng().below(7);
				switch (rng().below(6)) { case 0: case 1: A.put(mkk(q), mkv(r)); x[q] = r; break; case 2: A.insert(mkk(q), mkv(r)); x.insert({q,r}); break; case 3: case 4: A.remove(mkk(q)); x.erase(q); break; default: A.clear(); x.clear(); }
			};
			auto f = [&](const K& q, const V& r) { change(); g.push_back(kk(q)); g.push_back(kv(r)); return n++; };
			size_t visit = old.size();	// how many must be visited
			switch (how) {
			case 0: A.each([&](const K& q, const V& r) { f(q, r); }); break;
			case 1: { int c = A.template inject<int>(3, [&](int& acc, const K& q, const V& r) { f(q, r); return acc+1; }); if (c != 3+(int)old.size()) fail("inject of a changing map"); break; }
			case 2: { bool b = A.all([&](const K& q, const V& r) { return f(q, r) != stop; }); if (b != (stop >= (int)old.size())) fail("all of a changing map"); if (!b) visit = stop+1; break; }
			case 3: { bool b = A.any([&](const K& q, const V& r) { return f(q, r) == stop; }); if (b != (stop < (int)old.size())) fail("any of a changing map"); if (b) visit = stop+1; break; }
			case 4: { bool b = A.one([&](const K& q, const V& r) { return f(q, r) == stop; }); if (b != (stop < (int)old.size())) fail("one of a changing map"); break; }
			case 5: { C c = A.select([&](const K& q, const V& r) { return f(q, r)%2 == 0; }); int i = 0; for (auto& z : old) if (i++%2 == 0) es.insert(z); same(c, es, "select of a changing map"); break; }
			default: { C c = A.template map<V,K>([&](const K& q, const V& r) { f(q, r); return std::make_pair(q, r); }); same(c, old, "map of a changing map"); } }
			for (auto& z : old) if (visit) { visit--; e.push_back(z.first); e.push_back(z.second); }
			if (e != g) fail("a functional method visited other associations than there were when it began");
			if (shared) same(other, old, "the map sharing the body"); break; }
		default: {	// lookups
			auto i = x.find(k); bool has = i != x.end(); if (A.contains(mkk(k)) != has) fail(fmt("contains(%d)", k)); int g = kv(A[mkk(k)]); if (has ? g != i->second : g != kv0()) fail(fmt("[%d] = %d", k, g)); auto f = A.find(mkk(k)); if ((f != A.end()) != has || (has && kv(f->second) != i->second)) fail(fmt("find(%d)", k)); (has ? hits : misses)++; break; }
		}
		(void)b;
	}
	static int kv0();
};
template<> int MPool<int,int>::kv0() { return 0; }
template<> int MPool<El,StrVal>::kv0() { return 0; }
template<> int MPool<El,El>::kv0() { return 0; }
template<class V, class K> void m01()
{
	long hits, misses, changed;
	size_t before = heap_bytes(); long live = El::live; long steps = rng().range(5,80);
	{
		MPool<V,K> P; int k = rng().range(2,4); note(fmt("%d maps", k)); P.v.resize(k); P.m.resize(k);
		for (int i = 0; i < steps; i++) { P.step(); P.verify("after an operation"); }
		hits = P.hits; misses = P.misses; changed = P.changed;
	}
	if (El::live != live) fail(fmt("%ld values were not destroyed", El::live-live));
	size_t after = heap_bytes(); VH_REQUIRE(after == before, fmt("%ld bytes leaked", (long)(after-before)));
	cover("lookup_hit", hits); cover("lookup_miss", misses); cover("changed_inside", changed); seen(hash_str(st().casetext), steps > 10); sample(st().casetext);
}
CHECK(M01)
{
	while (next_case(VH_N(150000), 3000000)) switch (rng().below(3)) { case 0: m01<int,int>(); break; case 1: m01<El,StrVal>(); break; default: m01<El,El>(); break; }
}

// ---- Variants
struct MV {
	Variant::VariantType t = Variant::None; long long n = 0; U s; std::vector<U> sa; std::vector<MV> va; std::map<U,MV> vm;
	size_t nodes() const { size_t c = 1+sa.size(); for (auto& x : va) c += x.nodes(); for (auto& x : vm) c += x.second.nodes(); return c; }
	int depth() const { int c = 0; for (auto& x : va) c = std::max(c, x.depth()); for (auto& x : vm) c = std::max(c, x.second.depth()); return c+1; }
};
static const char* tnames[] = { "None","Integer","Long","LongLong","String","StrArray","VarArray","StrVarMap" };
static std::string show(const MV& m)
{
	switch (m.t) {
	case Variant::None: return "null"; case Variant::Integer: return fmt("i%lld", m.n); case Variant::Long: return fmt("l%lld", m.n); case Variant::LongLong: return fmt("ll%lld", m.n);
	case Variant::String: return "'"+esc(u8::enc(m.s))+"'";
	case Variant::StrArray: { std::string s = "S["; for (auto& x : m.sa) s += "'"+esc(u8::enc(x))+"' "; return s+"]"; }
	case Variant::VarArray: { std::string s = "["; for (auto& x : m.va) s += show(x)+" "; return s+"]"; }
	default: { std::string s = "{"; for (auto& x : m.vm) s += "'"+esc(u8::enc(x.first))+"':"+show(x.second)+" "; return s+"}"; }
	}
}
static void same(const StrVal& s, const U& m, const char* what)
{
	StrValIndex nb; const char* p = s.asUTF8(nb); std::string e = u8::enc(m);
	if (s.length() != m.size() || nb != e.size() || (nb && memcmp(p, e.data(), nb))) fail(fmt("%s: '%s', expected '%s'", what, esc(std::string(p ? p : "", p ? nb : 0)).c_str(), esc(e).c_str()));
}
static void same(const Variant& v, const MV& m, const char* what)
{
	if (v.type() != m.t) fail(fmt("%s: type %s, expected %s", what, v.type_name(), tnames[m.t]));
	if (v.is_null() != (m.t == Variant::None)) fail("is_null");
	if (strcmp(v.type_name(), tnames[m.t])) fail("type_name");
	switch (m.t) {
	case Variant::None: break;
	case Variant::Integer: if (v.as_int() != m.n) fail(fmt("%s: %d, expected %lld", what, v.as_int(), m.n)); break;
	case Variant::Long: if (v.as_long() != m.n) fail(fmt("%s: %ld, expected %lld", what, v.as_long(), m.n)); break;
	case Variant::LongLong: if (v.as_longlong() != m.n) fail(fmt("%s: %lld, expected %lld", what, v.as_longlong(), m.n)); break;
	case Variant::String: same(v.as_strval(), m.s, what); break;
	case Variant::StrArray: { StringArray a = v.as_string_array(); if (a.length() != m.sa.size()) fail(fmt("%s: %u strings, expected %zu", what, a.length(), m.sa.size())); for (size_t i = 0; i < m.sa.size(); i++) same(StrVal(a[i]), m.sa[i], what); break; }
	case Variant::VarArray: { VariantArray a = v.as_variant_array(); if (a.length() != m.va.size()) fail(fmt("%s: %u elements, expected %zu", what, a.length(), m.va.size())); for (size_t i = 0; i < m.va.size(); i++) same(a.elem_ref(i), m.va[i], what); break; }
	default: { StrVariantMap a = v.as_variant_map(); if (a.size() != m.vm.size()) fail(fmt("%s: %zu entries, expected %zu", what, a.size(), m.vm.size())); for (auto& x : m.vm) { auto f = a.find(StrVal(u8::enc(x.first).data(), u8::enc(x.first).size())); if (f == a.end()) fail(std::string(what)+": a key is missing"); same(f->first, x.first, what); same(f->second, x.second, what); } }
	}
}
static U vtext(int maxlen)
{
	static const U al = U"ab01-\"\\/\n\u00E9\u20AC\U0001F600"; U u; int n = rng().below(maxlen+1); for (int i = 0; i < n; i++) u += al[rng().below(al.size())]; return u;
}
static long long vnum(Variant::VariantType t)
{
	static const std::vector<long long> lim = { 0,1,-1,9,10,127,INT32_MAX,INT32_MIN,(long long)INT32_MAX+1,(long long)INT32_MIN-1,(long long)UINT32_MAX,(long long)UINT32_MAX+1,INT64_MAX,INT64_MIN,INT64_MAX-1,INT64_MIN+1,1234567890123456789LL };
	long long n = rng().chance(60) ? rng().pick(lim) : rng().chance(50) ? rng().range(-99999,99999) : (long long)rng().next();
	return t == Variant::Integer ? (int)n : n;
}
static StrVal sv(const U& u) { std::string e = u8::enc(u); return StrVal(e.data(), (StrValIndex)e.size()); }
static MV gen(int depth, bool small)
{
	MV m; m.t = (Variant::VariantType)(depth > 0 && rng().chance(50) ? rng().range(5,7) : rng().below(depth > 0 ? 8 : 6));
	switch (m.t) {
	case Variant::None: break;
	case Variant::Integer: case Variant::Long: case Variant::LongLong: m.n = vnum(m.t); break;
	case Variant::String: m.s = vtext(6); break;
	case Variant::StrArray: { int n = rng().below(4); for (int i = 0; i < n; i++) m.sa.push_back(vtext(4)); break; }
	case Variant::VarArray: { int n = rng().below(small ? 3 : 5); for (int i = 0; i < n; i++) m.va.push_back(gen(depth-1, small)); break; }
	default: { int n = rng().below(small ? 3 : 5); for (int i = 0; i < n; i++) m.vm[vtext(3)] = gen(depth-1, small); break; }
	}
	return m;
}
static Variant make(const MV& m)
{
	switch (m.t) {
	case Variant::None: return rng().chance(50) ? Variant() : Variant(Variant::None);
	case Variant::Integer: { if (m.n == 0 && rng().chance(50)) return Variant(Variant::Integer); return Variant((int)m.n); }
	case Variant::Long: { if (m.n == 0 && rng().chance(50)) return Variant(Variant::Long); return Variant((long)m.n); }
	case Variant::LongLong: { if (m.n == 0 && rng().chance(50)) return Variant(Variant::LongLong); return Variant((long long)m.n); }
	case Variant::String: { if (m.s.empty() && rng().chance(50)) return Variant(Variant::String); if (rng().chance(50)) { std::string e = u8::enc(m.s); return Variant(e.c_str()); } return Variant(sv(m.s)); }
	case Variant::StrArray: { if (m.sa.empty() && rng().chance(50)) return Variant(Variant::StrArray); if (rng().chance(50)) { std::vector<StrVal> x; for (auto& u : m.sa) x.push_back(sv(u)); return Variant(x.data(), (StringArray::Index)x.size()); } StringArray a; for (auto& u : m.sa) a.append(StrRef(sv(u))); return Variant(a); }
	case Variant::VarArray: { if (m.va.empty() && rng().chance(50)) return Variant(Variant::VarArray); if (rng().chance(50)) { std::vector<Variant> x; for (auto& u : m.va) x.push_back(make(u)); return Variant(x.data(), (VariantArray::Index)x.size()); } VariantArray a; for (auto& u : m.va) a.append(make(u)); return Variant(a); }
	default: { if (m.vm.empty() && rng().chance(50)) return Variant(Variant::StrVarMap);
		switch (rng().below(3)) {
		case 0: { std::vector<StrVal> k; std::vector<Variant> x; for (auto& u : m.vm) { k.push_back(sv(u.first)); x.push_back(make(u.second)); } return Variant(k.data(), x.data(), (StringArray::Index)k.size()); }
		case 1: { std::vector<StrVal> k; std::vector<Variant> x; for (auto& u : m.vm) { k.push_back(sv(u.first)); x.push_back(make(u.second)); } StrVariantMap mp(k.data(), x.data(), k.size()); return Variant(mp); }
		default: { StrVariantMap mp; for (auto& u : m.vm) mp.put(sv(u.first), make(u.second)); return Variant(mp); }
		} }
	}
}
static std::string dec(long long n) { return fmt("%lld", n); }

// What coercion must give: true if it is possible
static bool coerced(const MV& m, Variant::VariantType t, MV& e)
{
	if (m.t == t) { e = m; return true; }
	e = MV(); e.t = t;
	bool num = m.t >= Variant::Integer && m.t <= Variant::LongLong;
	if (t >= Variant::Integer && t <= Variant::LongLong) {
		if (num) { e.n = m.n; return t != Variant::Integer || (int)m.n == m.n; }
		if (m.t == Variant::String) { int32_t v; bool vk, sk; size_t sc; int r = ref_int(m.s, 0, v, vk, sc, sk); e.n = v; return r == OK; }
		return false;
	}
	if (t == Variant::String && num) { std::string d = dec(m.n); e.s = U(d.begin(), d.end()); return true; }
	return false;
}
static void do_coerce(Variant& v, Variant::VariantType t, MV& got)	// coerce, and report what was obtained
{
	got = MV(); got.t = t;
	switch (t) {
	case Variant::Integer: got.n = v.as_int(); break; case Variant::Long: got.n = v.as_long(); break; case Variant::LongLong: got.n = v.as_longlong(); break;
	case Variant::String: { StrVal s = v.as_strval(); StrValIndex nb; const char* p = s.asUTF8(nb); got.s = u8::dec(std::string(p ? p : "", p ? nb : 0)); break; }
	case Variant::StrArray: { StringArray a = v.as_string_array(); for (unsigned i = 0; i < a.length(); i++) got.sa.push_back(U()); break; }
	case Variant::VarArray: { VariantArray a = v.as_variant_array(); got.va.resize(a.length()); break; }
	default: { StrVariantMap a = v.as_variant_map(); break; }
	}
}

CHECK(V01)
{
	vtext(1); vnum(Variant::Long);		// (initialise statics outside the measured scope)
	while (next_case(VH_N(200000), 4000000)) {
		long finals[8] = {}, coercions = 0;
		size_t before = heap_bytes();
		{
			int k = rng().range(2,5); std::vector<Variant> v; std::vector<MV> m; note("variants");
			for (int i = 0; i < k; i++) { m.push_back(gen(2, true)); v.push_back(make(m.back())); note_more(fmt(" v%d=", i)+show(m.back())); }
			int steps = rng().range(5,40);
			for (int i = 0; i < steps; i++) {
				int a = rng().below(k), b = rng().below(k), d = rng().below(k); Variant& A = v[a]; MV& x = m[a];
				switch (rng().below(17)) {
				case 0: { MV e = gen(2, true); note_more(fmt("; v%d=", d)+show(e)); v[d] = make(e); m[d] = e; break; }
				case 1: { note_more(fmt("; v%d=v%d", d, a)); MV e = x; v[d] = A; m[d] = e; break; }
				case 2: { note_more(fmt("; v%d=copy of v%d", d, a)); MV e = x; Variant c(A); same(c, e, "a copy"); v[d] = c; m[d] = e; break; }
				case 3: { note_more(fmt("; v%d=v%d", a, a)); Variant& s = A; A = s; break; }
				case 4: {	// put one inside another
					if (x.nodes()+m[b].nodes() > 60 || x.depth() > 6 || m[b].depth() > 6) break; note_more(fmt("; v%d=[v%d,v%d]", d, a, b)); MV e; e.t = Variant::VarArray; e.va.push_back(x); e.va.push_back(m[b]); VariantArray r = A << v[b]; v[d] = r; m[d] = e; break; }
				case 5: {	// replace a container by one of its elements
					if (x.t == Variant::VarArray && x.va.size()) { int i = rng().below(x.va.size()); note_more(fmt("; v%d=its element %d", a, i)); MV e = x.va[i]; A = A.as_variant_array().elem_ref(i); m[a] = e; }
					else if (x.t == Variant::StrVarMap && x.vm.size()) { int i = rng().below(x.vm.size()); auto it = x.vm.begin(); while (i--) it++; MV e = it->second; note_more(fmt("; v%d=an entry", a)); StrVariantMap mp = A.as_variant_map(); A = mp[sv(it->first)]; m[a] = e; }
					break; }
				case 6: {	// mutate a copy of the contents: the variant must not change
					note_more(fmt("; mutate a copy of v%d's contents", a));
					if (x.t == Variant::VarArray) { VariantArray r = A.as_variant_array(); r << 1; if (r.length() > 1) { r.elem_mut(0) = Variant("changed"); r.remove(0,1); } }
					else if (x.t == Variant::StrVarMap) { StrVariantMap r = A.as_variant_map(); r.put("new", 7); for (auto& p : x.vm) r.put(sv(p.first), 8); r.clear(); }
					else if (x.t == Variant::StrArray) { StringArray r = A.as_string_array(); r.append(StrRef("x")); r.elem_mut(0) = StrRef("y"); }
					else if (x.t == Variant::String) { StrVal r = A.as_strval(); r += "!"; r.toUpper(); r.insert(0, "z"); }
					break; }
				case 7: {	// change in place
					long long n = vnum(x.t); note_more(fmt("; v%d changed in place", a));
					if (x.t == Variant::Integer) { A.as_int() = (int)n; x.n = (int)n; } else if (x.t == Variant::Long) { A.as_long() = n; x.n = n; } else if (x.t == Variant::LongLong) { A.as_longlong() = n; x.n = n; }
					break; }
				case 8: case 9: {	// coerce, where it's possible
					auto t = (Variant::VariantType)rng().range(Variant::Integer, Variant::StrVarMap); MV e; if (!coerced(x, t, e)) break; note_more(fmt("; v%d coerced to %s", a, tnames[t])); MV g; do_coerce(A, t, g); x = e; coercions++; break; }
				case 10: { if (x.t != Variant::VarArray || x.nodes()+m[b].nodes() > 60 || m[b].depth() > 6) break; note_more(fmt("; v%d << v%d", a, b)); MV e = m[b]; VariantArray r = A.as_variant_array(); r << v[b]; A = r; x.va.push_back(e); break; }
				case 11: { if (x.t != Variant::StrVarMap || x.nodes()+m[b].nodes() > 60 || m[b].depth() > 6) break; U key = vtext(3); note_more(fmt("; v%d put '%s' v%d", a, esc(u8::enc(key)).c_str(), b)); MV e = m[b]; StrVariantMap r = A.as_variant_map(); r.put(sv(key), v[b]); A = r; x.vm[key] = e; break; }
				case 12: { if (x.t != Variant::VarArray) break; note_more(fmt("; v%d through a vector", a)); std::vector<Variant> tmp; for (int i = 0; i < 9; i++) tmp.push_back(A); for (auto& t : tmp) same(t, x, "a copy in a vector"); tmp.erase(tmp.begin()+2); for (auto& t : tmp) same(t, x, "a copy in a vector"); break; }
				case 13: { note_more(fmt("; swap v%d v%d", a, b)); std::swap(v[a], v[b]); if (a != b) std::swap(m[a], m[b]); break; }
				case 14: { note_more(fmt("; v%d=none", a)); A = Variant(); x = MV(); break; }
				case 15: { auto t = (Variant::VariantType)rng().below(8); note_more(fmt("; v%d=default %s", a, tnames[t])); A = Variant(t); x = MV(); x.t = t; break; }
				case 16: { if (x.t != Variant::String) break; note_more(fmt("; v%d=string array", d)); MV e; e.t = Variant::StrArray; e.sa.push_back(x.s); e.sa.push_back(x.s); StringArray sa; sa << StrRef(A.as_strval()); sa << StrRef(A.as_strval()); v[d] = Variant(sa); m[d] = e; break; }
				}
				for (int i = 0; i < k; i++) same(v[i], m[i], "after an operation");
			}
			for (auto& x : m) finals[x.t]++;
		}
		size_t after = heap_bytes(); VH_REQUIRE(after == before, fmt("%ld bytes leaked", (long)(after-before)));
		cover("coercions", coercions); for (int t = 0; t < 8; t++) if (finals[t]) cover(std::string("final_")+tnames[t], finals[t]);
		seen(hash_str(st().casetext)); sample(st().casetext);
	}
}

// ---- V02: coercion between every pair of types
static std::string num_text()
{
	static const std::vector<long long> near = { 0, 1, 7, 8, 255, 2147483647LL, 2147483648LL, 4294967295LL, 9223372036854775807LL };
	std::string s; long long n = rng().pick(near); if (n > 1 && n < 9223372036854775807LL) n += rng().range(-1,1);
	if (rng().chance(15)) s += " ";
	if (rng().chance(40)) s += rng().chance(50) ? "-" : "+";
	switch (rng().below(5)) { case 0: s += fmt("0x%llX", n); break; case 1: s += fmt("0%llo", n); break; case 2: s += "0b"; for (int i = rng().below(34); i >= 0; i--) s += rng().chance(50) ? '1' : '0'; break; default: s += fmt("%lld", n); }
	if (rng().chance(10)) s += " "; if (rng().chance(10)) s += "z"; if (rng().chance(4)) s.clear(); if (rng().chance(4)) s += "99999"; if (rng().chance(4)) s = rng().chance(50) ? "-" : "x";
	return s;
}
CHECK(V02)
{
	long forks = 0;
	while (next_case(VH_N(240000), 4000000)) {
		MV m;
		if (rng().chance(40)) { m.t = Variant::String; std::string s = num_text(); m.s = U(s.begin(), s.end()); if (rng().chance(5)) m.s += U"\u20AC"; }
		else if (rng().chance(80)) { m.t = (Variant::VariantType)rng().range(1,3); m.n = vnum(m.t); }
		else m = gen(1, true);
		auto t = (Variant::VariantType)rng().range(1,7);
		if (rng().chance(80)) t = (Variant::VariantType)rng().range(1,4);
		note("coerce "+show(m)+" to "+tnames[t]);
		MV e; bool can = coerced(m, t, e);
		Variant v = make(m), keep = v;
		if (can) {
			MV g; do_coerce(v, t, g); const Variant& c = v;
			if (m.t != t) { if (g.n != e.n || g.s != e.s) fail(fmt("coercion gave %s, expected %s", show(g).c_str(), show(e).c_str())); }
			same(c, e, "the coerced variant"); same(keep, m, "a copy made before");
			if (m.t >= Variant::Integer && m.t <= Variant::LongLong && t != m.t) {	// and back again
MV w, b; if (coerced(e, m.t, w)) { if (w.n != m.n) fail("(the model does not round-trip)"); do_coerce(v, m.t, b); same(c, w, "coerced back"); }}
			cover(fmt("%s_to_%s", tnames[m.t], tnames[t]));
		} else {
			if (forks >= (st().thorough ? 20000 : 900) && st().only < 0) continue;
			forks++;
			bool constant = rng().chance(15);
			int status = in_child([&]() { MV g; if (constant) { const Variant& c = v; switch (t) { case Variant::Integer: c.as_int(); break; case Variant::Long: c.as_long(); break; case Variant::LongLong: c.as_longlong(); break; case Variant::String: c.as_strval(); break; case Variant::StrArray: c.as_string_array(); break; case Variant::VarArray: c.as_variant_array(); break; default: c.as_variant_map(); } } else do_coerce(v, t, g); _exit(77); });
			if (WIFEXITED(status) && WEXITSTATUS(status) == 77) fail("an impossible coercion was not refused");
			if (!WIFSIGNALED(status) || WTERMSIG(status) != SIGABRT) fail(fmt("an impossible coercion ended with status %x", status));
			cover(fmt("refused_%s_to_%s", tnames[m.t], tnames[t]));
		}
		seen(hash_str(st().casetext)); sample(st().casetext);
	}
}

// ---- V03: JSON
static bool agrees(const JV& j, const MV& m, std::string& why)
{
	switch (m.t) {
	case Variant::None: if (j.t != JV::Null) { why = "not null"; return false; } return true;
	case Variant::Integer: case Variant::Long: case Variant::LongLong: if (j.t != JV::Num || j.num != dec(m.n)) { why = "number "+j.num+" for "+dec(m.n); return false; } return true;
	case Variant::String: if (j.t != JV::Str || j.str != m.s) { why = "string '"+esc(u8::enc(j.str))+"'"; return false; } return true;
	case Variant::StrArray: if (j.t != JV::Arr || j.arr.size() != m.sa.size()) { why = "string array size"; return false; } for (size_t i = 0; i < m.sa.size(); i++) if (j.arr[i].t != JV::Str || j.arr[i].str != m.sa[i]) { why = "string array element"; return false; } return true;
	case Variant::VarArray: if (j.t != JV::Arr || j.arr.size() != m.va.size()) { why = "array size"; return false; } for (size_t i = 0; i < m.va.size(); i++) if (!agrees(j.arr[i], m.va[i], why)) return false; return true;
	default: if (j.t != JV::Obj || j.obj.size() != m.vm.size()) { why = "object size"; return false; }
		{ std::set<U> keys; for (auto& o : j.obj) { auto f = m.vm.find(o.first); if (f == m.vm.end() || !keys.insert(o.first).second) { why = "object key"; return false; } if (!agrees(o.second, f->second, why)) return false; } } return true;
	}
}
CHECK(V03)
{
	while (next_case(VH_N(400000), 8000000)) {
		MV m = gen(rng().below(rng().chance(5) ? 7 : 4), false); int indent = rng().chance(30) ? -2 : rng().chance(40) ? -1 : (int)rng().below(4);
		note(fmt("as_json(%d) of ", indent)+show(m));
		Variant v = make(m); StrVal s = indent == -1 && rng().chance(50) ? v.as_json() : v.as_json(indent);
		StrValIndex nb; const char* p = s.asUTF8(nb); std::string txt(p, nb);
		JV j; JParser J(txt); if (!J.all(j)) fail("invalid JSON ("+J.why+fmt(" at byte %zu): ", J.i)+esc(txt));
		std::string why; if (!agrees(j, m, why)) fail("the JSON denotes another value ("+why+"): "+esc(txt));
		if (s.length() != u8::dec(txt).size()) fail("the length of the JSON is wrong");
		// layout: -2 is compact, -1 has single spaces on one line, n is indented by two spaces for each level
		if (indent == -2 && J.ws.size()) fail("white space in compact JSON: "+esc(txt));
		if (indent == -1) for (char c : J.ws) if (c != ' ') fail("a line break in single-line JSON: "+esc(txt));
		if (indent >= 0) {
			int depth = 0; bool str = false;
			for (size_t i = 0; i < txt.size(); i++) {
				char c = txt[i];
				if (str) { if (c == '\\') i++; else if (c == '"') str = false; continue; }
				if (c == '"') str = true; else if (c == '[' || c == '{') depth++; else if (c == ']' || c == '}') depth--;
				else if (c == '\n') {
					size_t k = i+1; while (k < txt.size() && txt[k] == ' ') k++;
					bool closes = k < txt.size() && (txt[k] == ']' || txt[k] == '}');
					size_t want = 2*(indent+depth-(closes ? 1 : 0));
					if (k-i-1 != want) fail(fmt("a line is indented by %zu spaces, expected %zu: ", k-i-1, want)+esc(txt));
					cover("indented_lines");
				}
			}
		}
		same(v, m, "the variant afterwards");
		cover(indent == -2 ? "compact" : indent == -1 ? "single_line" : "indented"); seen(hash_str(st().casetext), m.nodes() > 2); sample(st().casetext);
	}
}
