// FMindex: search, positions, recovered text against plain search; allocation failures
#include "util.hpp"
#include <new>
#include <sstream>
#include <algorithm>
static long g_failAt = -1, g_news;
static void *alloc(size_t n) { if (g_failAt >= 0 && g_news++ == g_failAt) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n) { return alloc(n); }
void *operator new[](size_t n) { return alloc(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#include <cybozu/fmindex.hpp>
template<class FM, class S> static void judge(const FM& f, const S& t, const std::vector<S>& keys, const char *how)
{
	const size_t n = t.size(); MC_CHECK(f.wm.size() == n + 1, "%s: size %llu", how, (unsigned long long)f.wm.size());
	// positions: a permutation, ordered as the suffixes are
	std::vector<size_t> at; std::vector<int> seen(n + 1); for (size_t i = 0; i <= n; i++) { size_t p = f.convertPosition(i); if (p > n || seen[p]++) { mc::fail("%s: convertPosition(%zu) is %zu", how, i, p); return; } at.push_back(p); }
	for (const S& k : keys) { std::set<size_t> e; for (size_t p = 0; p + k.size() <= n && k.size(); p++) if (std::equal(k.begin(), k.end(), t.begin() + p)) e.insert(p); size_t b = 777, en = 777; bool r = f.getRange(&b, &en, k); std::string ks; for (auto c : k) ks += mc::fmt("%x.", (unsigned)c);
		if (r != !e.empty()) { mc::fail("%s: key %s %s", how, ks.c_str(), r ? "found" : "not found"); continue; } if (!r) continue; std::set<size_t> g; for (size_t i = b; i < en && i <= n; i++) g.insert(at[i]); if (en - b != e.size() || g != e) mc::fail("%s: key %s found at %zu places instead of %zu, or at others", how, ks.c_str(), en - b, e.size()); }
	for (size_t i = 0; i <= n; i++) for (size_t len : { (size_t)0, (size_t)1, (size_t)2, n, n + 3 }) { S out; f.getPrevString(out, i, len); size_t b = at[i] > len ? at[i] - len : 0; if (out != S(t.begin() + b, t.begin() + at[i])) { mc::fail("%s: %zu characters before position %zu", how, len, at[i]); return; } }
}
template<class FM, class S> static void one(const S& t, int skip, const std::vector<S>& keys, FM& used)
{
	FM f; f.init(t.begin(), t.end(), skip); judge(f, t, keys, "init"); used.init(t.begin(), t.end(), skip); judge(used, t, keys, "init of a used index");
	std::stringstream ss; f.save(ss); std::string img = ss.str(); FM g; { std::stringstream s2(img); g.load(s2); } judge(g, t, keys, "load"); { std::stringstream s2(img); used.load(s2); } judge(used, t, keys, "load into a used index"); mc::eval(!t.empty());
}
typedef std::string Str; typedef std::vector<uint16_t> V16;
static std::vector<Str> keysOf(const Str& al, int n, const Str& t) { std::vector<Str> k; mc::forStr(al, n, [&](const Str& x) { k.push_back(x); }); k.push_back(t); k.push_back(t + al[0]); k.push_back("?"); if (t.size() > 1) { k.push_back(t.substr(1)); k.push_back(t.substr(0, t.size() - 1)); k.push_back(t.substr(0, 1) + "?"); } return k; }
template<class FM> static void texts(const char *nm, int n, bool zero)
{
	FM used; const Str al = "ab\xff";
	{ mc::Section s(std::string("texts ") + nm); mc::forStr(al, n, [&](const Str& t) { if (!s.pick()) return; for (int skip : { 1, 2, 3, 8 }) { mc::setWhat(nm + (" text " + mc::show(t)) + mc::fmt(" skip %d", skip)); one(t, skip, keysOf(al, 3, t), used); } }); }
	if (zero) { mc::Section s(std::string("texts with NUL ") + nm); const Str al2("\0a\xff", 3); mc::forStr(al2, n - 2, [&](const Str& t) { if (!s.pick()) return; for (int skip : { 1, 3 }) { mc::setWhat(nm + (" text " + mc::show(t)) + mc::fmt(" skip %d", skip)); one(t, skip, keysOf(al2, 3, t), used); } }); }
	{ mc::Section s(std::string("binary texts ") + nm); mc::forStr("xy", n + mc::tier(2, 3), [&](const Str& t) { if (!s.pick()) return; mc::setWhat(nm + (" text " + mc::show(t))); one(t, 3, keysOf("xy", 3, t), used); }); }
	{ mc::Section s(std::string("periodic ") + nm); for (int per = 1; per <= 7; per++) for (int len = 1; len <= mc::tier(80, 200); len += mc::tier(7, 1)) { if (!s.pick()) continue; Str t; for (int i = 0; i < len; i++) t += (char)('a' + (i % per) * (i % per) % 5); mc::what("%s period %d length %d", nm, per, len); one(t, 4, keysOf("abcde", 2, t), used); } }
	{ mc::Section s(std::string("alphabets ") + nm); for (int k = 1; k <= 256; k += mc::tier(5, 1)) { if (!s.pick()) continue; mc::what("%s alphabet of %d", nm, k); Str t; for (int r = 0; r < 2; r++) for (int i = 0; i < k; i++) t += (char)(255 - i); if (zero ? k > 255 : k > 255) { bool thr = false; FM f; try { f.init(t.begin(), t.end()); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "alphabet of %d accepted", k); mc::eval(); continue; } std::vector<Str> keys; for (int i = 1; i < 256; i += 3) { keys.push_back(Str(1, (char)i)); keys.push_back(Str(1, (char)i) + Str(1, (char)(i - 1))); } one(t, 8, keys, used); } }
}
void mc_main()
{
#ifdef CYBOZU_FMINDEX_USE_CSUCVECTOR
	if (!freopen("/dev/null", "w", stdout)) abort(); // CSucVector prints progress
	typedef cybozu::FMindexT<uint8_t> FM; FM used; mc::Section s("compressed"); std::vector<Str> T; mc::forStr("ab", mc::tier(3, 5), [&](const Str& t) { T.push_back(t); }); for (int per = 1; per < 5; per++) { Str t; for (int i = 0; i < 2500; i++) t += (char)('a' + (i % per) + (i % 700 == 0)); T.push_back(t); } T.push_back("abracadabra"); T.push_back(Str(64 * 33, 'z') + "a" + Str(64, 'z'));
	for (auto& t : T) { if (!s.pick()) continue; mc::setWhat("text " + mc::show(t)); FM f; f.init(t.begin(), t.end(), 4); mc::beat(); used.init(t.begin(), t.end(), 4); mc::beat(); std::vector<Str> K = keysOf("ab", 3, t); if (t.size() > 100) { K.resize(15); K.push_back(t.substr(5, 40)); } auto lite = [&](const FM& f, const char *how) { if (t.size() < 100) { judge(f, t, K, how); return; } for (auto& k : K) { std::set<size_t> e, g; for (size_t p = k.empty() ? Str::npos : t.find(k); p != Str::npos; p = t.find(k, p + 1)) e.insert(p); size_t b = 0, en = 0; if (f.getRange(&b, &en, k)) for (; b < en; b++) g.insert(f.convertPosition(b)); MC_CHECK(e == g, "%s: key found at %zu places instead of %zu", how, g.size(), e.size()); } Str o; f.getPrevString(o, 0, t.size()); MC_CHECK(o == t, "%s: text not recovered", how); }; lite(f, "init"); lite(used, "init of a used index"); std::stringstream ss; f.save(ss); FM g; g.load(ss); lite(g, "load"); mc::eval(!t.empty()); }
#else
	texts<cybozu::FMindexT<uint8_t> >("plain", mc::tier(6, 8), true); texts<cybozu::FMindexT<uint8_t, true> >("raw", mc::tier(6, 8), false);
	{ mc::Section s("16 bit"); typedef cybozu::FMindexT<uint16_t> FM; FM used; const uint16_t A[] = { 1, 0x100, 0xffff, 0 }; mc::forSeqUpTo(4, mc::tier(5, 6), [&](const std::vector<int>& q) { if (!s.pick()) return; V16 t; std::string w; for (int i : q) { t.push_back(A[i]); w += mc::fmt(" %x", A[i]); } mc::what("text%s", w.c_str()); std::vector<V16> keys; mc::forSeqUpTo(4, 3, [&](const std::vector<int>& k) { V16 x; for (int i : k) x.push_back(A[i]); keys.push_back(x); }); keys.push_back(V16(1, 7)); keys.push_back(t); one(t, 2, keys, used); FM cp(used); FM as; as = used; V16 z(3, 5); used.init(z.begin(), z.end()); judge(cp, t, keys, "copy"); judge(as, t, keys, "assignment"); }); }
	{ mc::Section s("16 bit raw"); typedef cybozu::FMindexT<uint16_t, true> FM; const uint16_t A[] = { 1, 0x100, 0xffff }; mc::forSeqUpTo(3, mc::tier(3, 4), [&](const std::vector<int>& q) { if (!s.pick()) return; V16 t; std::string w; for (int i : q) { t.push_back(A[i]); w += mc::fmt(" %x", A[i]); } mc::what("text%s", w.c_str()); std::vector<V16> keys; mc::forSeqUpTo(3, 2, [&](const std::vector<int>& k) { V16 x; for (int i : k) x.push_back(A[i]); keys.push_back(x); }); keys.push_back(V16(1, 7)); FM f; f.init(t.begin(), t.end(), 2); judge(f, t, keys, "init"); mc::eval(); }); }
	{ mc::Section s("refused"); for (int i = 0; i < 7; i++) { if (!s.pick()) continue; mc::what("case %d", i); bool thr = false; Str t(i < 5 ? "ab\0c" : "\0abc", 4); try { if (i >= 5) { cybozu::FMindexT<uint8_t, true> f; f.init(t.begin(), t.begin() + (i == 5 ? 1 : 4)); } else if (i < 2) { cybozu::FMindexT<uint8_t, true> f; f.init(t.begin(), t.begin() + (i ? 4 : 3)); } else { cybozu::FMindex f; f.init(t.begin(), t.end(), 2 - i); } } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr == true, "accepted"); mc::eval(); } }
	{ mc::Section s("large texts"); for (size_t n : { 65534, 65535, 65536, 65537, 70000, 140000 }) for (int kind = 0; kind < 4; kind++) { if (!s.pick()) continue; mc::what("text %d of %zu", kind, n); // positions and counts beyond 16 bit, far samples
		Str t; unsigned x = 1; for (size_t i = 0; i < n; i++) { if (kind == 0) t += 'a'; else if (kind == 1) t += (char)('a' + i % 3); else { x = x * 1103515245 + 12345; t += (char)(kind == 2 ? 'a' + (x >> 16) % 4 : 1 + (x >> 16) % 255); } } t[n / 2] = 'q'; t[n - 3] = 'w';
		std::vector<Str> K; for (size_t p : { (size_t)0, (size_t)1, n / 2 - 3, n / 2, n / 2 + 1, n - 8, n - 3 }) for (size_t l : { 1, 3, 5 }) if (p + l <= n) K.push_back(t.substr(p, l)); K.push_back("qw"); K.push_back(t.substr(n / 2 - 100, 300));
		auto lite = [&](const cybozu::FMindex& f, const char *how) { for (auto& k : K) { std::vector<size_t> e, g; for (size_t p = t.find(k); p != Str::npos; p = t.find(k, p + 1)) e.push_back(p); size_t b = 0, en = 0; bool r = f.getRange(&b, &en, k); MC_CHECK(r == !e.empty() && (!r || en - b == e.size()), "%s: key found at %zu places instead of %zu", how, en - b, e.size()); if (!r || e.size() > 30000) continue; for (; b < en; b++) g.push_back(f.convertPosition(b)); std::sort(g.begin(), g.end()); MC_CHECK(e == g, "%s: key of %zu bytes found at other places", how, k.size()); }
			Str o; f.getPrevString(o, 0, n); MC_CHECK(o == t, "%s: text not recovered", how); };
		cybozu::FMindex f; f.init(t.begin(), t.end(), kind == 1 ? 1000 : 8); mc::beat(); lite(f, "init"); mc::beat(); std::stringstream ss; f.save(ss); cybozu::FMindex g; g.load(ss); lite(g, "load"); mc::beat();
		if (kind != 3) { cybozu::FMindexT<uint8_t, true> r; r.init(t.begin(), t.end(), 8); size_t b = 0, en = 0; Str k = "q"; MC_CHECK(r.getRange(&b, &en, k) && en == b + 1 && r.convertPosition(b) == n / 2, "raw: q"); }
		mc::eval(); } }
	{ mc::Section s("allocation failures"); for (const char *x : { "", "a", "abracadabra", "mississippimississippi" }) for (int k = 0; k < 400; k++) { if (!s.pick()) continue; mc::what("text %s, allocation %d fails", x, k); Str t = x; { cybozu::FMindex f; bool thr = false; g_news = 0; g_failAt = k; try { f.init(t.begin(), t.end()); } catch (std::exception&) { thr = true; } bool hit = g_news > g_failAt; g_failAt = -1; MC_CHECK(thr == hit, "allocation %s, init %s", hit ? "failed" : "did not fail", thr ? "throws" : "returns"); mc::eval(hit); if (!thr) judge(f, t, keysOf("abs", 2, t), "init"); } } }
#endif
}
