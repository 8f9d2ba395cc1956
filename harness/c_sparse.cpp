// SparseVector (plain and compressed positions), Intersection, Union, InnerProduct, TopScore
#include "util.hpp"
#include <sstream>
#include <algorithm>
#include <cybozu/nlp/sparse.hpp>
#include <cybozu/nlp/top_score.hpp>
using namespace cybozu::nlp;
typedef std::vector<std::pair<size_t, int> > Ref;
template<class V> static void judge(const V& v, const Ref& r, const char *how)
{
	MC_CHECK(v.size() == r.size() && v.empty() == r.empty(), "%s: size %zu, expected %zu", how, v.size(), r.size()); size_t k = 0; typename V::const_iterator i = v.begin(), e = v.end(); for (; i != e; ++i) { if (k >= r.size()) { MC_CHECK(false, "%s: iteration too long", how); return; } MC_CHECK(i->pos() == r[k].first && i->val() == r[k].second && (*i).pos() == r[k].first, "%s: element %zu is (%zu,%d), expected (%zu,%d)", how, k, i->pos(), i->val(), r[k].first, r[k].second); k++; } MC_CHECK(k == r.size(), "%s: iterated over %zu of %zu", how, k, r.size());
	double n = 0; for (auto& x : r) n += (double)x.second * x.second; MC_CHECK(v.norm() == n, "%s: norm", how);
}
template<class V> static V build(const Ref& r) { V v; for (auto& x : r) v.push_back(x.first, x.second); return v; }
static Ref refOf(const std::vector<size_t>& diffs, const std::vector<int>& q) { Ref r; size_t p = 0; for (size_t i = 0; i < q.size(); i++) { p += diffs[q[i]]; if (i && diffs[q[i]] == 0) { r.clear(); return Ref(1, std::make_pair((size_t)-1, 0)); } r.push_back(std::make_pair(p, (int)(i * 7 + 1) * (i % 2 ? -1 : 1))); } return r; }
// position differences at the edges of every code length
template<class V> static void single(const char *nm, const std::vector<size_t>& diffs, size_t maxDiff, int len)
{
	mc::Section s(mc::fmt("%s single", nm)); mc::forSeqUpTo((int)diffs.size(), len, [&](const std::vector<int>& q) { if (!s.pick()) return; Ref r = refOf(diffs, q); if (r.size() == 1 && r[0].first == (size_t)-1) return; std::string w; for (auto& x : r) w += mc::fmt(" %zu", x.first); mc::what("%s positions%s", nm, w.c_str()); if (!r.empty() && r.back().first > 0xffffffffULL && maxDiff == 0) { V v; bool thr = false; Ref part; try { for (auto& x : r) { v.push_back(x.first, x.second); part.push_back(x); } } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr && part.size() < r.size() && (r[part.size()].first > 0xffffffffULL), "too large position accepted"); judge(v, part, "after the exception"); mc::eval(); return; }
		V v; v.reserve(q.size() % 3); for (size_t i = 0; i < r.size(); i++) { if (i % 2) judge(v, Ref(r.begin(), r.begin() + i), "while growing"); v.push_back(r[i].first, r[i].second);
			// refused: not increasing, too far
			for (size_t bad : { r[i].first, r[i].first ? r[i].first - 1 : r[i].first, (size_t)0 }) { bool thr = false; try { v.push_back(bad, 99); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "position %zu after %zu accepted", bad, r[i].first); } if (maxDiff) { bool thr = false; try { v.push_back(r[i].first + maxDiff, 99); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "distance %zu accepted", maxDiff); } }
		judge(v, r, "built"); std::map<size_t, int> m(r.begin(), r.end()); V ms; ms.set(m); judge(ms, r, "set(map)"); MC_CHECK(ms == v && !(ms != v), "equal vectors differ"); V c(v), a; a.push_back(5, 5); (void)(a.begin() != a.end()); a = v; judge(c, r, "copy"); judge(a, r, "assigned"); std::stringstream ss; v.save(ss); V l; l.push_back(3, 3); (void)(l.begin() != l.end()); l.load(ss); judge(l, r, "loaded"); MC_CHECK(ss.get() == -1, "left over bytes");
		V o; o.push_back(9, 1); o.swap(c); judge(o, r, "swapped"); judge(c, Ref(1, std::make_pair((size_t)9, 1)), "swapped back"); if (!r.empty()) { size_t np = r.back().first + 1; Ref r2 = r; r2.push_back(std::make_pair(np, 77)); if (maxDiff || np <= 0xffffffffULL) { V d(v); (void)(d.begin() != d.end()); V d2(d); d2.push_back(np, 77); judge(d2, r2, "grown after iteration and copy"); MC_CHECK(d2 != v, "different vectors are equal"); a.push_back(np, 77); judge(a, r2, "grown after assignment"); l.push_back(np, 77); judge(l, r2, "grown after load"); o.push_back(np, 77); judge(o, r2, "grown after swap"); } V e(v); for (size_t i = 0; i < r.size(); i++) { Ref r3 = r; r3[i].second ^= 1; MC_CHECK(build<V>(r3) != v, "value %zu ignored by ==", i); } }
		a.clear(); judge(a, Ref(), "cleared"); a.push_back(0, 4); judge(a, Ref(1, std::make_pair((size_t)0, 4)), "used after clear"); mc::eval(!r.empty()); });
}
template<class A, class B> static void pairs(const char *nm, int n, size_t step)
{
	mc::Section s(mc::fmt("pair %s", nm)); for (int x = 0; x < 1 << n; x++) for (int y = 0; y < 1 << n; y++) { if (!s.pick()) continue; mc::what("%s masks %x %x", nm, x, y); Ref rx, ry; for (int i = 0; i < n; i++) { if (x >> i & 1) rx.push_back(std::make_pair(i * step, i + 1)); if (y >> i & 1) ry.push_back(std::make_pair(i * step, 10 * i - 5)); } A a = build<A>(rx); B b = build<B>(ry); { typedef Intersection<A, B> I; I in(a, b); int k = 0; long sum = 0; for (typename I::const_iterator i = in.begin(), e = in.end(); i != e; ++i) { while (k < n && !(x & y & 1 << k)) k++; if (k == n) { MC_CHECK(false, "intersection too long"); break; } MC_CHECK(i->pos() == k * step && i->val1() == k + 1 && i->val2() == 10 * k - 5, "intersection element %zu", i->pos()); sum += (k + 1) * (10 * k - 5); k++; } while (k < n && !(x & y & 1 << k)) k++; MC_CHECK(k == n, "intersection too short"); long ip = 1; InnerProduct(&ip, a, b); MC_CHECK(ip == sum, "inner product %ld, expected %ld", ip, sum); double dp; InnerProduct(&dp, b, a); MC_CHECK(dp == (double)sum, "inner product"); long self = 0; for (auto& r : rx) self += (long)r.second * r.second; InnerProduct(&ip, a, a); MC_CHECK(ip == self, "inner product with itself"); A a2(a); InnerProduct(&ip, a, a2); MC_CHECK(ip == self, "inner product with a copy"); }
		{ typedef Union<A, B> U; U u(a, b); int k = 0; for (typename U::const_iterator i = u.begin(), e = u.end(); i != e; ++i) { while (k < n && !((x | y) & 1 << k)) k++; if (k == n) { MC_CHECK(false, "union too long"); break; } bool h1 = x >> k & 1, h2 = y >> k & 1; MC_CHECK(i->pos() == k * step && i->hasVal1() == h1 && i->hasVal2() == h2 && i->val1() == (h1 ? k + 1 : 0) && i->val2() == (h2 ? 10 * k - 5 : 0), "union element %zu", i->pos()); bool later1 = (x >> k) != 0, later2 = (y >> k) != 0; typedef typename U::const_iterator UI; typename UI::Mode m = !later2 ? UI::Only1 : !later1 ? UI::Only2 : h1 && h2 ? UI::Equal : h1 ? UI::Small : UI::Large; MC_CHECK(i->getMode() == m, "union mode %d, expected %d", (int)i->getMode(), (int)m); k++; } while (k < n && !((x | y) & 1 << k)) k++; MC_CHECK(k == n, "union too short"); MC_CHECK(u.end().getMode() == U::const_iterator::End, "mode of end"); }
		mc::eval((x & y) != 0); }
}
// positions beyond 32 bit, long vectors, both sides usable after swap, products beyond the element type
typedef SparseVector<int> PV; typedef SparseVector<int, option::CompressedPositionTbl> CV;
template<class V> static void longVec(const char *nm, bool compressed)
{
	mc::Section s(mc::fmt("%s long", nm)); if (compressed) mc::forSeqUpTo(2, mc::tier(9, 11), [&](const std::vector<int>& q) { if (!s.pick()) return; Ref r; size_t p = 0; std::string w; for (size_t i = 0; i < q.size(); i++) { p += q[i] ? ((size_t)1 << 30) - 1 : 1; r.push_back(std::make_pair(p, (int)i + 1)); w += mc::fmt(" %zu", p); } mc::what("%s positions%s", nm, w.c_str()); V v = build<V>(r); judge(v, r, "built"); V w2; w2 = v; std::stringstream ss; v.save(ss); V l; l.load(ss); judge(l, r, "loaded"); MC_CHECK(l == v, "loaded differs"); if (!r.empty()) { bool thr = false; try { v.push_back(r.back().first & 0xffffffff, 1); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "position not beyond the last accepted"); } mc::eval(); });
	for (size_t n : { 100, 255, 256, 1000, 20000, 65535, 65536, 65537, 70000, 140000 }) for (int g = 0; g < 4; g++) { if (!s.pick()) continue; static const size_t G[4][3] = { { 1, 1, 1 }, { 1, 63, 64 }, { 16383, 16384, 2 }, { 3, 70, 5000 } }; mc::what("%s of %zu elements, gaps %d", nm, n, g); Ref r, r2; size_t p = 0; for (size_t i = 0; i < n; i++) { p += G[g][i % 3]; r.push_back(std::make_pair(p, (int)(i % 1000) - 500)); if (i % 2) r2.push_back(r.back()); else if (G[g][0] > 1) r2.push_back(std::make_pair(p - 1, 3)); } if (p > 0xffffffffu) continue; V v = build<V>(r), v2 = build<V>(r2); judge(v, r, "built"); V o; o.push_back(1, 1); o.swap(v); judge(o, r, "swapped"); v.push_back(2, 5); judge(v, Ref{ { 1, 1 }, { 2, 5 } }, "grown after being swapped away"); o.push_back(p + 1, 6); r.push_back(std::make_pair(p + 1, 6)); judge(o, r, "grown after swap"); long e = 0, got = 0; std::map<size_t, int> m(r.begin(), r.end()); for (auto& x : r2) { auto it = m.find(x.first); if (it != m.end()) e += (long)it->second * x.second; } InnerProduct(&got, o, v2); MC_CHECK(got == e, "inner product %ld, expected %ld", got, e); size_t un = m.size(); for (auto& x : r2) un += !m.count(x.first); typedef Union<V, V> U; U u(o, v2); size_t c = 0, last = 0; bool inc = true; for (typename U::const_iterator i = u.begin(), ie = u.end(); i != ie; ++i) { if (c++ && i->pos() <= last) inc = false; last = i->pos(); } MC_CHECK(c == un && inc, "union of %zu, expected %zu", c, un); mc::eval(); }
	const int Q[] = { 1, -1, 46340, 46341, 65536, -65536, 2147483647, -2147483647 - 1 }; for (int a : Q) for (int b : Q) { if (!s.pick()) continue; mc::what("%s products of %d and %d", nm, a, b); V x, y; x.push_back(1, a); x.push_back(5, b); y.push_back(1, b); y.push_back(5, a); long l = 0; double d = 0; InnerProduct(&l, x, x); InnerProduct(&d, x, x); bool big = a == -2147483647 - 1 && b == a; if (!big) { MC_CHECK(l == (long)((unsigned long)((long)a * a) + (unsigned long)((long)b * b)), "with itself %ld", l); } MC_CHECK(d == (double)a * a + (double)b * b, "with itself %g", d); InnerProduct(&l, x, y); InnerProduct(&d, x, y); MC_CHECK(d == (double)a * b + (double)b * a, "with another %g", d); if (!big) MC_CHECK(l == (long)a * b + (long)b * a, "with another %ld", l); V z(x); InnerProduct(&d, x, z); MC_CHECK(d == (double)a * a + (double)b * b && x.norm() == d, "with a copy %g", d); mc::eval(); }
}
// ranking of the best n: ties keep the earlier one first
typedef TopScore<int> TS;
static void top()
{
	{ mc::Section d("top score default"); if (d.pick()) { mc::what("TopScore of the default size"); TS t; for (int i = 0; i < 30; i++) t.add(i % 13, i); MC_CHECK(t.getTable().size() == 10, "%zu kept", t.getTable().size()); mc::eval(); } }
	mc::Section s("top score"); const int len = mc::tier(6, 8); for (size_t mx = 0; mx <= 5; mx++) mc::forSeqUpTo(4, len, [&](const std::vector<int>& q) { if (!s.pick()) return; std::string w; for (int i : q) w += (char)('0' + i); mc::what("size %zu scores %s", mx, w.c_str()); const double sc[] = { 0, 1.5, -2, 1e300 }; for (int how = 0; how < 3; how++) { TS t(how == 0 ? mx : 3); if (how >= 1) { t.add(7, 1); t.add(9, 2); if (how == 2) { t.add(8, 3); t.add(10, 4); (void)t.getTable(); } t.setSize(mx); } std::vector<std::pair<double, int> > all; for (size_t i = 0; i < q.size(); i++) { t.add(sc[q[i]], (int)i); all.push_back(std::make_pair(-sc[q[i]], (int)i)); if (how == 2 || i + 1 == q.size()) { std::vector<std::pair<double, int> > b(all); std::stable_sort(b.begin(), b.end()); if (b.size() > mx) b.resize(mx); const TS::Table& g = t.getTable(); MC_CHECK(g.size() == b.size(), "%zu results after %zu, expected %zu", g.size(), i + 1, b.size()); for (size_t j = 0; j < b.size() && j < g.size(); j++) MC_CHECK(g[j].idx == b[j].second && g[j].score == -b[j].first, "place %zu is %d, expected %d", j, g[j].idx, b[j].second); } } if (q.empty()) MC_CHECK(t.getTable().empty(), "empty"); } mc::eval(!q.empty()); });
}
void mc_main()
{
	typedef SparseVector<int> P; typedef SparseVector<int, option::CompressedPositionTbl> C; std::vector<size_t> d = { 0, 1, 63, 64, (1 << 14) - 1, 1 << 14, (1 << 22) - 1, 1 << 22, (1 << 30) - 1 }; single<C>("compressed", d, (size_t)1 << 30, mc::tier(4, 5)); std::vector<size_t> e = { 0, 1, 2, 255, 0x7fffffff, 0xffffffff, (size_t)1 << 32 }; single<P>("plain", e, 0, mc::tier(4, 5));
	const int n = mc::tier(6, 8); pairs<P, P>("plain plain", n, 1); pairs<P, C>("plain compressed", n, 64); pairs<C, P>("compressed plain", n, 1 << 14); pairs<C, C>("compressed compressed", n, 1 << 22); top(); longVec<PV>("plain", false); longVec<CV>("compressed", true);
}
