// Frequency against a map
#include "util.hpp"
#include <sstream>
#include <algorithm>
#include <cybozu/frequency.hpp>
template<class F, class E> static void judge(const F& f, const std::map<E, size_t>& m, const std::vector<E>& others, const char *how, bool vec)
{
	MC_CHECK(f.size() == m.size(), "%s: %zu elements, expected %zu", how, (size_t)f.size(), m.size()); if (f.size() != m.size()) return;
	std::set<size_t> idx; for (auto& x : m) { MC_CHECK(f.getFrequency(x.first) == x.second, "%s: frequency %zu, expected %zu", how, (size_t)f.getFrequency(x.first), x.second); size_t i = f.getIndex(x.first); MC_CHECK(i < m.size() && idx.insert(i).second, "%s: index %zu", how, i); if (i < m.size()) MC_CHECK(f.getElement(i) == x.first, "%s: element of index %zu", how, i); }
	size_t last = ~(size_t)0; for (size_t i = 0; i < m.size(); i++) { size_t c = f.getFrequency(f.getElement(i)); MC_CHECK(c <= last, "%s: index %zu is more frequent than the one before", how, i); last = c; }
	for (auto& o : others) if (!m.count(o)) { MC_CHECK(f.getFrequency(o) == 0, "%s: frequency of an absent element", how); if (!vec) { bool thr = false; try { f.getIndex(o); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "%s: index of an absent element", how); } }
	if (!vec) { bool thr = false; try { f.getElement(m.size()); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "%s: element of a bad index", how); }
}
template<class E, class I> static void family(const char *nm, const std::vector<E>& al, int len, bool vec)
{
	typedef cybozu::Frequency<E, I> F; mc::Section s(nm); F used; mc::forSeqUpTo((int)al.size(), len, [&](const std::vector<int>& q) { if (!s.pick()) return; std::string w; std::vector<E> t; std::map<E, size_t> m; for (int i : q) { t.push_back(al[i]); m[al[i]]++; w += mc::fmt(" %d", i); } mc::what("%s elements%s", nm, w.c_str());
		F *f = new F(t.begin(), t.end()); judge(*f, m, al, "range", vec); { F g; for (auto& x : t) g.append(x); g.ready(); judge(g, m, al, "append", vec); if (!t.empty()) { g.append(t[0]); g.ready(); auto m2 = m; m2[t[0]]++; judge(g, m2, al, "append after ready", vec); } }
		used.clear(); used.init(t.begin(), t.end()); judge(used, m, al, "init after clear", vec); std::stringstream ss, s2; f->save(ss); f->save(s2); F l; l.load(ss); judge(l, m, al, "load", vec); used.load(s2); judge(used, m, al, "load into a used one", vec);
		F c(*f), a; a = *f; a = a; delete f; judge(c, m, al, "copy after the original is gone", vec); judge(a, m, al, "assigned after the original is gone", vec); for (size_t i = 0; i < m.size(); i++) MC_CHECK(c.getElement(i) == a.getElement(i) && c.getElement(i) == l.getElement(i), "order differs"); mc::eval(!t.empty()); });
}
void mc_main()
{
	family<uint8_t, size_t>("uint8_t", { 0, 1, 0x7f, 0xff }, mc::tier(6, 8), true); family<char, uint32_t>("char", { 0, 'a', (char)0x80, (char)0xff }, mc::tier(6, 8), true);
	family<int, uint32_t>("int", { 0, -1, 0x7fffffff, 5 }, mc::tier(6, 8), false); family<uint16_t, size_t>("uint16_t", { 0, 0x100, 0xffff, 1 }, mc::tier(6, 8), false); family<std::string, size_t>("string", { "", "a", std::string("a\0", 2), "b" }, mc::tier(6, 8), false);
	{ mc::Section s("many"); for (int n = 1; n <= 300; n += 13) { if (!s.pick()) continue; mc::what("%d elements", n); std::vector<int> t; std::map<int, size_t> m; for (int i = 0; i < n; i++) for (int j = 0; j <= i % 17; j++) { t.push_back(i * 7919); m[i * 7919]++; } cybozu::Frequency<int> f(t.begin(), t.end()); judge(f, m, std::vector<int>(1, 3), "range", false); std::stringstream ss; f.save(ss); cybozu::Frequency<int> l; l.load(ss); judge(l, m, std::vector<int>(1, 3), "load", false); mc::eval(); if (n <= 256) { std::vector<uint8_t> u; std::map<uint8_t, size_t> mu; for (int i = 0; i < n; i++) for (int j = 0; j <= i % 17; j++) { u.push_back((uint8_t)i); mu[(uint8_t)i]++; } cybozu::Frequency<uint8_t> g(u.begin(), u.end()); judge(g, mu, std::vector<uint8_t>(), "range", true); } } }
}
