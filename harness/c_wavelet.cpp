// WaveletMatrix: get, rank, rankLt, select, size against plain counting
#include "util.hpp"
#include <sstream>
#include <algorithm>
#include <cybozu/wavelet_matrix.hpp>
#ifdef USE_SEL
typedef cybozu::WaveletMatrixT<true, cybozu::SucVectorT<uint64_t, true> > WM;
#else
typedef cybozu::WaveletMatrixT<> WM;
#endif
typedef cybozu::WaveletMatrixT<false> WN;
template<class W, class Vec> static void judge(const W& w, const Vec& v, int bits, const std::vector<int>& vals, bool sel, const char *how)
{
	const size_t n = v.size(); MC_CHECK(w.size() == n, "%s: size", how);
	for (size_t i = 0; i < n; i++) { MC_CHECK(w.get(i) == v[i], "%s: value at %zu is %llu, expected %llu", how, i, (unsigned long long)w.get(i), (unsigned long long)v[i]); }
	std::vector<uint64_t> cnt(1 << bits); for (size_t i = 0; i < n; i++) { uint32_t x = 0; uint64_t r = w.get(&x, i); if (x != v[i] || r != cnt[v[i]]) { mc::fail("%s: value and rank at %zu are %u, %llu", how, i, x, (unsigned long long)r); return; } cnt[v[i]]++; }
	for (int val : vals) { uint64_t c = 0, lt = 0; std::vector<uint64_t> pos; for (size_t i = 0; i <= n; i++) { uint64_t a = w.rank(val, i), b = w.rankLt(val, i); if (a != c || b != lt) { mc::fail("%s: rank(%d, %zu) is %llu, rankLt %llu, expected %llu %llu", how, val, i, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c, (unsigned long long)lt); return; } if (i == n) break; if ((int)v[i] == val) { c++; pos.push_back(i); } if ((int)v[i] < val) lt++; }
		MC_CHECK(w.rank(val, n + 5) == c && w.rankLt(val, ~(uint64_t)0) == lt && w.size(val) == c, "%s: counts of %d beyond the end", how, val);
		if (sel) { for (size_t r = 0; r < pos.size() + 3; r++) { uint64_t e = r < pos.size() ? pos[r] : cybozu::NotFound, g = w.select(val, r); if (g != e) { mc::fail("%s: select(%d, %zu) is %lld, expected %lld", how, val, r, (long long)g, (long long)e); return; } } MC_CHECK(w.select(val, 1000000) == cybozu::NotFound && w.select(val, pos.size() + 255) == cybozu::NotFound, "%s: select of a large rank", how); }
		else { bool thr = false; try { w.select(val, 0); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "%s: select without support", how); } }
}
template<class Vec> static void one(const Vec& v, int bits, const std::vector<int>& vals, WM& used, WN& usedN)
{
	{ WM w; w.init(v, bits); judge(w, v, bits, vals, true, "init"); std::stringstream ss; w.save(ss); used.load(ss); judge(used, v, bits, vals, true, "load into a used matrix"); }
	used.init(v, bits); judge(used, v, bits, vals, true, "init of a used matrix");
	usedN.init(v, bits); judge(usedN, v, bits, vals, false, "without select"); std::stringstream ss; usedN.save(ss); WN t; t.load(ss); judge(t, v, bits, vals, false, "without select, load");
	mc::eval(!v.empty());
}
static std::vector<int> all(int bits) { std::vector<int> r; for (int i = 0; i < (1 << bits); i++) r.push_back(i); return r; }
void mc_main()
{
	WM used; WN usedN;
	{ mc::Section s("short"); const int D[] = { 0, 9, 5, 4, 3 }; const int E[] = { 0, 11, 7, 5, 4 }; for (int bits = 1; bits <= 4; bits++) mc::forSeqUpTo(1 << bits, mc::tier(D[bits], E[bits]), [&](const std::vector<int>& q) { if (!s.pick()) return; std::vector<uint32_t> v(q.begin(), q.end()); std::string w; for (int x : q) w += mc::fmt(" %d", x); mc::what("%d bit values%s", bits, w.c_str()); one(v, bits, all(bits), used, usedN); }); }
	{ mc::Section s("subset of wide values"); for (int bits : { 5, 8, 9, 12, 16 }) { const int m = (1 << bits) - 1; const int A[] = { 0, 1, m, m - 1, m / 2, m / 2 + 1 }; mc::forSeqUpTo(6, mc::tier(bits == 16 ? 2 : 3, bits == 16 ? 3 : 4), [&](const std::vector<int>& q) { if (!s.pick()) return; std::vector<uint16_t> v; std::string w; for (int x : q) { v.push_back((uint16_t)A[x]); w += mc::fmt(" %d", A[x]); } mc::what("%d bit values%s", bits, w.c_str()); std::vector<int> vals(A, A + 6); vals.push_back(2); vals.push_back(m - 2); one(v, bits, vals, used, usedN); }); } }
	{ mc::Section s("runs"); const int R[] = { 1, 63, 64, 255, 256, 257, 600 }; const int NR = 7; mc::forSeqUpTo(NR, mc::tier(2, 3), [&](const std::vector<int>& q) { for (int k = 0; k < 4; k++) { if (!s.pick()) continue; std::vector<uint8_t> v; static const int C[][3] = { { 0, 1, 2 }, { 3, 0, 3 }, { 7, 5, 0 }, { 4, 4, 1 } }; std::string w; for (size_t i = 0; i < q.size(); i++) { v.insert(v.end(), R[q[i]], (uint8_t)C[k][i % 3]); w += mc::fmt(" %dx%d", R[q[i]], C[k][i % 3]); } mc::what("runs%s", w.c_str()); one(v, 3, all(3), used, usedN); } }); }
	{ mc::Section s("sizes"); for (int n = 0; n < mc::tier(300, 1200); n++) for (int k = 0; k < 2; k++) { if (!s.pick()) continue; std::vector<uint8_t> v; for (int i = 0; i < n; i++) v.push_back(k ? (i * 2654435761u >> 13) & 3 : i % 3); mc::what("%d values of kind %d", n, k); one(v, 2, all(2), used, usedN); } }
	{ mc::Section s("select boundaries"); for (int n : { 255, 256, 257, 511, 512, 513, 1024, 2000 }) for (int every : { 1, 2, 3, 100 }) for (int val : { 0, 1, 3 }) { if (!s.pick()) continue; std::vector<uint8_t> v; for (int i = 0; i < n * every; i++) v.push_back((uint8_t)(i % every == every - 1 ? val : (val + 1 + i % 2) & 3)); mc::what("%d times value %d, every %d", n, val, every); if (every == 100 && n > 600 && !mc::thorough()) continue; one(v, 2, all(2), used, usedN); } }
	{ mc::Section s("refused"); for (int bits : { 17, 18, 64, 1000 }) { if (!s.pick()) continue; mc::what("%d bits", bits); std::vector<uint32_t> v(3); WM w; bool thr = false; try { w.init(v, bits); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "accepted"); mc::eval(); } }
}
