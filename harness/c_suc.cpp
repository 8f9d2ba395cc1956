// SucVectorT: get, rank, select, size against plain counting
#include "util.hpp"
#include <memory>
#include <sstream>
#include <cybozu/sucvector.hpp>
typedef std::vector<char> VB;
static std::unique_ptr<uint64_t[]> pack(const VB& v, bool garbage) { size_t n = (v.size() + 63) / 64; std::unique_ptr<uint64_t[]> p(new uint64_t[n]); for (size_t i = 0; i < n; i++) p[i] = 0; for (size_t i = 0; i < n * 64; i++) if (i < v.size() ? v[i] : garbage) p[i / 64] |= 1ull << (i % 64); return p; }
template<class SV> static void judge(const SV& s, const VB& v, const std::vector<uint64_t> pos[2], bool sel, const char *how)
{
	const uint64_t n = v.size(); uint64_t c[2] = { 0, 0 };
	MC_CHECK(s.size() == n && s.size(true) == pos[1].size() && s.size(false) == pos[0].size(), "%s: size %llu, %llu ones, %llu zeros; expected %llu %zu %zu", how, (unsigned long long)s.size(), (unsigned long long)s.size(true), (unsigned long long)s.size(false), (unsigned long long)n, pos[1].size(), pos[0].size());
	for (uint64_t i = 0; i <= n; i++) { if (s.rank1(i) != c[1] || s.rank(true, i) != c[1] || s.rank0(i) != c[0] || s.rank(false, i) != c[0]) { mc::fail("%s: rank at %llu is %llu/%llu, expected %llu/%llu", how, (unsigned long long)i, (unsigned long long)s.rank0(i), (unsigned long long)s.rank1(i), (unsigned long long)c[0], (unsigned long long)c[1]); return; } if (i == n) break; if (s.get(i) != !!v[i]) { mc::fail("%s: bit %llu", how, (unsigned long long)i); return; } c[!!v[i]]++; }
	for (uint64_t e : { (uint64_t)1, (uint64_t)64, (uint64_t)1 << 40, ~(uint64_t)0 - n }) { MC_CHECK(s.rank1(n + e) == c[1], "%s: rank1 beyond the end", how); bool thr = false; try { s.get(n + e - 1); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "%s: get beyond the end", how); }
	if (sel) for (int b = 0; b < 2; b++) { const std::vector<uint64_t>& p = pos[b]; for (uint64_t r = 0; r < p.size() + 70; r++) { uint64_t e = r < p.size() ? p[r] : cybozu::NotFound, g = s.select(b, r), g2 = b ? s.select1(r) : s.select0(r); if (g != e || g2 != e) { mc::fail("%s: select%d(%llu) is %lld, expected %lld", how, b, (unsigned long long)r, (long long)g, (long long)e); return; } } MC_CHECK(s.select(b, ~(uint64_t)0) == cybozu::NotFound && s.select(b, (uint64_t)1 << 32) == cybozu::NotFound, "%s: select of a huge rank", how); }
	else { bool thr = false; try { s.select1(0); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "%s: select without support", how); }
}
template<class SV> static void one(const VB& v, bool sel, SV& used)
{
	std::vector<uint64_t> pos[2]; for (size_t i = 0; i < v.size(); i++) pos[!!v[i]].push_back(i);
	std::unique_ptr<uint64_t[]> a = pack(v, false), g = pack(v, true);
	SV s(g.get(), v.size()); judge(s, v, pos, sel, "init");
	{ SV t; t.resize(v.size()); for (uint64_t i : pos[1]) t.set(i); bool thr = false; try { t.set(v.size()); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "set beyond the end accepted"); t.ready(); judge(t, v, pos, sel, "set/ready"); thr = false; try { t.set(0); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "set accepted after ready"); }
	used.init(a.get(), v.size()); judge(used, v, pos, sel, "init of a used vector");
	{ std::stringstream ss; s.save(ss); SV t; t.load(ss); judge(t, v, pos, sel, "load"); bool thr = false; try { t.set(0); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "set accepted after load"); std::stringstream s2; s.save(s2); used.load(s2); judge(used, v, pos, sel, "load into a used vector"); }
	{ SV t(used); used.resize(v.size() / 2 + 70); for (size_t i = 0; i < used.size(); i += 5) used.set(i); used.ready(); VB w(used.size()); std::vector<uint64_t> q[2]; for (size_t i = 0; i < w.size(); i++) { w[i] = i % 5 == 0; q[(int)w[i]].push_back(i); } judge(used, w, q, sel, "resize/set/ready of a used vector"); judge(t, v, pos, sel, "copy"); }
	mc::eval(!v.empty());
}
template<class T, bool sel> static void family(const char *nm)
{
	typedef cybozu::SucVectorT<T, sel> SV;
	{ mc::Section s(std::string("short ") + nm); SV used; for (int n = 0; n <= mc::tier(9, 12); n++) for (int x = 0; x < (1 << n); x++) { if (!s.pick()) continue; VB v(n); for (int i = 0; i < n; i++) v[i] = (x >> i) & 1; mc::what("%s: %d bits %x", nm, n, x); one(v, sel, used); } }
	{ mc::Section s(std::string("words ") + nm); SV used; const uint64_t W[] = { 0, ~0ull, 1, 1ull << 63, 0x8000000180000001ull, 0xfffffffeffffffffull }; mc::forSeqUpTo(6, mc::tier(3, 5), [&](const std::vector<int>& q) { for (int tail : { 0, 1, 63 }) { if (!s.pick()) continue; VB v; for (int i : q) for (int b = 0; b < 64; b++) v.push_back((W[i] >> b) & 1); for (int i = 0; i < tail; i++) v.push_back(tail == 1 || i == 62); std::string w; for (int i : q) w += mc::fmt(" %d", i); mc::what("%s: words%s and %d bits", nm, w.c_str(), tail); one(v, sel, used); } }); }
	{ mc::Section s(std::string("runs ") + nm); SV used; const std::vector<int> R = mc::tier<std::vector<int> >({ 1, 63, 64, 256, 1023, 1024, 1025, 2300 }, { 1, 2, 63, 64, 65, 255, 256, 257, 1023, 1024, 1025, 2300 }); mc::forSeqUpTo((int)R.size(), mc::tier(3, 4), [&](const std::vector<int>& q) { for (int first = 0; first < 2; first++) { if (!s.pick()) continue; VB v; std::string w; int b = first; for (int i : q) { v.insert(v.end(), R[i], (char)b); b ^= 1; w += mc::fmt(" %d", R[i]); } mc::what("%s: runs%s starting with %d", nm, w.c_str(), first); one(v, sel, used); } }); }
	{ mc::Section s(std::string("sizes ") + nm); SV used; for (int n = 0; n < mc::tier(1100, 4400); n++) for (int k = 0; k < 3; k++) { if (!s.pick()) continue; VB v(n); for (int i = 0; i < n; i++) v[i] = k == 0 ? 1 : k == 1 ? i % 3 == 0 : (i * 2654435761u >> 13) & 1; mc::what("%s: %d bits of kind %d", nm, n, k); one(v, sel, used); } }
	{ mc::Section s(std::string("sparse ") + nm); SV used; for (int every : { 2, 255, 256, 257, 700 }) for (int inv = 0; inv < 2; inv++) for (int n : { 5000, 40000 }) { if (!s.pick()) continue; VB v(n); for (int i = 0; i < n; i++) v[i] = (i % every == every - 1) ^ inv; mc::what("%s: every %dth of %d bits, inverted %d", nm, every, n, inv); one(v, sel, used); } }
}
/* more than 2^32 bits: the counts no longer fit 32 bits. Runs of ones and zeros with a period of 2^20 + 256 * k bits, so that rank and select have a closed form;
   positions on both sides of every multiple of 2^30, of the ends and of each run boundary next to them are compared */
struct Huge { std::vector<uint64_t> w; uint64_t n; uint64_t runs[8]; int m; // run i: value i & 1 ^ first
	int first; bool bit(uint64_t i) const { return (run(i) & 1) ^ first; } int run(uint64_t i) const { int k = 0; while (k + 1 < m && i >= runs[k + 1]) k++; return k; }
	uint64_t ones(uint64_t p) const { if (p > n) p = n; uint64_t c = 0; for (int k = 0; k < m; k++) { uint64_t b = runs[k], e = k + 1 < m ? runs[k + 1] : n; if (b >= p) break; if ((k & 1) ^ first) c += (e < p ? e : p) - b; } return c; }
	uint64_t sel(bool v, uint64_t r) const { for (int k = 0; k < m; k++) { uint64_t b = runs[k], e = k + 1 < m ? runs[k + 1] : n; if (((k & 1) ^ first) != v) continue; if (r < e - b) return b + r; r -= e - b; } return cybozu::NotFound; } };
static void huge()
{
	mc::Section s("more than 2^32 bits");
	const uint64_t G = (uint64_t)1 << 32; struct { int first; std::vector<uint64_t> runs; uint64_t n; } C[] = { { 1, { 0, 1000 }, G + 4000 }, { 0, { 0, 1000 }, G + 4000 }, { 1, { 0, G + 2000 }, G + 3000 }, { 0, { 0, G + 2000 }, G + 3003 } };
	for (auto& c : C) { if (!s.pick()) continue; Huge h; h.n = c.n; h.first = c.first; h.m = (int)c.runs.size(); for (int k = 0; k < h.m; k++) h.runs[k] = c.runs[k];
		h.w.assign((c.n + 63) / 64, 0); for (int k = 0; k < h.m; k++) if ((k & 1) ^ h.first) { uint64_t b = h.runs[k], e = k + 1 < h.m ? h.runs[k + 1] : h.n; for (uint64_t i = b; i < e; ) { if (i % 64 == 0 && i + 64 <= e) { h.w[i / 64] = ~0ull; i += 64; } else { h.w[i / 64] |= 1ull << (i % 64); i++; } } }
		mc::what("%llu bits, runs from %d at 0 and %llu", (unsigned long long)h.n, h.first, (unsigned long long)h.runs[1]);
		{ bool thr = false; try { cybozu::SucVectorLt4G t; t.resize(h.n, false); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "SucVectorLt4G took %llu bits", (unsigned long long)h.n); }
		cybozu::SucVector v(h.w.data(), h.n); std::vector<uint64_t>().swap(h.w);
		MC_CHECK(v.size() == h.n && v.size(true) == h.ones(h.n) && v.size(false) == h.n - h.ones(h.n), "sizes %llu %llu %llu", (unsigned long long)v.size(), (unsigned long long)v.size(true), (unsigned long long)v.size(false));
		std::vector<uint64_t> at; for (uint64_t b : { (uint64_t)0, (uint64_t)1 << 20, (uint64_t)1 << 30, (uint64_t)1 << 31, (uint64_t)3 << 30, G, h.runs[1], h.n }) for (int64_t d = -1100; d <= 1100; d++) if ((int64_t)b + d >= 0) at.push_back(b + d);
		for (uint64_t p : at) { uint64_t e = h.ones(p); if (v.rank1(p) != e) { mc::fail("rank1(%llu) is %llu, expected %llu", (unsigned long long)p, (unsigned long long)v.rank1(p), (unsigned long long)e); break; } if (p < h.n && (v.get(p) != h.bit(p) || v.rank0(p) != p - e)) { mc::fail("get or rank0 at %llu", (unsigned long long)p); break; }
			bool bad = false; for (int b = 0; b < 2 && !bad; b++) { uint64_t g = v.select(b, p), x = h.sel(b, p); if (g != x) { mc::fail("select%d(%llu) is %lld, expected %lld", b, (unsigned long long)p, (long long)g, (long long)x); bad = true; } } if (bad) break; mc::eval(); } }
}
void mc_main()
{
	huge();
	family<uint32_t, true>("Lt4G"); family<uint64_t, true>("1TiB"); family<uint32_t, false>("Lt4G without select"); family<uint64_t, false>("1TiB without select");
	{ mc::Section s("select64"); for (int by = 0; by < 256; by++) for (int p = 0; p < 8; p++) for (int k = 0; k < 6; k++) { if (!s.pick()) continue; static const uint64_t base[] = { 0, ~0ull, 0x0101010101010101ull, 0x8080808080808080ull, 0x00ff00ff00ff00ffull, 0x0123456789abcdefull }; uint64_t v = (base[k] & ~(0xffull << (8 * p))) | ((uint64_t)by << (8 * p)); mc::what("word %llx", (unsigned long long)v); int c = 0; for (int i = 0; i < 64; i++) { MC_CHECK(cybozu::sucvector_util::rank64(v, i) == (uint32_t)c, "rank64 at %d", i); if ((v >> i) & 1) { c++; MC_CHECK(cybozu::sucvector_util::select64(v, c) == (uint32_t)i, "select64(%d) is %u, expected %d", c, cybozu::sucvector_util::select64(v, c), i); } } for (int r = c + 1; r <= 64; r++) MC_CHECK(cybozu::sucvector_util::select64(v, r) == 64, "select64(%d) of %d ones", r, c); mc::eval(); } }
}
