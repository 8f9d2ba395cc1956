// CSucVector: get and rank against plain counting
#include "util.hpp"
#include <memory>
#include <sstream>
#include <algorithm>
#include <cybozu/csucvector.hpp>
typedef std::vector<char> VB;
static std::unique_ptr<uint64_t[]> pack(const VB& v, bool garbage) { size_t n = (v.size() + 63) / 64; std::unique_ptr<uint64_t[]> p(new uint64_t[n]); for (size_t i = 0; i < n; i++) p[i] = 0; for (size_t i = 0; i < n * 64; i++) if (i < v.size() ? v[i] : garbage) p[i / 64] |= 1ull << (i % 64); return p; }
static void judge(const cybozu::CSucVector& s, const VB& v, const char *how)
{
	size_t n = v.size(), c = 0; for (size_t i = 0; i <= n; i++) { size_t g = s.rank1(i); if (g != c || s.rank0(i) != i - c || s.rank(true, i) != c || s.rank(false, i) != i - c) { mc::fail("%s: rank1(%zu) is %zu, expected %zu of %zu bits", how, i, g, c, n); return; } if (i == n) break; if (s.get(i) != !!v[i]) { mc::fail("%s: bit %zu of %zu", how, i, n); return; } c += !!v[i]; }
	for (size_t e : { (size_t)0, (size_t)1, (size_t)1 << 33 }) { bool thr = false; try { s.get(n + e); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "%s: get beyond the end", how); MC_CHECK(s.rank1(n + e) == c, "%s: rank1 beyond the end", how); }
}
static void one(const VB& v, cybozu::CSucVector& used)
{
	std::unique_ptr<uint64_t[]> g = pack(v, v.size() & 1); used.init(g.get(), v.size()); judge(used, v, "init of a used vector"); mc::beat();
	std::stringstream ss; used.save(ss); cybozu::CSucVector t; t.load(ss); judge(t, v, "load"); mc::eval(!v.empty());
}
static void add(VB& v, int n, int b) { v.insert(v.end(), n, (char)b); }
void mc_main()
{
	if (!freopen("/dev/null", "w", stdout)) abort(); // init prints progress
	const int R[] = { 1, 2, 3, 5, 6, 7, 8, 13, 14, 15, 20, 21, 22, 28, 32, 35, 39, 46, 53, 63, 64, 65, 85, 96, 127, 128, 129, 192, 224, 256, 320, 384, 512, 1023, 1024, 1025, 2048, 4096, 8192, 9000, 16384, 16385, 20000 }; const int NR = sizeof(R) / sizeof(R[0]);
	{ mc::Section s("short"); cybozu::CSucVector used; const int N = mc::tier(64, 200); for (int n = 0; n <= N; n++) for (int k = 0; k < 4; k++) { if (!s.pick()) continue; VB v(n); for (int i = 0; i < n; i++) v[i] = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? i % 3 == 1 : (i * 2654435761u >> 11) & 1; mc::what("%d bits of kind %d", n, k); one(v, used); } }
	{ mc::Section s("run after run"); cybozu::CSucVector used; for (int i = 0; i < NR; i++) for (int first = 0; first < 2; first++) { if (!s.pick()) continue; VB v; for (int j = 0; j < NR; j++) { add(v, R[i], first); add(v, R[j], !first); } mc::what("runs of %d %s between runs of every length", R[i], first ? "ones" : "zeros"); one(v, used); } }
	{ mc::Section s("periodic"); cybozu::CSucVector used; const int P[] = { 1, 7, 14, 32, 53, 64, 65, 128, 256, 1024, 2048, 16384 }; const int NP = mc::tier(11, 12); for (int i = 0; i < NP; i++) for (int j = 0; j < NP; j++) { if (!s.pick()) continue; VB v; int per = P[i] + P[j]; int rep = std::max(3, 6000 / per); for (int k = 0; k < rep; k++) { add(v, P[i], 0); add(v, P[j], 1); } mc::what("%d times %d zeros and %d ones", rep, P[i], P[j]); one(v, used); } }
	{ mc::Section s("patterns"); cybozu::CSucVector used; for (int blk = 0; blk < mc::tier(64, 256); blk++) { if (!s.pick()) continue; VB v; int st = mc::tier(16384 / 64, 16384 / 256); for (int x = blk * st; x < blk * st + st; x++) { for (int b = 0; b < 14; b++) v.push_back((x >> b) & 1); if (x % 5 == 0) v.push_back(x & 1); } mc::what("all 14 bit patterns of block %d", blk); one(v, used); } }
	{ mc::Section s("tails"); cybozu::CSucVector used; for (int t = 0; t < mc::tier(130, 1100); t++) { if (!s.pick()) continue; VB v; add(v, 1100, 0); for (int i = 0; i < 40; i++) v.push_back(i % 3 == 0); add(v, t, 1); mc::what("1100 zeros, a pattern and %d ones", t); one(v, used); } }
}
