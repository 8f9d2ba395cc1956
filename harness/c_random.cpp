// random sources, shuffle
#include "util.hpp"
#include <string>
// /dev/urandom is served by the harness: a counter stream with short answers, and failures on demand
static int g_openFail; static long g_fp; static size_t g_limit = (size_t)-1; static uint64_t g_req; static int g_dummy; static bool g_big;
extern "C" FILE *__real_fopen(const char *, const char *); extern "C" size_t __real_fread(void *, size_t, size_t, FILE *);
static uint8_t at(uint64_t i) { return (uint8_t)(i * 167 + (i >> 8) * 13 + 5); }
struct Dev { uint64_t pos; };
static ssize_t devRead(void *c, char *p, size_t n) { Dev *d = (Dev*)c; if (d->pos + n > g_limit) n = g_limit - d->pos; for (size_t i = 0; i < n; i++) p[i] = (char)at(d->pos++); return (ssize_t)n; }
static int devClose(void *c) { delete (Dev*)c; g_fp--; return 0; }
extern "C" FILE *__wrap_fopen(const char *p, const char *m) { if (strcmp(p, "/dev/urandom")) return __real_fopen(p, m); if (g_openFail) return 0; g_fp++; Dev *d = new Dev(); d->pos = 0; cookie_io_functions_t io = { devRead, 0, 0, devClose }; return fopencookie(d, "rb", io); }
extern "C" FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
extern "C" size_t __wrap_fread(void *p, size_t s, size_t n, FILE *f) { if (!g_big) return __real_fread(p, s, n, f); g_req += (uint64_t)s * n; return n; }
#include <cybozu/random_generator.hpp>
#include <cybozu/xorshift.hpp>
#include <cybozu/pcg.hpp>
#include <cybozu/nlp/random.hpp>
typedef uint64_t u64;
// references from the published algorithms
struct RX { uint32_t x, y, z, w; RX(uint32_t a, uint32_t b, uint32_t c, uint32_t d) : x(a ? a : 123456789), y(b ? b : 362436069), z(c ? c : 521288629), w(d ? d : 88675123) {} uint32_t g32() { uint32_t t = x ^ (x << 11); x = y; y = z; z = w; w = w ^ (w >> 19) ^ t ^ (t >> 8); return w; } u64 g64() { u64 a = g32(); return a << 32 | g32(); } u64 unit() { return g32(); } enum { U = 4 }; };
struct R128 { u64 a, b; R128(u64 x, u64 y) : a(x), b(y) {} u64 g64() { u64 s1 = a; const u64 s0 = b; a = s0; s1 ^= s1 << 23; b = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5); return b + s0; } uint32_t g32() { return (uint32_t)g64(); } u64 unit() { return g64(); } enum { U = 8 }; };
struct RO { u64 a, b; RO(u64 x, u64 y) : a(x), b(y) {} static u64 r(u64 x, int k) { return x << k | x >> (64 - k); } u64 g64() { u64 s0 = a, s1 = b, res = s0 + s1; s1 ^= s0; a = r(s0, 55) ^ s1 ^ (s1 << 14); b = r(s1, 36); return res; } uint32_t g32() { return (uint32_t)g64(); } u64 unit() { return g64(); } enum { U = 8 }; };
// all histories of get32, get64, read of k elements of type T; bytes of read are the little-endian bytes of successive units, the last one cut
template<class G, class R> static void rd(G& g, R& r, const char *nm, int what, size_t n)
{
	std::string want; size_t es = what == 0 ? 1 : what == 1 ? 2 : what == 2 ? 4 : 8; while (want.size() < n * es) { u64 u = r.unit(); want.append((char*)&u, R::U); } want.resize(n * es); char *p = (char*)malloc(n * es + 8); memset(p, 'g', n * es + 8); size_t ret; bool b = false;
	switch (what) { case 0: ret = g.read((uint8_t*)p, n); break; case 1: ret = g.read((uint16_t*)p, n); break; case 2: ret = g.read((uint32_t*)p, n); break; default: g.read(&b, (u64*)p, n); MC_CHECK(b, "%s read failed", nm); ret = n; } MC_CHECK(ret == n, "%s read = %zu", nm, ret); MC_CHECK(std::string(p, n * es) == want && std::string(p + n * es, 8) == "gggggggg", "%s read of %zu elements of %zu bytes", nm, n, es); free(p);
}
template<class G, class R> static void hist(const char *nm, G g0, R r0, int len)
{
	mc::Section s(nm); mc::forSeqUpTo(8, len, [&](const std::vector<int>& q) { if (!s.pick()) return; std::string w; for (int i : q) w += (char)('0' + i); mc::what("%s ops %s", nm, w.c_str()); G g(g0); R r(r0); for (int op : q) switch (op) { case 0: { uint32_t v = g.get32(); MC_CHECK(v == r.g32(), "get32"); break; } case 1: { u64 v = g.get64(); MC_CHECK(v == r.g64(), "get64"); break; } case 2: rd(g, r, nm, 0, 3); break; case 3: rd(g, r, nm, 0, 9); break; case 4: rd(g, r, nm, 1, 5); break; case 5: rd(g, r, nm, 2, 3); break; case 6: rd(g, r, nm, 3, 2); break; default: { auto v = g(); MC_CHECK((u64)v == r.unit(), "()"); } } mc::eval(!q.empty()); });
	mc::Section s2(mc::fmt("%s long", nm)); for (size_t n = 0; n <= 70; n++) for (int k = 0; k < 4; k++) { if (!s2.pick()) continue; mc::what("%s read %zu kind %d", nm, n, k); G g(g0); R r(r0); rd(g, r, nm, k, n); MC_CHECK(g.get64() == r.g64(), "afterwards"); mc::eval(n > 0); }
}
struct Script { std::vector<u64> v; size_t i; u64 get64() { return i < v.size() ? v[i++] : 0; } };
void mc_main()
{
	const int len = mc::tier(5, 6); hist("XorShift", cybozu::XorShift(), RX(0, 0, 0, 0), len); hist("XorShift seeded", cybozu::XorShift(1, 0, 0xffffffff, 7), RX(1, 0, 0xffffffff, 7), len - 1); hist("XorShift128Plus", cybozu::XorShift128Plus(), R128(123456789, 987654321), len); hist("Xoroshiro128Plus", cybozu::Xoroshiro128Plus(3, ~(u64)0), RO(3, ~(u64)0), len);
	{ mc::Section s("init"); for (uint32_t a : { 0u, 1u, 0xffffffffu }) for (uint32_t b : { 0u, 5u }) for (uint32_t c : { 0u, 6u }) for (uint32_t d : { 0u, 7u }) { if (!s.pick()) continue; mc::what("init %u %u %u %u", a, b, c, d); cybozu::XorShift x(a, b, c, d), y; y.get32(); y.init(a, b, c, d); RX r(a, b, c, d); for (int i = 0; i < 200; i++) { uint32_t v = r.g32(); MC_CHECK(x.get32() == v && y.get32() == v, "step %d", i); } cybozu::XorShift128Plus p(a, b), p2; p2.get64(); p2.init(a, b); R128 q(a, b); cybozu::Xoroshiro128Plus o(a, b), o2; o2.get64(); o2.init(a, b); RO t(a, b); for (int i = 0; i < 200; i++) { u64 v = q.g64(); MC_CHECK(p.get64() == v && p2.get64() == v, "128+ step %d", i); v = t.g64(); MC_CHECK(o.get64() == v && o2.get64() == v, "roshiro step %d", i); } mc::eval(); } }
	{ mc::Section s("pcg"); for (u64 st : { (u64)0, (u64)0x185706b82c2e03f8ULL, ~(u64)0, (u64)1 << 63, (u64)31 << 59 }) for (int k = 0; k < 64; k++) { if (!s.pick()) continue; u64 seed = st ^ ((u64)k << 58); mc::what("pcg state %llx", (unsigned long long)seed); cybozu::Pcg32 g(seed); u64 z = seed; auto nx = [&]() { u64 o = z; z = o * 6364136223846793005ULL + 0x6d; uint32_t x = (uint32_t)(((o >> 18) ^ o) >> 27), r = (uint32_t)(o >> 59); return (uint32_t)(x >> r | x << ((32 - r) & 31)); }; for (int i = 0; i < 100; i++) { uint32_t v = nx(); MC_CHECK(g.get32() == v, "step %d", i); v = nx(); MC_CHECK(g() == v, "()"); } { u64 a = nx(); a = a << 32 | nx(); MC_CHECK(g.get64() == a, "get64"); } for (size_t n = 0; n < 6; n++) { uint32_t b[6]; u64 c[6]; uint8_t d[7]; uint16_t e[7]; memset(b, 0x55, sizeof b); memset(d, 0x55, sizeof d); g.read(b, n); for (size_t i = 0; i < n; i++) MC_CHECK(b[i] == nx(), "read 32"); MC_CHECK(n == 6 || b[n] == 0x55555555, "read beyond"); g.read(c, n); for (size_t i = 0; i < n; i++) { u64 a = nx(); a = a << 32 | nx(); MC_CHECK(c[i] == a, "read 64"); } g.read(d, n); for (size_t i = 0; i < n; i++) MC_CHECK(d[i] == (uint8_t)nx(), "read bytes"); MC_CHECK(d[n] == 0x55, "read beyond"); g.read(e, n); for (size_t i = 0; i < n; i++) { uint8_t lo = (uint8_t)nx(), hi = (uint8_t)nx(); MC_CHECK(e[i] == (uint16_t)(lo | hi << 8), "read 16"); } } mc::eval(); } }
	// RandomGenerator: every request is filled completely or refused
	{ mc::Section s("RandomGenerator"); for (size_t n = 0; n <= 20; n++) for (int k = 0; k < 4; k++) for (size_t lim = 0; lim <= 40; lim++) { if (!s.pick()) continue; size_t es = (size_t)1 << k, z = n * es; mc::what("%zu elements of %zu bytes, device gives %zu", n, es, lim); g_limit = lim == 40 ? (size_t)-1 : lim; { cybozu::RandomGenerator rg; char *p = (char*)malloc(z + 8); memset(p, 'g', z + 8); bool b = true, thr = false; if (lim % 2) { switch (k) { case 0: rg.read(&b, (uint8_t*)p, n); break; case 1: rg.read(&b, (uint16_t*)p, n); break; case 2: rg.read(&b, (uint32_t*)p, n); break; default: rg.read(&b, (u64*)p, n); } } else try { switch (k) { case 0: rg.read((uint8_t*)p, n); break; case 1: rg.read((uint16_t*)p, n); break; case 2: rg.read((uint32_t*)p, n); break; default: rg.read((u64*)p, n); } } catch (cybozu::Exception&) { b = false; } MC_CHECK(b == (z <= g_limit), "result %d", b); if (b) for (size_t i = 0; i < z; i++) MC_CHECK((uint8_t)p[i] == at(i), "byte %zu", i); MC_CHECK(std::string(p + z, 8) == "gggggggg", "written beyond"); free(p); if (z <= g_limit) { uint64_t q = z; auto val = [&](int n) { u64 e = 0; for (int i = n - 1; i >= 0; i--) e = e << 8 | at(q + i); q += n; return e; }; for (int step = 0; step < 3; step++) { size_t need = step == 1 ? 8 : 4; bool t1 = false; u64 v = 0; try { v = step == 0 ? rg.get32() : step == 1 ? rg.get64() : rg(); } catch (cybozu::Exception&) { t1 = true; } bool can = q + need <= g_limit; MC_CHECK(t1 == !can, "get%zu with %zu of %zu bytes left: %s", need * 8, (size_t)(g_limit - q), g_limit, t1 ? "exception" : "no exception"); if (!can) break; MC_CHECK(v == val((int)need), "get%zu", need * 8); } } } MC_CHECK(g_fp == 0, "device left open"); g_limit = (size_t)-1; mc::eval(n > 0); }
		if (s.pick()) { mc::what("device cannot be opened"); g_openFail = 1; bool thr = false; try { cybozu::RandomGenerator rg; } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "no exception"); g_openFail = 0; mc::eval(); }
		for (u64 z : { (u64)0x7fffffff, (u64)0x80000000u, (u64)0xffffffffu, (u64)0x100000000ULL, (u64)0x100000001ULL, (u64)0x180000000ULL }) { if (!s.pick()) continue; mc::what("request of %llu bytes", (unsigned long long)z); cybozu::RandomGenerator rg; g_big = true; g_req = 0; bool b = false; rg.read(&b, (uint8_t*)&g_dummy, (size_t)z); MC_CHECK(g_req == z, "asked the device for %llu bytes", (unsigned long long)g_req); MC_CHECK(b, "refused"); g_big = false; mc::eval(); } }
	// long ranges are shuffled everywhere: every window of 100 positions has few unmoved elements, nothing is lost
	{ mc::Section s("long shuffle"); for (size_t n : { 300, 1000, 5000, 65536, 70000, 200000 }) for (int k = 0; k < 3; k++) { if (!s.pick()) continue; mc::what("shuffle of %zu, draws %d", n, k); struct Lcg { u64 x; u64 get64() { x = x * 6364136223846793005ull + 1442695040888963407ull; u64 y = x; y ^= y >> 33; y *= 0xff51afd7ed558ccdull; y ^= y >> 33; return y; } } rg = { (u64)k * 77 + 1 }; std::vector<uint32_t> v(n); for (size_t i = 0; i < n; i++) v[i] = (uint32_t)i; if (k) cybozu::shuffle(v, rg); else cybozu::shuffle(v.data(), n, rg); std::vector<uint32_t> t(v); std::sort(t.begin(), t.end()); bool perm = true; for (size_t i = 0; i < n; i++) perm = perm && t[i] == i; MC_CHECK(perm, "not a permutation"); for (size_t i = 0; i + 100 <= n; i += 100) { int fix = 0, near = 0; for (size_t j = i; j < i + 100; j++) { fix += v[j] == j; near += v[j] / (n / 4) == j / (n / 4); } MC_CHECK(fix < 20 && near < 75, "positions from %zu: %d unmoved, %d in the same quarter", i, fix, near); } mc::eval(); } }
	// longer ranges: some draws bring every element to every position
	{ mc::Section s("reach"); for (int n : { 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257 }) { if (!s.pick()) continue; mc::what("shuffle of %d", n); struct Dev { int n, base, at; u64 val; int i; u64 get64() { int k = i++; if (k == at) return val; return base == 0 ? 0 : base == 1 ? (u64)(n - 1 - k) : base == 2 ? (u64)k : (u64)(n - 1); } }; std::vector<uint8_t> seen((size_t)n * n, 0); std::vector<int> v(n); for (int base = 0; base < 4; base++) for (int at = 0; at < n; at++) for (int x = 0; x < n; x++) { Dev d = { n, base, at, (u64)x, 0 }; for (int i = 0; i < n; i++) v[i] = i; cybozu::shuffle(v, d); for (int i = 0; i < n; i++) seen[(size_t)v[i] * n + i] = 1; mc::state(); } for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) MC_CHECK(seen[(size_t)i * n + j], "element %d never comes to position %d", i, j); mc::eval(); } }
	// shuffle: with the k-th draw taken over all residues, every permutation comes out exactly once
	{ mc::Section s("shuffle"); for (int n = 0; n <= mc::tier(7, 8); n++) { if (!s.pick()) continue; mc::what("shuffle of %d", n); std::set<std::string> seen; u64 cnt = 0; std::vector<int> d(n, 0); for (;;) { Script sc; sc.i = 0; for (int i = 0; i + 1 < n; i++) sc.v.push_back((u64)d[i] + (u64)(n - i) * (cnt % 3 ? 0 : 1000003)); std::string v(n, 0); for (int i = 0; i < n; i++) v[i] = (char)i; if (cnt % 2) cybozu::shuffle(v, sc); else cybozu::shuffle(&v[0], v.size(), sc); std::string t(v); std::sort(t.begin(), t.end()); bool perm = true; for (int i = 0; i < n; i++) perm = perm && t[i] == i; MC_CHECK(perm, "not a permutation"); MC_CHECK(seen.insert(v).second, "permutation twice"); MC_CHECK((int)sc.i == (n > 1 ? n - 1 : 0), "%zu draws", sc.i); cnt++; mc::state(); int i = 0; for (; i + 1 < n; i++) { if (++d[i] < n - i) break; d[i] = 0; } if (i + 1 >= n) break; } u64 f = 1; for (int i = 2; i <= n; i++) f *= i; MC_CHECK(seen.size() == f, "%zu permutations of %llu", seen.size(), (unsigned long long)f); mc::eval(n > 1); } }
	// nlp generators
	{ mc::Section s("nlp"); double rng[][2] = { { 0, 1 }, { -1, 1 }, { 5, 5 }, { -3.5, 100 } }; for (int seed : { 0, 1, 2, 12345, -1, 0x7fffffff }) for (auto& ab : rng) { if (!s.pick()) continue; mc::what("seed %d [%g,%g)", seed, ab[0], ab[1]); cybozu::nlp::UniformRandomGenerator g(ab[0], ab[1], seed), h(ab[0], ab[1]); h.init(seed); RX r((uint32_t)seed, 0, 0, 0); for (int i = 0; i < 500; i++) { double x = g.getDouble(), y = h.getDouble(); uint32_t a = r.g32() >> 5, b = r.g32() >> 6; double z = (a * 67108864.0 + b) / 9007199254740992.0; double e = (ab[1] - ab[0]) * z + ab[0]; MC_CHECK(x == e && y == e, "draw %d", i); MC_CHECK(x >= ab[0] && (x < ab[1] || ab[0] == ab[1]), "draw %d out of range", i); } { uint32_t v = r.g32(); MC_CHECK(g.get32() == v && h() == v, "get32"); MC_CHECK(g.get64() == r.g64(), "get64"); }
			// the normal generator is the sum of twelve uniform draws of [0,1) minus 6, scaled by s and moved by u
			cybozu::nlp::NormalRandomGenerator n(ab[0], ab[1], seed), m(ab[0], ab[1]); m.init(seed); RX q((uint32_t)seed, 0, 0, 0); for (int i = 0; i < 200; i++) { double sum = -6; for (int j = 0; j < 12; j++) { uint32_t a = q.g32() >> 5, b = q.g32() >> 6; sum += (a * 67108864.0 + b) / 9007199254740992.0; } double e = sum * ab[1] + ab[0]; double x = n.get(), y = m.get(); MC_CHECK(x > e - 1e-9 && x < e + 1e-9, "normal draw %d with seed in the constructor: %g, expected %g", i, x, e); MC_CHECK(y > e - 1e-9 && y < e + 1e-9, "normal draw %d after init: %g, expected %g", i, y, e); } mc::eval(); } }
}
