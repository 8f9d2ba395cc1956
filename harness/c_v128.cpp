// V128 against lane arithmetic on plain integers
#include "util.hpp"
#include <utility>
#include <cybozu/v128.hpp>
using namespace cybozu;
typedef unsigned __int128 W; struct L { uint32_t v[4]; uint8_t b(int i) const { return (uint8_t)(v[i / 4] >> (i % 4 * 8)); } void sb(int i, uint8_t x) { v[i / 4] = (v[i / 4] & ~(0xffu << (i % 4 * 8))) | (uint32_t)x << (i % 4 * 8); } uint64_t q(int i) const { return v[i * 2] | (uint64_t)v[i * 2 + 1] << 32; } void sq(int i, uint64_t x) { v[i * 2] = (uint32_t)x; v[i * 2 + 1] = (uint32_t)(x >> 32); } W w() const { return (W)q(1) << 64 | q(0); } };
static L ofW(W x) { L l; l.sq(0, (uint64_t)x); l.sq(1, (uint64_t)(x >> 64)); return l; }
static V128 mk(const L& l) { return V128(l.v[3], l.v[2], l.v[1], l.v[0]); }
static L get(const V128& x) { L l; uint32_t t[5]; x.store_u(t + 1); for (int i = 0; i < 4; i++) l.v[i] = t[i + 1]; return l; }
static bool eq(const L& a, const L& b) { return !memcmp(a.v, b.v, 16); }
static std::string show(const L& l) { return mc::fmt("%08x:%08x:%08x:%08x", l.v[3], l.v[2], l.v[1], l.v[0]); }
#define EQ(got, want, nm) do { L g_ = (got), w_ = (want); MC_CHECK(eq(g_, w_), "%s gives %s, expected %s", nm, show(g_).c_str(), show(w_).c_str()); } while (0)
template<class F> static L lanes(const L& a, const L& b, F f) { L r; for (int i = 0; i < 4; i++) r.v[i] = f(a.v[i], b.v[i]); return r; }
template<int n> static void imm(const L& a, const L& b)
{
	V128 x = mk(a), y = mk(b);
	if (n < 20) { EQ(get(psrldq<n>(x)), ofW(n >= 16 ? 0 : a.w() >> (n * 8)), mc::fmt("psrldq<%d>", n).c_str()); EQ(get(pslldq<n>(x)), ofW(n >= 16 ? 0 : a.w() << (n * 8)), mc::fmt("pslldq<%d>", n).c_str()); }
	if (n < 33) { L r; for (int i = 0; i < 16; i++) { int k = i + n; r.v[0] += 0; r.sb(i, k < 16 ? b.b(k) : k < 32 ? a.b(k - 16) : 0); } EQ(get(palignr<n>(x, y)), r, mc::fmt("palignr<%d>", n).c_str()); }
	if (n <= 70) { L r, s; for (int i = 0; i < 2; i++) { r.sq(i, n >= 64 ? 0 : a.q(i) >> (n & 63)); s.sq(i, n >= 64 ? 0 : a.q(i) << (n & 63)); } EQ(get(psrlq<n>(x)), r, mc::fmt("psrlq<%d>", n).c_str()); EQ(get(psllq<n>(x)), s, mc::fmt("psllq<%d>", n).c_str()); V128 c((uint32_t)n); EQ(get(psrlq(x, c)), r, mc::fmt("psrlq by %d", n).c_str()); EQ(get(psllq(x, c)), s, mc::fmt("psllq by %d", n).c_str()); }
	if constexpr (n >= 0 && n < 64) { V128 t(x); t.shrBit<n>(); EQ(get(t), ofW(a.w() >> n), mc::fmt("shrBit<%d>", n).c_str()); V128 u(x); u.shlBit<n>(); EQ(get(u), ofW(a.w() << n), mc::fmt("shlBit<%d>", n).c_str()); }
	{ L r; for (int i = 0; i < 4; i++) r.v[i] = a.v[(n & 255) >> (i * 2) & 3]; EQ(get(pshufd<(n & 255)>(x)), r, mc::fmt("pshufd<%d>", n).c_str()); }
	if constexpr (n < 4) { MC_CHECK(pextrd<n>(x) == a.v[n], "pextrd<%d>", n); L r = a; r.v[n] = b.v[0]; EQ(get(pinsrd<n>(x, b.v[0])), r, mc::fmt("pinsrd<%d>", n).c_str()); }
	if constexpr (n < 16) { L r = a; r.sb(n, b.b(0)); EQ(get(pinsrb<n>(x, b.b(0))), r, mc::fmt("pinsrb<%d>", n).c_str()); }
	if constexpr (n <= 16) { L c = ofW(a.w() * 3 + b.w()); V128 p = x, q = y, z = mk(c); uint8_t t[48], r[48]; for (int i = 0; i < 16; i++) { t[i] = a.b(i); t[16 + i] = b.b(i); t[32 + i] = c.b(i); } auto cmp = [&](const char *nm) { L l[3]; for (int i = 0; i < 48; i++) l[i / 16].sb(i % 16, r[i]); EQ(get(p), l[0], mc::fmt("%s<%d> x0", nm, n).c_str()); EQ(get(q), l[1], mc::fmt("%s<%d> x1", nm, n).c_str()); EQ(get(z), l[2], mc::fmt("%s<%d> x2", nm, n).c_str()); }; rotrByte<n>(p, q, z); for (int i = 0; i < 48; i++) r[i] = t[(i + n) % 48]; cmp("rotrByte"); p = x; q = y; z = mk(c); rotlByte<n>(p, q, z); for (int i = 0; i < 48; i++) r[(i + n) % 48] = t[i]; cmp("rotlByte"); }
}
template<int... I> static void imms(const L& a, const L& b, std::integer_sequence<int, I...>) { int d[] = { (imm<I>(a, b), 0)... }; (void)d; }
static void ops(const L& a, const L& b)
{
	V128 x = mk(a), y = mk(b); mc::what("a=%s b=%s", show(a).c_str(), show(b).c_str()); EQ(get(x), a, "constructor from four words");
	EQ(get(paddd(x, y)), lanes(a, b, [](uint32_t p, uint32_t q) { return p + q; }), "paddd"); EQ(get(psubd(x, y)), lanes(a, b, [](uint32_t p, uint32_t q) { return p - q; }), "psubd"); EQ(get(pandn(x, y)), lanes(a, b, [](uint32_t p, uint32_t q) { return ~p & q; }), "pandn"); EQ(get(por(x, y)), lanes(a, b, [](uint32_t p, uint32_t q) { return p | q; }), "por"); EQ(get(pand(x, y)), lanes(a, b, [](uint32_t p, uint32_t q) { return p & q; }), "pand"); EQ(get(pxor(x, y)), lanes(a, b, [](uint32_t p, uint32_t q) { return p ^ q; }), "pxor");
	EQ(get(pmaxsd(x, y)), lanes(a, b, [](uint32_t p, uint32_t q) { return (int32_t)p > (int32_t)q ? p : q; }), "pmaxsd"); EQ(get(pminsd(x, y)), lanes(a, b, [](uint32_t p, uint32_t q) { return (int32_t)p < (int32_t)q ? p : q; }), "pminsd"); EQ(get(pmaxud(x, y)), lanes(a, b, [](uint32_t p, uint32_t q) { return p > q ? p : q; }), "pmaxud"); EQ(get(pminud(x, y)), lanes(a, b, [](uint32_t p, uint32_t q) { return p < q ? p : q; }), "pminud"); EQ(get(pcmpeqd(x, y)), lanes(a, b, [](uint32_t p, uint32_t q) { return p == q ? ~0u : 0; }), "pcmpeqd"); EQ(get(pcmpgtd(x, y)), lanes(a, b, [](uint32_t p, uint32_t q) { return (int32_t)p > (int32_t)q ? ~0u : 0; }), "pcmpgtd");
	{ L r = { { a.v[2], b.v[2], a.v[3], b.v[3] } }; EQ(get(punpckhdq(x, y)), r, "punpckhdq"); EQ(get(unpckhps(x, y)), r, "unpckhps"); } { L r = { { a.v[0], b.v[0], a.v[1], b.v[1] } }; EQ(get(punpckldq(x, y)), r, "punpckldq"); EQ(get(unpcklps(x, y)), r, "unpcklps"); } { L r = { { a.v[2], a.v[3], b.v[2], b.v[3] } }; EQ(get(punpckhqdq(x, y)), r, "punpckhqdq"); } { L r = { { a.v[0], a.v[1], b.v[0], b.v[1] } }; EQ(get(punpcklqdq(x, y)), r, "punpcklqdq"); }
	{ uint32_t m = 0; for (int i = 0; i < 16; i++) m |= (uint32_t)(a.b(i) >> 7) << i; MC_CHECK(pmovmskb(x) == m, "pmovmskb %x, expected %x", pmovmskb(x), m); } { L r; for (int i = 0; i < 16; i++) r.sb(i, b.b(i) & 0x80 ? 0 : a.b(b.b(i) & 15)); EQ(get(pshufb(x, y)), r, "pshufb"); } MC_CHECK(ptest_zf(x, y) == ((a.w() & b.w()) == 0), "ptest_zf"); MC_CHECK(ptest_cf(x, y) == ((~a.w() & b.w()) == 0), "ptest_cf"); { L r = { { 0, 0, 0, 0 } }; for (int i = 0; i < 16; i++) r.v[i / 8 * 2] += abs((int)a.b(i) - (int)b.b(i)); EQ(get(psadbw(x, y)), r, "psadbw"); }
	MC_CHECK(movd(x) == a.v[0] && movq(x) == a.q(0), "movd or movq"); { L r = { { a.v[0], 0, 0, 0 } }; EQ(get(V128(a.v[0])), r, "V128(uint32_t)"); } { L r = { { a.v[0], a.v[1], 0, 0 } }; EQ(get(V128(a.q(0))), r, "V128(uint64_t)"); } { V128 t(x); EQ(get(t), a, "copy"); t.clear(); L z = { { 0, 0, 0, 0 } }; EQ(get(t), z, "clear"); EQ(get(Zero()), z, "Zero"); t.set(a.v[1]); L r = { { a.v[1], a.v[1], a.v[1], a.v[1] } }; EQ(get(t), r, "set(x)"); t.set(b.v[3], b.v[2], b.v[1], b.v[0]); EQ(get(t), b, "set of four words"); t = x; EQ(get(t), a, "assignment"); EQ(get(V128(x.to_ps())), a, "to_ps"); EQ(get(V128(x.x_)), a, "V128(__m128i)"); }
	{ struct alignas(16) A { uint32_t g0[4], p[4], q[4], g1[4]; } m; memset(&m, 0x5a, sizeof(m)); memcpy(m.p, a.v, 16); memcpy(m.q, b.v, 16); L g; memset(&g, 0x5a, sizeof(g)); auto at = [](const uint32_t *p) { L l; memcpy(l.v, p, 16); return l; }; EQ(get(V128(m.p)), a, "V128(pointer)"); V128 t; t.load(m.q); EQ(get(t), b, "load"); t.load_u(m.p + 1); L u = { { a.v[1], a.v[2], a.v[3], b.v[0] } }; EQ(get(t), u, "load_u"); swap128(m.p, m.q); EQ(at(m.p), b, "swap128 first"); EQ(at(m.q), a, "swap128 second"); copy128(m.p, m.q); EQ(at(m.p), a, "copy128"); EQ(at(m.q), a, "source of copy128"); y.store(m.p); EQ(at(m.p), b, "store"); x.store_u(m.q); EQ(at(m.q), a, "store_u"); for (int o = 1; o < 4; o++) { uint32_t *up = m.p + o; asm volatile("" : "+r"(up) : : "memory"); y.store_u(up); asm volatile("" : "+r"(up) : : "memory"); EQ(at(up), b, "store_u to a word address"); V128 w; w.load_u(up); EQ(get(w), b, "load_u from a word address"); } EQ(at(m.g0), g, "words before"); EQ(at(m.g1), g, "words after"); }
	imms(a, b, std::make_integer_sequence<int, 71>()); mc::eval();
}
template<int B, int... I> static void shuf(const L& a, std::integer_sequence<int, I...>) { V128 x = mk(a); auto f = [&](int n, const V128& g) { L r; for (int i = 0; i < 4; i++) r.v[i] = a.v[n >> (i * 2) & 3]; EQ(get(g), r, mc::fmt("pshufd<%d>", n).c_str()); }; int d[] = { (f(I + B, pshufd<I + B>(x)), 0)... }; (void)d; mc::eval(); }
void mc_main()
{
	const uint32_t val[] = { 0, 0xffffffffu, 0x80000000u, 0x7fffffffu, 0x01020304u, 0x8f90e0ffu }; const int nv = mc::tier(5, 6);
	{ mc::Section s("lanes"); mc::forSeq(nv, 4, [&](const std::vector<int>& q) { if (!s.pick()) return; L a, b; for (int i = 0; i < 4; i++) a.v[i] = val[q[i]]; mc::forSeq(nv, 4, [&](const std::vector<int>& p) { for (int i = 0; i < 4; i++) b.v[i] = val[(p[i] + i) % 6]; ops(a, b); }); }); }
	{ mc::Section s("bytes"); for (int k = 0; k < 256; k++) { if (!s.pick()) continue; L a, b; for (int i = 0; i < 16; i++) { a.sb(i, (uint8_t)(k + i * 17)); b.sb(i, (uint8_t)(k * 3 + i * 29)); } ops(a, b); ops(b, a); for (int i = 0; i < 16; i++) b.sb(i, (uint8_t)((i + k) & 0x9f)); ops(a, b); } }
	{ mc::Section s("bits"); for (int k = 0; k < 128; k++) { if (!s.pick()) continue; L a = ofW((W)1 << k), b = ofW(~((W)1 << (127 - k))); ops(a, b); ops(b, a); } }
	{ mc::Section s("shuffle"); L a = { { 0x11111111, 0x22222222, 0x33333333, 0x44444444 } }; if (s.pick()) { mc::what("pshufd of distinct words"); shuf<0>(a, std::make_integer_sequence<int, 256>()); } }
	// printing
	{ mc::Section s("put"); for (int i = 0; i < 2; i++) if (s.pick()) { mc::what("put(%s)", i ? "\"m=\"" : ""); char t[] = "/tmp/mcv128XXXXXX"; int fd = mkstemp(t); fflush(stdout); int old = dup(1); dup2(fd, 1); V128 x(0x1u, 0xffffffffu, 0x80000000u, 0xabcdefu); if (i) x.put("m="); else x.put(); fflush(stdout); dup2(old, 1); close(old); char buf[200]; ssize_t n = pread(fd, buf, sizeof(buf), 0); close(fd); unlink(t); MC_CHECK(std::string(buf, n) == (i ? "m=00000001:ffffffff:80000000:00abcdef\n" : "00000001:ffffffff:80000000:00abcdef"), "printed %s", std::string(buf, n).c_str()); mc::eval(); } }
}
