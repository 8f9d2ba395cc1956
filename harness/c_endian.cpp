// byte order conversion, bit scans, SipHash and FNV; every 16 and 32 bit value
#include "util.hpp"
#include <string>
#include <cybozu/endian.hpp>
#include <cybozu/bit_operation.hpp>
#include <cybozu/siphash.hpp>
#include <cybozu/hash.hpp>
using namespace cybozu;
typedef uint64_t u64;
static u64 val(const unsigned char *p, int n, bool be) { u64 v = 0; for (int i = 0; i < n; i++) v |= (u64)p[be ? n - 1 - i : i] << (8 * i); return v; }
#define ONE(W, T) static bool conv##W(T v, int off) \
{ unsigned char b[24]; memset(b, 0x5a, sizeof b); unsigned char *p = b + 8 + off; bool ok = true; \
	Set##W##bitAsLE(p, v); ok = ok && val(p, W / 8, false) == v && Get##W##bitAsLE(p) == v && Get##W##bitAsBE(p) == byteSwap(v); for (int i = 0; i < 24; i++) if (b + i < p || b + i >= p + W / 8) ok = ok && b[i] == 0x5a; \
	Set##W##bitAsBE(p, v); ok = ok && val(p, W / 8, true) == v && Get##W##bitAsBE(p) == v && Get##W##bitAsLE(p) == byteSwap(v) && byteSwap(byteSwap(v)) == v; for (int i = 0; i < 24; i++) if (b + i < p || b + i >= p + W / 8) ok = ok && b[i] == 0x5a; return ok; }
ONE(16, uint16_t) ONE(32, uint32_t) ONE(64, uint64_t)
static bool bits(u64 v, int w) { int lo = -1, hi = -1, n = 0; for (int i = 0; i < w; i++) if (v >> i & 1) { if (lo < 0) lo = i; hi = i; n++; } if (w == 64) return (!v || (bsf<u64>(v) == lo && bsr<u64>(v) == hi)) && popcnt<u64>(v) == (uint32_t)n; if (w == 32) return (!v || (bsf<uint32_t>((uint32_t)v) == lo && bsr<uint32_t>((uint32_t)v) == hi)) && popcnt<uint32_t>((uint32_t)v) == (uint32_t)n; if (w == 16) return !v || (bsf<uint16_t>((uint16_t)v) == lo && bsr<uint16_t>((uint16_t)v) == hi); return !v || (bsf<uint8_t>((uint8_t)v) == lo && bsr<uint8_t>((uint8_t)v) == hi); }
// SipHash-2-4 written from the specification
static u64 rl(u64 x, int b) { return x << b | x >> (64 - b); }
struct Sip { u64 v[4]; void r() { v[0] += v[1]; v[1] = rl(v[1], 13); v[1] ^= v[0]; v[0] = rl(v[0], 32); v[2] += v[3]; v[3] = rl(v[3], 16); v[3] ^= v[2]; v[0] += v[3]; v[3] = rl(v[3], 21); v[3] ^= v[0]; v[2] += v[1]; v[1] = rl(v[1], 17); v[1] ^= v[2]; v[2] = rl(v[2], 32); } };
static u64 sipRef(const std::string& m, u64 k0, u64 k1) { Sip s = { { k0 ^ 0x736f6d6570736575ULL, k1 ^ 0x646f72616e646f6dULL, k0 ^ 0x6c7967656e657261ULL, k1 ^ 0x7465646279746573ULL } }; size_t n = m.size(), i = 0; for (;;) { u64 w = 0; bool last = n - i < 8; for (size_t j = 0; j < 8 && i + j < n; j++) w |= (u64)(unsigned char)m[i + j] << (8 * j); if (last) w |= (u64)(n & 255) << 56; s.v[3] ^= w; s.r(); s.r(); s.v[0] ^= w; if (last) break; i += 8; } s.v[2] ^= 0xff; s.r(); s.r(); s.r(); s.r(); return s.v[0] ^ s.v[1] ^ s.v[2] ^ s.v[3]; }
void mc_main()
{
	{ mc::Section s("16 bit"); for (int hi = 0; hi < 256; hi++) { if (!s.pick()) continue; mc::what("values %02x00..%02xff", hi, hi); for (int lo = 0; lo < 256; lo++) for (int off = 0; off < 8; off++) { uint16_t v = (uint16_t)(hi << 8 | lo); MC_CHECK(conv16(v, off), "16 bit %04x offset %d", v, off); MC_CHECK(bits(v, 16) && bits(lo, 8), "bits of %04x", v); } mc::state(2048); mc::eval(); } }
	{ mc::Section s("32 bit"); const uint32_t low = mc::tier(1u << 14, 1u << 16); for (uint32_t hi = 0; hi < 0x10000; hi += mc::tier(16, 1)) { if (!s.pick()) continue; uint32_t h = hi; mc::what("values %04x....", h); for (uint32_t x = 0; x < low; x++) for (int k = 0; k < 2; k++) { uint32_t v = k ? (h << 16 | x * (65536 / low)) : byteSwap(uint32_t(h << 16 | x)); if (!conv32(v, v & 7) || !bits(v, 32)) { MC_CHECK(false, "32 bit %08x", v); break; } } mc::state(low * 2); mc::eval(); } }
	{ mc::Section s("64 bit"); for (int a = 0; a < 64; a++) for (int b = 0; b <= a; b++) { if (!s.pick()) continue; mc::what("bits %d %d", a, b); for (int c = 0; c <= b; c++) for (int d = 0; d <= c; d++) for (int inv = 0; inv < 2; inv++) { u64 v = (u64)1 << a | (u64)1 << b | (u64)1 << c | (u64)1 << d; if (inv) v = ~v; MC_CHECK(conv64(v, (a + d) & 7) && bits(v, 64), "64 bit %016llx", (unsigned long long)v); } mc::state(); mc::eval(); } if (s.pick()) { for (int i = 0; i < 256; i++) for (int off = 0; off < 8; off++) { u64 v = 0; for (int j = 0; j < 8; j++) v = v << 8 | ((i * 37 + j * 91) & 255); MC_CHECK(conv64(v, off), "64 bit"); } MC_CHECK(bits(0, 64) && bits(0, 32), "zero"); mc::eval(); } for (int i = 0; i < 64; i++) { if (!s.pick()) continue; mc::what("makeBitMask64(%d)", i); MC_CHECK(makeBitMask64(i) == (i ? ~(u64)0 >> (64 - i) : 0), "mask"); mc::eval(); } }
	{ mc::Section s("siphash"); u64 ks[] = { 0, 0x0706050403020100ULL, 0x0f0e0d0c0b0a0908ULL, ~(u64)0, 1, (u64)1 << 63 }; for (int n = 0; n <= mc::tier(700, 3000); n++) { if (!s.pick()) continue; mc::what("siphash length %d", n); for (int kind = 0; kind < 3; kind++) { std::string d(n, 0); for (int i = 0; i < n; i++) d[i] = kind == 0 ? (char)i : kind == 1 ? (char)0xff : (char)(i * i * 7 + 1); for (int off = 0; off < 2; off++) { mc::Exact e(std::string(off, 'x') + d); for (u64 a : ks) for (u64 b : ks) { u64 g = siphash24(e.p + off, n, a, b); MC_CHECK(g == sipRef(d, a, b), "keys %llx %llx: %llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)g); } MC_CHECK(siphash24(e.p + off, n) == sipRef(d, ks[1], ks[2]), "default keys"); } } mc::eval(); } if (s.pick()) { std::string d; for (int i = 0; i < 15; i++) d += (char)i; MC_CHECK(sipRef(d, ks[1], ks[2]) == 0xa129ca6149be45e5ULL, "reference self test"); mc::eval(); } }
	{ mc::Section s("fnv"); mc::forStr(std::string("\x00\x01\x7f", 3) + "a", mc::tier(5, 7), [&](const std::string& d) { if (!s.pick()) return; mc::what("fnv %s", mc::hex(d).c_str()); uint32_t a = 2166136261U; u64 b = 14695981039346656037ULL; for (unsigned char c : d) { a = (a ^ c) * 16777619; b = (b ^ c) * 1099511628211ULL; } b ^= b >> 32; mc::Exact e(d); std::vector<uint8_t> v(d.begin(), d.end()); MC_CHECK(hash32(e.b(), e.e()) == a && hash32(e.p, e.n) == a && hash32(v.begin(), v.end()) == a && hash32(d.begin(), d.end(), 0) == a, "hash32"); MC_CHECK(hash64(e.b(), e.e()) == b && hash64(e.p, e.n) == b && hash64(v.begin(), v.end()) == b, "hash64"); for (size_t i = 0; i <= d.size(); i++) MC_CHECK(hash32(e.p + i, e.n - i, hash32(e.p, i)) == a || hash32(e.p, i) == 0, "hash32 continued at %zu", i); mc::eval(!d.empty()); }); 
		{ for (int x = 0; x < 256; x++) for (int y = 0; y < 256; y++) { if (!s.pick()) continue; uint8_t q[2] = { (uint8_t)x, (uint8_t)y }; mc::what("fnv bytes %02x %02x", x, y); uint32_t a = 2166136261U; u64 b = 14695981039346656037ULL; for (uint8_t c : q) { a = (a ^ c) * 16777619; b = (b ^ c) * 1099511628211ULL; } b ^= b >> 32; MC_CHECK(hash32(q, 2) == a && hash64(q, 2) == b, "fnv"); mc::eval(); } } }
}
