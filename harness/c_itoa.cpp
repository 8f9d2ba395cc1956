// C16: integer -> text, exact and reversible, in every base, width and buffer
#include "mc.hpp"
#include <limits>
#include <limits.h>
#include <assert.h>
#include <cybozu/itoa.hpp>
#include <cybozu/atoi.hpp>
typedef __int128 I; typedef unsigned __int128 U;
static std::string conv(U u, int base, bool up = false) { std::string s; do { s.insert(s.begin(), (up ? "0123456789ABCDEF" : "0123456789abcdef")[(int)(u % base)]); u /= base; } while (u); return s; }
static std::string dec(I v) { return v < 0 ? "-" + conv(-(U)v, 10) : conv((U)v, 10); }
struct Heap { char *p; size_t n; Heap(size_t n_) : p((char*)malloc(n_ ? n_ : 1)), n(n_) { memset(p, '#', n); } ~Heap() { free(p); } };
#define EQ(a, b) do { std::string A_ = (a), B_ = (b); MC_CHECK(A_ == B_, #a " = %s, expected %s", A_.c_str(), B_.c_str()); } while (0)
template<class T> static void decT(T x)
{
	mc::what("itoa(%s) size=%zu signed=%d", dec((I)x).c_str(), sizeof(T), std::numeric_limits<T>::is_signed);
	std::string e = dec((I)x), s = "garbage"; cybozu::itoa(s, x); EQ(s, e); EQ(cybozu::itoa(x), e);
	T back = cybozu::atoi(s); MC_CHECK(back == x, "does not convert back");
	const size_t w[] = { 0, 1, 2, 3, 5, 10, 11, 20, 21, 25 };
	for (int i = 0; i < 10; i++) { std::string z = e; bool neg = e[0] == '-'; if (z.size() < w[i]) z = (neg ? "-" : "") + std::string(w[i] - z.size(), '0') + (neg ? e.substr(1) : e); EQ(cybozu::itoaWithZero(x, w[i]), z); }
	EQ(cybozu::itoaWithZero(x, e.size() + 3, '_'), (e[0] == '-' ? "-___" + e.substr(1) : "___" + e));
	mc::eval();
}
static std::string pad(const std::string& s, size_t n) { return s.size() < n ? std::string(n - s.size(), '0') + s : s.substr(s.size() - n); }
template<class T> static void hexT(T x, bool full)
{
	mc::what("itohex/itobin(%s) size=%zu", conv(x, 16).c_str(), sizeof(T));
	std::string hu = conv(x, 16, true), hl = conv(x, 16), b = conv(x, 2), s;
	EQ(cybozu::itohex(x), pad(hu, sizeof(T) * 2)); EQ(cybozu::itohex(x, false), pad(hl, sizeof(T) * 2)); EQ(cybozu::itohex(x, true, false), hu); EQ(cybozu::itohex(x, false, false), hl);
	cybozu::itohex(s, x, false, true); EQ(s, pad(hl, sizeof(T) * 2)); cybozu::itohex(s, x); EQ(s, pad(hu, sizeof(T) * 2)); cybozu::itohex(s, x, true, false); EQ(s, hu); cybozu::itohex(s, x, false); EQ(s, pad(hl, sizeof(T) * 2)); { char q[4]; cybozu::itohex(q, 4, x); EQ(std::string(q, 4), pad(hu, 4)); }
	EQ(cybozu::itobin(x), pad(b, sizeof(T) * 8)); EQ(cybozu::itobin(x, false), b); cybozu::itobin(s, x, false); EQ(s, b); cybozu::itobin(s, x); EQ(s, pad(b, sizeof(T) * 8));
	MC_CHECK(cybozu::getHexLength(x) == hu.size(), "getHexLength=%zu", cybozu::getHexLength(x));
	MC_CHECK(cybozu::getBinLength(x) == b.size(), "getBinLength=%zu", cybozu::getBinLength(x));
	T back = cybozu::hextoi(cybozu::itohex(x)); MC_CHECK(back == x, "hex does not convert back");
	if (full) for (size_t len = 0; len <= 70; len++) {
		Heap h(len); cybozu::itohex(h.p, len, x, len & 1); EQ(std::string(h.p, len), pad(len & 1 ? hu : hl, len));
		Heap g(len); cybozu::itobin(g.p, len, x); EQ(std::string(g.p, len), pad(b, len));
		Heap a(len); size_t n = cybozu::itoa_local::uintToHex(a.p, len, x, true); MC_CHECK(n == (len >= hu.size() ? hu.size() : 0), "uintToHex into %zu gives %zu", len, n); if (n) EQ(std::string(a.p + len - n, n), hu);
		Heap c(len); n = cybozu::itoa_local::uintToBin(c.p, len, x); MC_CHECK(n == (len >= b.size() ? b.size() : 0), "uintToBin into %zu gives %zu", len, n); if (n) EQ(std::string(c.p + len - n, n), b);
		std::string d = dec(x); Heap f(len); n = cybozu::itoa_local::uintToDec(f.p, len, x); MC_CHECK(n == (len >= d.size() ? d.size() : 0), "uintToDec into %zu gives %zu", len, n); if (n) EQ(std::string(f.p + len - n, n), d);
	}
	mc::eval();
}
static void ll(long long x)
{
	mc::what("intToDec(%lld)", x); std::string d = dec(x);
	for (size_t len = 0; len <= 24; len++) { Heap f(len); size_t n = cybozu::itoa_local::intToDec(f.p, len, x); MC_CHECK(n == (len >= d.size() ? d.size() : 0), "into %zu gives %zu", len, n); if (n) EQ(std::string(f.p + len - n, n), d); }
	mc::eval();
}
static void all(I v, bool full)
{
	if (v >= INT_MIN && v <= INT_MAX) decT<int>((int)v);
	if (v >= 0 && v <= UINT_MAX) { decT<unsigned>((unsigned)v); hexT<unsigned>((unsigned)v, full); }
	if (v >= LLONG_MIN && v <= LLONG_MAX) { decT<long long>((long long)v); decT<long>((long)v); ll((long long)v); }
	if (v >= 0 && v <= ULLONG_MAX) { decT<unsigned long long>((unsigned long long)v); decT<unsigned long>((unsigned long)v); hexT<unsigned long long>((unsigned long long)v, full); hexT<unsigned long>((unsigned long)v, full); }
	if (v >= 0 && v <= 65535) hexT<unsigned short>((unsigned short)v, full); if (v >= 0 && v <= 255) hexT<unsigned char>((unsigned char)v, full);
}
#include <limits.h>
void mc_main()
{
	{ mc::Section s("small"); for (int v = -1100; v <= mc::tier(70000, 1000000); v++) if (s.pick()) { all(v, v < 300); if (v < 3) mc::sample(mc::g().sh->what); } }
	{ mc::Section s("negative"); for (int v = 1101; v <= mc::tier(40000, 1000000); v++) if (s.pick()) all(-v, false); }
	{ mc::Section s("boundaries"); for (int sh = 4; sh <= 64; sh++) for (int d = -20; d <= 20; d++) for (int sg = 0; sg < 2; sg++) if (s.pick()) { I v = ((I)1 << sh) + d; all(sg ? -v : v, true); mc::sample(mc::g().sh->what); } }
	{ mc::Section s("tens"); I p = 1; for (int i = 0; i < 20; i++, p *= 10) for (int k = 1; k <= 9; k++) for (int d = -2; d <= 2; d++) for (int sg = 0; sg < 2; sg++) if (s.pick()) all(sg ? -(p * k + d) : p * k + d, d == 0); }
	{ mc::Section s("patterns"); for (int i = 0; i < 64; i++) for (int j = 0; j < 64; j++) if (s.pick()) { unsigned long long v = (1ULL << i) ^ (1ULL << j); all((I)v, false); all((I)~v, false); all((I)(v | (v - 1)), false); } }
}
