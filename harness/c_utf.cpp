// UTF-8 / UTF-16 / UTF-32 conversions
#include "mc.hpp"
#include <cybozu/string.hpp>
#include <sstream>
using cybozu::Char; using cybozu::Char16; using cybozu::String; using cybozu::String16;
// reference encoders written from the definition of the encodings
static bool scalar(long c) { return c >= 0 && c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff); }
static std::string enc8(long c)
{
	std::string s;
	int n = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
	if (n == 1) return std::string(1, (char)c);
	static const int lead[] = { 0, 0, 0xc0, 0xe0, 0xf0 };
	for (int i = n - 1; i > 0; i--) { s.insert(s.begin(), char(0x80 + c % 64)); c /= 64; }
	s.insert(s.begin(), char(lead[n] + c));
	return s;
}
static String16 enc16(long c) { String16 s; if (c < 0x10000) s += (Char16)c; else { c -= 0x10000; s += (Char16)(0xd800 + c / 1024); s += (Char16)(0xdc00 + c % 1024); } return s; }
// reference decoder: table driven over the well-formed ranges of the Unicode standard
static bool dec8(const unsigned char *p, size_t n, size_t& len, long& c)
{
	static const struct { int lo, hi, n, lo2, hi2; } T[] = { { 0, 0x7f, 1, 0, 0 }, { 0xc2, 0xdf, 2, 0x80, 0xbf }, { 0xe0, 0xe0, 3, 0xa0, 0xbf }, { 0xe1, 0xec, 3, 0x80, 0xbf }, { 0xed, 0xed, 3, 0x80, 0x9f }, { 0xee, 0xef, 3, 0x80, 0xbf }, { 0xf0, 0xf0, 4, 0x90, 0xbf }, { 0xf1, 0xf3, 4, 0x80, 0xbf }, { 0xf4, 0xf4, 4, 0x80, 0x8f } };
	for (size_t i = 0; i < sizeof T / sizeof *T; i++) if (p[0] >= T[i].lo && p[0] <= T[i].hi) {
		len = T[i].n; if (n < len) return false;
		c = len == 1 ? p[0] : p[0] & (0x7f >> len);
		for (size_t k = 1; k < len; k++) { if (p[k] < (k == 1 ? T[i].lo2 : 0x80) || p[k] > (k == 1 ? T[i].hi2 : 0xbf)) return false; c = c * 64 + (p[k] & 63); }
		return true;
	}
	return false;
}
static bool decAll(const std::string& s, std::vector<long>& out)
{
	size_t p = 0; while (p < s.size()) { size_t l = 0; long c = 0; if (!dec8((const unsigned char*)s.data() + p, s.size() - p, l, c)) return false; out.push_back(c); p += l; } return true;
}
static void first(const unsigned char *b, size_t n) // one character at the head of exactly n bytes
{
	unsigned char *h = (unsigned char*)malloc(n); memcpy(h, b, n);
	const char *p = (const char*)h; Char c = -7; bool r = cybozu::string::GetCharFromUtf8(&c, p, (const char*)h + n);
	size_t l = 0; long e = 0; bool x = dec8(h, n, l, e);
	if (r != x || (r && ((long)c != e || (size_t)(p - (const char*)h) != l)) || p > (const char*)h + n) mc::fail("bytes %s: %s, char %lx, %d bytes used", mc::hex(h, n).c_str(), r ? "accepted" : "refused", (long)c, (int)(p - (const char*)h));
	free(h);
}
static void text8(const std::string& s)
{
	std::vector<long> e; bool x = decAll(s, e); char *h = (char*)malloc(s.size() + 1); memcpy(h, s.data(), s.size()); h[s.size()] = 0; char *g = (char*)malloc(s.size() ? s.size() : 1); memcpy(g, s.data(), s.size());
	for (int k = 0; k < 5; k++) { bool r = true; String t;
		try { if (k == 0) t = String(s); else if (k == 1) t = String(g, s.size()); else if (k == 2) { t = "qq"; t.assign(s); } else if (k == 3) t.append(g, s.size()); else if (s.find('\0') == std::string::npos) t = h; else t = String(s.begin(), s.end()); } catch (cybozu::Exception&) { r = false; }
		MC_CHECK(r == x, "form %d: %s is %s", k, mc::hex(s).c_str(), r ? "accepted" : "refused");
		if (r) { bool q = t.size() == e.size(); for (size_t i = 0; q && i < e.size(); i++) q = (long)t[i] == e[i]; MC_CHECK(q, "form %d: wrong characters", k); MC_CHECK(t.toUtf8() == s && t.isValid(), "does not convert back"); } }
	String16 w; w += (Char16)7; bool r = cybozu::ConvertUtf8ToUtf16(&w, s); MC_CHECK(r == x, "ConvertUtf8ToUtf16 %d", r);
	if (x) { String16 ew; for (size_t i = 0; i < e.size(); i++) ew += enc16(e[i]); MC_CHECK(w == ew, "wrong UTF-16"); std::string b = "old"; MC_CHECK(cybozu::ConvertUtf16ToUtf8(&b, w) && b == s, "UTF-16 does not convert back"); MC_CHECK(cybozu::ToUtf16(s) == w && cybozu::ToUtf8(w) == s, "ToUtf16/ToUtf8"); MC_CHECK(String(w).toUtf8() == s && String(s).toUtf16() == w, "String from/to UTF-16"); }
	else { bool thr = false; try { cybozu::ToUtf16(s); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "ToUtf16 accepts bad UTF-8"); }
	for (int ig = 0; ig < 2; ig++) { cybozu::Utf8ref ref(g, s.size(), ig != 0); std::vector<long> q; bool thr = false; try { Char c; for (size_t i = 0; i <= s.size() + 1; i++) { if (!ref.next(&c)) break; MC_CHECK(scalar(c), "Utf8ref gives %lx", (long)c); q.push_back(c); } } catch (cybozu::Exception&) { thr = true; }
		MC_CHECK(thr == (!x && !ig), "Utf8ref %s", thr ? "throws" : "does not throw"); if (x) MC_CHECK(q == e, "Utf8ref gives other characters"); MC_CHECK(q.size() <= s.size(), "Utf8ref gives too many characters");
		if (!x && !ig) { std::vector<long> pre; size_t p = 0; while (p < s.size()) { size_t l = 0; long c = 0; if (!dec8((const unsigned char*)s.data() + p, s.size() - p, l, c)) break; pre.push_back(c); p += l; } MC_CHECK(q == pre, "Utf8ref: characters before the bad one differ"); } }
	free(h); free(g); mc::eval(!s.empty());
}
static void text16(const String16& w)
{
	std::string e; bool x = true; for (size_t i = 0; i < w.size(); i++) { long c = w[i]; if (c >= 0xd800 && c <= 0xdbff) { if (i + 1 < w.size() && w[i + 1] >= 0xdc00 && w[i + 1] <= 0xdfff) { c = 0x10000 + (c - 0xd800) * 1024 + (w[++i] - 0xdc00); } else { x = false; break; } } else if (c >= 0xdc00 && c <= 0xdfff) { x = false; break; } e += enc8(c); }
	Char16 *h = (Char16*)malloc(w.size() * 2 + 1); memcpy(h, w.data(), w.size() * 2);
	std::string b = "old"; bool r = cybozu::ConvertUtf16ToUtf8(&b, (const Char16*)h, (const Char16*)h + w.size()); MC_CHECK(r == x, "ConvertUtf16ToUtf8 %s", r ? "accepts" : "refuses"); if (r) MC_CHECK(b == e, "wrong UTF-8 %s", mc::hex(b).c_str());
	bool thr = false; String t; try { t.append((const Char16*)h, (const Char16*)h + w.size()); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr == !x, "String from UTF-16 %s", thr ? "throws" : "accepts"); if (!thr) MC_CHECK(t.toUtf8() == e && t.toUtf16() == w, "String from UTF-16 differs");
	if (x && w.find((Char16)0) == String16::npos) { String u(w.c_str()), v; v.assign(w.c_str()); MC_CHECK(u == t && v == t && u.compare(w.c_str()) == 0 && w.c_str() == u, "String(Char16*) differs"); }
	free(h); mc::eval(!w.empty());
}
void mc_main()
{
	{ mc::Section s("codePoints"); // every code point and its neighbourhood outside the range
		for (long base = -0x400; base < 0x120000; base += 0x400) { if (!s.pick()) continue; mc::what("code points %lx..", base); for (long c = base; c < base + 0x400; c++) { bool ok = scalar(c); char b[4] = { 1, 1, 1, 1 }; Char16 w[2] = { 1, 1 }; int n = cybozu::string::toUtf8(b, (Char)c), m = cybozu::string::toUtf16(w, (Char)c); std::string e = ok ? enc8(c) : ""; String16 f = ok ? enc16(c) : String16();
				MC_CHECK(n == (int)e.size() && !memcmp(b, e.data(), n), "U+%lx: toUtf8 gives %d bytes", c, n); MC_CHECK(m == (int)f.size() && !memcmp(w, f.data(), m * 2), "U+%lx: toUtf16 gives %d units", c, m); MC_CHECK(cybozu::string::GetCharSize((Char)c) == (int)e.size() && cybozu::string::IsValidChar((Char)c) == ok, "U+%lx: GetCharSize", c);
				std::string a = "x"; String16 a16; MC_CHECK(cybozu::string::AppendUtf8(a, (Char)c) == ok && a == "x" + e, "U+%lx: AppendUtf8", c); MC_CHECK(cybozu::string::AppendUtf16(a16, (Char)c) == ok && a16 == f, "U+%lx: AppendUtf16", c);
				if (ok) { first((const unsigned char*)e.data(), e.size()); const Char16 *p = f.data(); Char d = 0; MC_CHECK(cybozu::string::GetCharFromUtf16(d, p, (const Char16*)f.data() + f.size()) && d == (Char)c && p == f.data() + f.size(), "U+%lx: GetCharFromUtf16 gives %lx", c, (long)d); }
				String t(1, (Char)c); MC_CHECK(t.isValid() == ok, "U+%lx: isValid", c); bool t8 = false, t16 = false; try { t.toUtf8(); } catch (cybozu::Exception&) { t8 = true; } try { t.toUtf16(); } catch (cybozu::Exception&) { t16 = true; } MC_CHECK(t8 == !ok && t16 == !ok, "U+%lx: toUtf8 throws %d toUtf16 throws %d", c, t8, t16); mc::eval(); } mc::sample(mc::g().sh->what); } }
	{ mc::Section s("extremes"); const long X[] = { -1, -2, -0x80, -0x800, -0x10000, 0x7fffffff, -0x7fffffff - 1, 0x110000, 0x200000, 0x1fffff, 0x40000041, 0x7fff0041 }; for (int i = 0; i < 12; i++) { if (!s.pick()) continue; mc::what("Char %lx", X[i]); char b[4]; Char16 w[2]; MC_CHECK(!cybozu::string::IsValidChar((Char)X[i]) && !cybozu::string::toUtf8(b, (Char)X[i]) && !cybozu::string::toUtf16(w, (Char)X[i]) && !String(1, (Char)X[i]).isValid(), "accepted"); mc::eval(); } }
	{ mc::Section s("bytes"); // all 1-2 byte prefixes x critical third and fourth bytes (thorough: all 3 byte sequences, all 4 byte sequences with lead >= e0)
		static const int V[] = { 0, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0, 0xf0, 0xff };
		for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) { if (!s.pick()) continue; mc::what("bytes %02x %02x ..", a, b); unsigned char q[5] = { (unsigned char)a, (unsigned char)b, 0, 0, 0x80 }; first(q, 1); first(q, 2);
			if (mc::thorough() && a >= 0xc0) { for (int c = 0; c < 256; c++) { q[2] = c; first(q, 3); if (a >= 0xf0) for (int d = 0; d < 256; d++) { q[3] = d; first(q, 4); } } }
			else for (int c = 0; c < 15; c++) { q[2] = V[c]; first(q, 3); if (a >= 0xe0) for (int d = 0; d < 15; d++) { q[3] = V[d]; first(q, 4); first(q, 5); } } mc::eval(); } }
	{ mc::Section s("texts8"); // concatenations of well-formed and broken pieces
		const std::string P[] = { "a", std::string(1, '\0'), "\x7f", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xed\x9f\xbf", "\xee\x80\x80", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "\x80", "\xc1", "\xc2", "\xe3\x81", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xf0\x90\x80", "\xff", "\xe3" }; const int K = 20;
		for (int n = 0; n <= mc::tier(3, 4); n++) { long tot = 1; for (int i = 0; i < n; i++) tot *= K; for (long c = 0; c < tot; c++) { if (!s.pick()) continue; std::string t; long x = c; for (int i = 0; i < n; i++) { t += P[x % K]; x /= K; } mc::what("UTF-8 %s", mc::hex(t).c_str()); text8(t); mc::sample(mc::g().sh->what); } } }
	{ mc::Section s("long8"); for (int n = 0; n <= 70; n++) for (int k = 0; k < 4; k++) { if (!s.pick()) continue; static const char *Q[] = { "z", "\xd0\x96", "\xe3\x81\x82", "\xf0\x9f\x98\x80" }; std::string t; for (int i = 0; i < n; i++) t += Q[(i * (k + 1) + k) % 4]; mc::what("UTF-8 text of %d characters", n); text8(t); text8(t + "\xf0\x9f"); } }
	{ mc::Section s("texts16"); static const int V[] = { 0x41, 0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff }; const int K = 13; for (int n = 0; n <= mc::tier(4, 5); n++) { long tot = 1; for (int i = 0; i < n; i++) tot *= K; for (long c = 0; c < tot; c++) { if (!s.pick()) continue; String16 t; long x = c; for (int i = 0; i < n; i++) { t += (Char16)V[x % K]; x /= K; } mc::what("UTF-16 %s", mc::hex(t.data(), t.size() * 2).c_str()); text16(t); mc::sample(mc::g().sh->what); } } }
	{ mc::Section s("units16"); for (int a = 0; a < 65536; a += 16) { if (!s.pick()) continue; for (int k = a; k < a + 16; k++) { mc::what("UTF-16 unit %04x", k); String16 t(1, (Char16)k); text16(t); t += (Char16)0xdc12; text16(t); } } }
	{ mc::Section s("streams"); const char *L[] = { "a", "\xe3\x81\x82" "b", "\xf0\x9f\x98\x80", "" }; for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) { if (!s.pick()) continue; mc::what("stream %d %d", a, b); std::string in = std::string(L[a]) + "\n" + L[b] + "\n"; std::istringstream is(in); String x("old"), y("old"); cybozu::getline(is, x); cybozu::getline(is, y); MC_CHECK(x.toUtf8() == L[a] && y.toUtf8() == L[b], "getline"); std::ostringstream os; os << x << '|' << y; MC_CHECK(os.str() == std::string(L[a]) + "|" + L[b], "operator<<"); if (a < 3 && b < 3) { std::istringstream i2(in); String p, q; i2 >> p >> q; MC_CHECK(p == x && q == y, "operator>>"); } mc::eval(); } }
}
