// C15: text -> integer, exact acceptance and value, no access outside the text
#include "mc.hpp"
#include <cybozu/atoi.hpp>
typedef __int128 I;
struct Heap { char *p; Heap(const std::string& s) : p((char*)malloc(s.size() ? s.size() : 1)) { memcpy(p, s.data(), s.size()); } ~Heap() { free(p); } };
static std::string cut(const std::string& s) { size_t p = s.find('\0'); return p == std::string::npos ? s : s.substr(0, p); }
static bool dec(const std::string& s0, bool sgn, I lo, I hi, I *out)
{
	std::string s = cut(s0); bool neg = false; size_t i = 0;
	if (sgn && !s.empty() && s[0] == '-') { neg = true; i = 1; }
	if (i >= s.size()) return false;
	I v = 0;
	for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); if (v > ((I)1 << 100)) return false; }
	if (neg) v = -v;
	if (v < lo || v > hi) return false;
	*out = v; return true;
}
static bool hexv(const std::string& s0, I hi, I *out)
{
	std::string s = cut(s0); if (s.empty()) return false; I v = 0;
	for (size_t i = 0; i < s.size(); i++) { int c = (unsigned char)s[i]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) return false; v = v * 16 + d; if (v > ((I)1 << 100)) return false; }
	if (v > hi) return false; *out = v; return true;
}
template<class C, class T> static void judge(const char *cls, const char *ty, const std::string& s, bool expOk, I exp, bool terminated)
{
	// exact-size memory: with an explicit size nothing beyond it may be read, without one nothing beyond the NUL
	std::string mem = terminated ? s + '\0' : s; Heap h(mem);
	for (int form = 0; form < 2; form++) {
		bool ok = !expOk, threw = false; T v = 0;
		try {
			if (terminated) { if (form) { C c(&ok, h.p); v = c; } else { C c(h.p); v = c; ok = true; } }
			else { if (form) { C c(&ok, h.p, s.size()); v = c; } else { C c(h.p, s.size()); v = c; ok = true; } }
		} catch (std::exception&) { threw = true; ok = false; }
		MC_CHECK(!(form && threw), "%s: %s threw although a bool* was given for %s", cls, ty, mc::show(s).c_str());
		MC_CHECK(ok == expOk, "%s to %s: %s is %s", cls, ty, mc::show(s).c_str(), ok ? "accepted" : "refused");
		if (ok) MC_CHECK((I)v == exp, "%s to %s: %s gives %lld", cls, ty, mc::show(s).c_str(), (long long)v);
	}
	mc::eval();
}
template<class T> static void allD(const char *ty, const std::string& s, int which = 3)
{
	I v = 0; bool ok = dec(s, std::numeric_limits<T>::is_signed, std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), &v);
	if (which & 1) judge<cybozu::atoi, T>("atoi", ty, s, ok, v, false);
	if ((which & 2) && s.find('\0') == std::string::npos) judge<cybozu::atoi, T>("atoi", ty, s, ok, v, true);
}
template<class T> static void allH(const char *ty, const std::string& s)
{
	I v = 0; bool ok = hexv(s, std::numeric_limits<T>::max(), &v);
	judge<cybozu::hextoi, T>("hextoi", ty, s, ok, v, false);
	if (s.find('\0') == std::string::npos) judge<cybozu::hextoi, T>("hextoi", ty, s, ok, v, true);
}
static void text(const std::string& s)
{
	mc::what("text %s", mc::show(s).c_str());
	allD<signed char>("signed char", s); allD<unsigned char>("unsigned char", s); allD<short>("short", s); allD<unsigned short>("unsigned short", s);
	allD<int>("int", s); allD<unsigned>("unsigned", s); allD<long>("long", s); allD<unsigned long>("unsigned long", s); allD<long long>("long long", s); allD<unsigned long long>("unsigned long long", s);
}
static void htext(const std::string& s)
{
	mc::what("hex text %s", mc::show(s).c_str());
	allH<signed char>("signed char", s); allH<unsigned char>("unsigned char", s); allH<char>("char", s); allH<short>("short", s); allH<unsigned short>("unsigned short", s);
	allH<int>("int", s); allH<unsigned>("unsigned", s); allH<long>("long", s); allH<unsigned long>("unsigned long", s); allH<long long>("long long", s); allH<unsigned long long>("unsigned long long", s);
}
static std::string str(I v) { if (v == 0) return "0"; bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : v; std::string s; while (u) { s.insert(s.begin(), char('0' + (int)(u % 10))); u /= 10; } return n ? "-" + s : s; }
static std::string hstr(unsigned __int128 u, bool up) { std::string s; do { s.insert(s.begin(), (up ? "0123456789ABCDEF" : "0123456789abcdef")[(int)(u % 16)]); u /= 16; } while (u); return s; }
static void enumStr(mc::Section& sec, const std::string& al, int L, void (*f)(const std::string&))
{
	for (int n = 0; n <= L; n++) { size_t tot = 1; for (int i = 0; i < n; i++) tot *= al.size();
		for (size_t c = 0; c < tot; c++) { if (!sec.pick()) continue; std::string s; size_t x = c; for (int i = 0; i < n; i++) { s += al[x % al.size()]; x /= al.size(); } f(s); mc::sample(mc::g().sh->what); } }
}
void mc_main()
{
	{ mc::Section s("texts"); enumStr(s, std::string("-0128/:a\0", 9), mc::tier(4, 6), text); }
	{ mc::Section s("bytes"); for (int a = 0; a < 256; a++) for (int k = 0; k < 6; k++) if (s.pick()) { const char *pre[] = { "", "1", "-", "12", "-3", "0" }; text(std::string(pre[k]) + (char)a); htext(std::string(pre[k]) + (char)a); text(std::string(pre[k]) + (char)a + "5"); htext(std::string(pre[k]) + (char)a + "5"); } }
	{ mc::Section s("range16"); const int M = mc::tier(33500, 70000); for (int v = -M; v <= M; v++) { if (!s.pick()) continue; std::string t = str(v); text(t); if (v % 16 == 0 || (v > -140 && v < 260) || v < -32760 || v > 32760) { text((v < 0 ? "-00" : "00") + (v < 0 ? t.substr(1) : t)); text(t + "0"); text(t + "x"); } } }
	{ mc::Section s("unsigned16"); for (int v = 65000; v <= 66000; v++) if (s.pick()) text(str(v)); }
	{ mc::Section s("boundaries"); // every limit and power of ten, a neighbourhood, every one-character change of it
		std::vector<I> b; const int sh[] = { 7, 8, 15, 16, 31, 32, 63, 64 };
		for (int i = 0; i < 8; i++) { b.push_back((I)1 << sh[i]); b.push_back(-((I)1 << sh[i])); }
		I p = 10; for (int i = 0; i < 22; i++) { b.push_back(p); b.push_back(-p); p *= 10; }
		for (int i = 0; i < 8; i++) { b.push_back(((I)1 << sh[i]) / 10); b.push_back(((I)1 << sh[i]) * 10); b.push_back(((I)1 << sh[i]) * 100 + 7); b.push_back(-((I)1 << sh[i]) * 10 - 3); }
		for (size_t i = 0; i < b.size(); i++) for (int d = -12; d <= 12; d++) {
			if (!s.pick()) continue; std::string t = str(b[i] + d); text(t);
			bool neg = t[0] == '-'; std::string dg = neg ? t.substr(1) : t;
			text((neg ? "-0" : "0") + dg); text((neg ? "-0000000000000000000000" : "00000000000000000000000") + dg); text("-" + t); text(t + "-"); text(t + " "); text(" " + t); text("+" + dg); text(t + "abc"); text(t + std::string(1, 0) + "12");
			if (d >= -1 && d <= 1) for (size_t k = 0; k < t.size(); k++) for (const char *c = "-0123456789a/:"; *c; c++) { std::string u = t; u[k] = *c; text(u); u = t; u.insert(k, 1, *c); text(u); }
			mc::sample(mc::g().sh->what); } }
	{ mc::Section s("hexTexts"); enumStr(s, std::string("0179afFgG@`\0", 12), mc::tier(4, 5), htext); }
	{ mc::Section s("hexRange"); for (int v = 0; v < 70000; v += mc::tier(3, 1)) if (s.pick()) { htext(hstr(v, v & 1)); if (v % 8 == 0) htext("000" + hstr(v, v & 1)); } }
	{ mc::Section s("hexBoundaries"); for (int sh = 3; sh <= 68; sh++) for (int d = -9; d <= 9; d++) if (s.pick()) { unsigned __int128 v = ((unsigned __int128)1 << sh) + d; std::string t = hstr(v, d & 1); htext(t); htext("0" + t); htext("0000000000000000" + t); htext(t + "0"); htext("1" + t); htext(t + "g"); htext("0x" + t); htext("-" + t); } }
	{ mc::Section s("stdString"); for (int v = -300; v <= 300; v++) if (s.pick()) { mc::what("std::string %d", v); std::string t = str(v); int x = cybozu::atoi(t); bool b = false; long long y = cybozu::atoi(&b, t); MC_CHECK(x == v && b && y == v, "%d %lld", x, y); unsigned z = cybozu::hextoi(hstr(v + 300, false)); unsigned long q = cybozu::hextoi(&b, hstr(v + 300, true)); MC_CHECK((int)z == v + 300 && (long)q == v + 300 && b, "%u", z); mc::eval(); } }
}
