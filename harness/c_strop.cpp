// string_operation.hpp: trim, case, split, find
#include "util.hpp"
#include <cybozu/string_operation.hpp>
#include <algorithm>
#include <list>
typedef cybozu::Char C; typedef cybozu::String S; typedef std::string A;
static bool sp(char c) { return c == ' ' || c == '\t'; }
static bool sp(C c) { static const int T[] = { 0x20, 0x85, 0xa0, 0x1680, 0x180e, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000, 0xfeff }; if (c >= 9 && c <= 13) return true; if (c >= 0x2000 && c <= 0x200a) return true; for (size_t i = 0; i < sizeof T / sizeof *T; i++) if (c == T[i]) return true; return false; }
static bool isX(char c) { return c == 'x'; } static bool isXC(C c) { return c == 'x'; }
static bool pickX(char) { return false; }
template<class T> static std::string sh(const T& s) { std::string r; for (size_t i = 0; i < s.size(); i++) r += mc::fmt("%x.", (int)s[i]); return r; }
template<class T, class P> static T trim(const T& s, P p) { size_t b = 0, e = s.size(); while (b < e && p(s[b])) b++; while (e > b && p(s[e - 1])) e--; return s.substr(b, e - b); }
template<class Ch> static Ch low(Ch c) { return c >= 'A' && c <= 'Z' ? Ch(c + 32) : c; }
template<class Ch> static Ch up(Ch c) { return c >= 'a' && c <= 'z' ? Ch(c - 32) : c; }
template<class T, class F> static T mapStr(const T& s, F f) { T r = s; for (size_t i = 0; i < r.size(); i++) r[i] = f(r[i]); return r; }
template<class T> struct Pr; template<> struct Pr<A> { static bool f(char c) { return isX(c); } }; template<> struct Pr<S> { static bool f(C c) { return isXC(c); } };
template<class T> static void one(const T& s)
{
	typedef typename T::value_type Ch;
	{ T t = s; cybozu::Trim(t); T e = trim(s, [](Ch c) { return sp(c); }); MC_CHECK(t == e, "Trim gives %s", sh(t).c_str()); MC_CHECK(cybozu::TrimCopy(s) == e, "TrimCopy gives %s", sh(cybozu::TrimCopy(s)).c_str()); 
	  T u = s; cybozu::Trim(u, Pr<T>::f); T f = trim(s, Pr<T>::f); MC_CHECK(u == f && cybozu::TrimCopy(s, Pr<T>::f) == f, "Trim with a predicate gives %s", sh(u).c_str());
	  std::vector<Ch> v(s.begin(), s.end()); const Ch *b = v.data(), *en = b + v.size(); const Ch *q = cybozu::SkipSpace(b, en); size_t k = 0; while (k < s.size() && sp(s[k])) k++; MC_CHECK(q == b + k, "SkipSpace moves to %d", (int)(q - b)); }
	T lo = mapStr(s, low<Ch>), hi = mapStr(s, up<Ch>);
	{ T t = s; cybozu::ToLower(t); MC_CHECK(t == lo, "ToLower"); t = s; cybozu::ToUpper(t); MC_CHECK(t == hi, "ToUpper"); t = "QQ"; cybozu::ToLower(t, s); MC_CHECK(t == lo, "ToLower(out, in)"); t = "QqQ"; cybozu::ToUpper(t, s, cybozu::string::DoAppend); MC_CHECK(t == T("QqQ") + hi, "ToUpper with append"); t = "z"; cybozu::ToLower(t, s, cybozu::string::DoAppend); MC_CHECK(t == T("z") + lo, "ToLower with append"); t = s; cybozu::ToLower(t, t, cybozu::string::DoAppend); MC_CHECK(t == s + lo, "ToLower(s, s, append)"); t = s; cybozu::ToUpper(t, t, true); MC_CHECK(t == s + hi, "ToUpper(s, s, append)"); }
	{ T t = s; cybozu::Strip(t); size_t n = s.size(); while (n && (s[n - 1] == '\n' || s[n - 1] == '\r')) n--; MC_CHECK(t == s.substr(0, n), "Strip gives %s", sh(t).c_str()); }
	mc::eval(!s.empty());
}
template<class T> static void split(const T& s, typename T::value_type c)
{
	for (size_t mx = 0; mx <= 6; mx++) { size_t maxNum = mx == 0 ? 0x7fffffff : mx; std::vector<T> e; size_t cur = 0;
		for (;;) { size_t p = cur; while (p < s.size() && s[p] != c) p++; if (p == s.size() || e.size() + 1 == maxNum) { e.push_back(s.substr(cur)); break; } e.push_back(s.substr(cur, p - cur)); cur = p + 1; }
		std::vector<T> o(2, T("old")); size_t n = cybozu::Split(o, s, c, maxNum); MC_CHECK(o == e && n == e.size(), "Split max %zu gives %zu parts, expected %zu", maxNum, n, e.size());
		std::vector<T> o2(2, T("old")); n = cybozu::Split(o2, s, c, maxNum, false); std::vector<T> e2(2, T("old")); e2.insert(e2.end(), e.begin(), e.end()); MC_CHECK(o2 == e2 && n == e.size(), "Split without clearing"); MC_CHECK(cybozu::Split(s, c, maxNum) == e, "Split returning a vector");
		std::list<T> ol; cybozu::Split(ol, s, c, maxNum); MC_CHECK(std::vector<T>(ol.begin(), ol.end()) == e, "Split into a list"); }
	mc::eval(!s.empty());
}
template<class T> static void pair(const T& a, const T& b)
{
	typedef typename T::value_type Ch; T la = mapStr(a, low<Ch>), lb = mapStr(b, low<Ch>); int e = 0; { size_t n = std::min(la.size(), lb.size()), i = 0; while (i < n && la[i] == lb[i]) i++; if (i < n) e = la[i] < lb[i] ? -1 : 1; else e = la.size() < lb.size() ? -1 : la.size() > lb.size(); }
	MC_CHECK(cybozu::CaseCompare(a, b) == e, "CaseCompare gives %d, expected %d", cybozu::CaseCompare(a, b), e); MC_CHECK(cybozu::CaseEqual(a, b) == (e == 0), "CaseEqual");
	std::vector<Ch> va(a.begin(), a.end()), vb(b.begin(), b.end()); MC_CHECK(cybozu::CaseCompare(va.data(), va.size(), vb.data(), vb.size()) == e && cybozu::CaseEqual(va.data(), va.size(), vb.data(), vb.size()) == (e == 0), "pointer forms");
	mc::eval();
}
template<class T> static void cfind(const T& s, const std::string& t8, const T& t)
{
	typedef typename T::value_type Ch; T l = mapStr(s, low<Ch>), lt = mapStr(t, low<Ch>); size_t e = T::npos; for (size_t i = 0; i + lt.size() <= l.size(); i++) { bool m = true; for (size_t k = 0; k < lt.size(); k++) m = m && l[i + k] == lt[k]; if (m) { e = i; break; } }
	Ch *h = (Ch*)malloc(s.size() * sizeof(Ch) + 1); for (size_t i = 0; i < s.size(); i++) h[i] = s[i]; char *g = (char*)malloc(t8.size() ? t8.size() : 1); memcpy(g, t8.data(), t8.size());
	const Ch *p = cybozu::CaseFind((const Ch*)h, (const Ch*)h + s.size(), t8.c_str()), *q = cybozu::CaseFind((const Ch*)h, (const Ch*)h + s.size(), (const char*)g, (const char*)g + t8.size());
	const Ch *x = e == T::npos ? 0 : h + e; MC_CHECK(p == x, "CaseFind gives %d, expected %d", p ? (int)(p - h) : -1, (int)e); if (!t8.empty()) MC_CHECK(q == x, "CaseFind with target end gives %d, expected %d", q ? (int)(q - h) : -1, (int)e);
	if (!s.empty()) MC_CHECK(cybozu::CaseFind<Ch>(s, t8.c_str()) == e, "CaseFind(str)"); else if (!t8.empty()) MC_CHECK(cybozu::CaseFind<Ch>(s, t8.c_str()) == T::npos, "CaseFind(empty)");
	MC_CHECK(cybozu::CaseEqual(s, t8.c_str()) == (l == lt) || t8.find('\x80') != std::string::npos || sizeof(Ch) == 4, "CaseEqual with char*");
	free(h); free(g); mc::eval();
}
template<class T, class Ch> static std::vector<T> all(const Ch *al, int K, int L) { std::vector<T> r(1); size_t b = 0; for (int n = 0; n < L; n++) { size_t e = r.size(); for (size_t i = b; i < e; i++) for (int c = 0; c < K; c++) { T t = r[i]; t.push_back(al[c]); r.push_back(t); } b = e; } return r; }
template<class T> static void prefix(const T& s)
{
	typedef typename T::value_type Ch; T l = mapStr(s, low<Ch>);
#define CK(lit, small) { T t(small); bool e = l.size() >= t.size() && l.substr(0, t.size()) == t; MC_CHECK(cybozu::CaseEqualStartWith(s, lit) == e, "CaseEqualStartWith " lit); }
	CK("", "") CK("a", "a") CK("A", "a") CK("aB", "ab") CK("ABZ", "abz") CK("z@", "z@")
	mc::eval();
}
void mc_main()
{
	{ mc::Section s("isSpace"); for (long b = -256; b < 0x11000; b += 256) { if (!s.pick()) continue; for (long c = b; c < b + 256; c++) { mc::what("character %lx", c); MC_CHECK(cybozu::IsSpace((C)c) == sp((C)c), "IsSpace %d", cybozu::IsSpace((C)c)); if (c >= 0 && c < 256) { MC_CHECK(cybozu::IsSpace((char)c) == sp((char)c), "IsSpace(char)"); MC_CHECK(cybozu::tolower((char)c) == low((char)c) && cybozu::toupper((char)c) == up((char)c), "case of a char"); } MC_CHECK(cybozu::tolower((C)c) == low((C)c) && cybozu::toupper((C)c) == up((C)c), "case of a Char"); mc::eval(); } } }
	{ mc::Section s("oneA"); const char al[] = { 'a', 'Z', ' ', '\t', '\n', '\r', 'x', '\x80' }; std::vector<A> v = all<A>(al, 8, mc::tier(5, 6)); for (size_t i = 0; i < v.size(); i++) if (s.pick()) { mc::what("string %s", sh(v[i]).c_str()); one(v[i]); mc::sample(mc::g().sh->what); } }
	{ mc::Section s("oneC"); const C al[] = { 'a', 'Z', ' ', '\n', '\r', 'x', 0x3000, 0x2029, 0x1f600 }; std::vector<S> v = all<S>(al, 9, mc::tier(4, 5)); for (size_t i = 0; i < v.size(); i++) if (s.pick()) { mc::what("String %s", sh(v[i]).c_str()); one(v[i]); } }
	{ mc::Section s("caseEveryChar"); for (int c = 0; c < 0x400; c++) if (s.pick()) { mc::what("character %x", c); if (c < 256) { A a(3, (char)c); one(a); pair(a, A(3, (char)(c ^ 32))); pair(A(1, (char)c), A(1, 'a')); pair(A(1, (char)c), A(1, 'Z')); } S b(2, (C)c); one(b); pair(b, S(2, (C)(c ^ 32))); pair(S(1, (C)c), S(1, (C)'m')); pair(S(1, (C)c), S(1, (C)'M')); } }
	{ mc::Section s("split"); const char al[] = { 'a', ',', ';' }; std::vector<A> v = all<A>(al, 3, mc::tier(7, 9)); for (size_t i = 0; i < v.size(); i++) if (s.pick()) { mc::what("split %s", mc::show(v[i]).c_str()); split(v[i], ','); if (v[i].size() <= 6) { split(v[i], ';'); split(S(v[i]), (C)','); } } }
	{ mc::Section s("pairs"); const char al[] = { 'a', 'A', 'Z', 'z', '[', '@', '\x80' }; std::vector<A> v = all<A>(al, 7, 3); for (size_t i = 0; i < v.size(); i++) if (s.pick()) for (size_t j = 0; j < v.size(); j++) { mc::what("pair %s %s", sh(v[i]).c_str(), sh(v[j]).c_str()); pair(v[i], v[j]); } const C cl[] = { 'a', 'A', 'Z', '`', 0x3042, 0x1f600 }; std::vector<S> w = all<S>(cl, 6, 2); for (size_t i = 0; i < w.size(); i++) if (s.pick()) for (size_t j = 0; j < w.size(); j++) { mc::what("pair %s %s", sh(w[i]).c_str(), sh(w[j]).c_str()); pair(w[i], w[j]); } }
	{ mc::Section s("find"); const char al[] = { 'a', 'B', 'b', 'C' }; std::vector<A> v = all<A>(al, 4, 5), t = all<A>(al, 4, 3); for (size_t i = 0; i < v.size(); i++) if (s.pick()) { prefix(v[i]); prefix(S(v[i])); for (size_t j = 0; j < t.size(); j++) { mc::what("find %s in %s", t[j].c_str(), v[i].c_str()); cfind(v[i], t[j], t[j]); if (v[i].size() <= 4) cfind(S(v[i]), t[j], S(t[j])); } }
		const C cl[] = { 'a', 'A', 0x3042, 0x1f600 }; std::vector<S> w = all<S>(cl, 4, 4), u = all<S>(cl, 4, 2); for (size_t i = 0; i < w.size(); i++) if (s.pick()) for (size_t j = 0; j < u.size(); j++) { mc::what("find %s in %s", sh(u[j]).c_str(), sh(w[i]).c_str()); cfind(w[i], u[j].toUtf8(), u[j]); } }
	{ mc::Section s("startWith"); const char al[] = { 'a', 'A', 'b', 'B', 'z', 'Z', '@' }; std::vector<A> v = all<A>(al, 7, 4); for (size_t i = 0; i < v.size(); i++) if (s.pick()) { mc::what("string %s", v[i].c_str()); prefix(v[i]); prefix(S(v[i])); } }
	{ mc::Section s("longPrefix"); // long literals: every truncation, every changed position, longer texts
		const std::string lit = "Content-Type: text"; for (size_t n = 0; n <= lit.size() + 1; n++) for (size_t p = 0; p <= n; p++) for (int m = 0; m < 3; m++) { if (!s.pick()) continue;
			std::string t = (lit + "/").substr(0, n); if (p < n) t[p] = m == 0 ? (char)(t[p] ^ 0x20) : m == 1 ? (char)(t[p] + 1) : 0; std::string l; for (char c : t) l += low(c); mc::setWhat("text " + mc::show(t));
			#define LP(str) { std::string q; for (char c : std::string(str)) q += low(c); bool e = l.size() >= q.size() && l.substr(0, q.size()) == q; MC_CHECK(cybozu::CaseEqualStartWith(t, str) == e, "CaseEqualStartWith " str); cybozu::String ct; for (char c : t) ct.push_back((unsigned char)c); MC_CHECK(cybozu::CaseEqualStartWith(ct, str) == e, "CaseEqualStartWith(String) " str); }
			LP("Content-") LP("Content-T") LP("content-ty") LP("CONTENT-TYPE:") LP("Content-Type: ") LP("Content-Type: tex") LP("Content-Type: text")
			mc::eval(); } }
	{ mc::Section s("findNul"); mc::forStr(std::string("aB\0", 3), 3, [&](const std::string& t) { mc::forStr(std::string("ab\0", 3), 4, [&](const std::string& x) { if (t.empty() || !s.pick()) return; mc::setWhat("text " + mc::show(x) + " target " + mc::show(t)); std::string l, lt; for (char c : x) l += low(c); for (char c : t) lt += low(c); size_t e = l.find(lt); const char *q = cybozu::CaseFind(x.data(), x.data() + x.size(), t.data(), t.data() + t.size()); MC_CHECK(e == std::string::npos ? q == 0 : q == x.data() + e, "CaseFind gives %d, expected %d", q ? (int)(q - x.data()) : -1, (int)e); mc::eval(); }); }); }
}
