// serializer: load(save(x)) == x, exact consumption, truncation refused, old contents replaced
#include "mc.hpp"
#include <cybozu/serializer.hpp>
#include <cybozu/unordered_map.hpp>
#include <list>
#include <deque>
#include <sstream>
struct Out { std::string s; void write(const void *p, size_t n) { s.append((const char*)p, n); } };
struct In { const char *p; size_t n, pos, piece; In(const char *p, size_t n, size_t piece) : p(p), n(n), pos(0), piece(piece) {}
	size_t readSome(void *q, size_t m) { size_t r = n - pos; if (r > m) r = m; if (r > piece) r = piece; memcpy(q, p + pos, r); pos += r; return r; } };
struct User { int a; std::string b; std::vector<int> c; User() : a(0) {} bool operator==(const User& r) const { return a == r.a && b == r.b && c == r.c; }
	template<class I> void load(I& is) { cybozu::load(a, is); cybozu::load(b, is); cybozu::load(c, is); }
	template<class O> void save(O& os) const { cybozu::save(os, a); cybozu::save(os, b); cybozu::save(os, c); } };
template<class T> static bool same(const T& a, const T& b) { return a == b; }
static bool same(const double& a, const double& b) { return memcmp(&a, &b, sizeof a) == 0; }
static bool same(const float& a, const float& b) { return memcmp(&a, &b, sizeof a) == 0; }
// x: the value; d: what the target holds before
template<class T> static void round(const T& x, const T& d, bool prefixes = true)
{
	Out os; cybozu::save(os, x); std::string mark = "\x5a\x84\x87"; std::string t = os.s + mark;
	char *h = (char*)malloc(t.size()); memcpy(h, t.data(), t.size());
	for (int piece = 0; piece < 2; piece++) {
		T y(d); In is(h, t.size(), piece ? 1 : 1000000); bool thr = false;
		try { cybozu::load(y, is); } catch (std::exception&) { thr = true; }
		MC_CHECK(!thr, "load of what save wrote (%s) throws", mc::hex(os.s).c_str());
		MC_CHECK(same(y, x), "load gives a different value (bytes %s)", mc::hex(os.s).c_str());
		MC_CHECK(is.pos == os.s.size(), "load consumed %zu of %zu bytes", is.pos, os.s.size());
	}
	if (prefixes) for (size_t k = 0; k < os.s.size(); k += os.s.size() > 64 ? 7 : 1) { T y(d); char *q = (char*)malloc(k ? k : 1); memcpy(q, h, k); In is(q, k, 1000000); bool thr = false; try { cybozu::load(y, is); } catch (std::exception&) { thr = true; } free(q); MC_CHECK(thr, "load accepts only the first %zu of %zu bytes", k, os.s.size()); }
	free(h); mc::eval();
}
template<class T> static void ints(const char *name)
{
	mc::Section s(std::string("int ") + name); const bool w8 = sizeof(T) == 8;
	std::vector<T> v; for (int i = -70000; i <= 70000; i++) v.push_back((T)i);
	for (int b = 0; b < (int)sizeof(T) * 8; b++) for (int d = -140; d <= 140; d++) { v.push_back((T)((T)1 << b) + (T)d); v.push_back((T)(-((T)1 << b)) + (T)d); }
	for (size_t i = 0; i < v.size(); i += 32) { if (!s.pick()) continue; for (size_t j = i; j < i + 32 && j < v.size(); j++) { mc::what("%s %lld", name, (long long)v[j]); round<T>(v[j], (T)0x5555555555555555ULL); } mc::sample(mc::g().sh->what); }
#ifndef CYBOZU_SERIALIZER_FIXED_SIZE_INTEGER
	mc::Section q(std::string("format ") + name); // the documented wire format H:D, every header, every boundary datum
	for (int h = 0; h < 256; h++) { if (!q.pick()) continue;
		int len = h >= 0x80 && h <= 0x87 ? 1 << (h & 3) : 0; bool sg = h >= 0x84;
		std::vector<uint64_t> dv; dv.push_back(0); if (len) { for (int b = 0; b < len * 8; b++) { dv.push_back(1ULL << b); dv.push_back((1ULL << b) - 1); dv.push_back(~(1ULL << b)); } dv.push_back(~0ULL); }
		for (size_t i = 0; i < dv.size(); i++) { std::string t(1, (char)h); uint64_t d = len == 8 ? dv[i] : dv[i] & ((1ULL << (len * 8)) - 1); for (int k = 0; k < len; k++) t += (char)(d >> (8 * k)); t += "!";
			mc::what("%s from header %02x datum %llx", name, h, (unsigned long long)d); T e; bool bad = len == 8 && !w8;
			if (len == 0) e = (T)(int8_t)h; else if (!sg) e = (T)d; else e = (T)(len == 1 ? (int64_t)(int8_t)d : len == 2 ? (int64_t)(int16_t)d : len == 4 ? (int64_t)(int32_t)d : (int64_t)d);
			T y = 0; In is(t.data(), t.size(), 100); bool thr = false; try { cybozu::load(y, is); } catch (std::exception&) { thr = true; }
			MC_CHECK(thr == bad, "%s", thr ? "refused" : "accepted"); if (!thr) MC_CHECK(y == e && is.pos == (size_t)len + 1, "value %lld, %zu bytes consumed", (long long)y, is.pos); mc::eval(); } }
#endif
}
template<class T> static void vals(const char *name, const std::vector<T>& v, bool prefixes = true)
{
	mc::Section s(name);
	for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v.size(); j++) { if (v.size() > 40 && j % 7 != i % 7) continue; if (!s.pick()) continue; mc::what("%s value %zu into an object holding value %zu", name, i, j); round(v[i], v[j], prefixes); mc::sample(mc::g().sh->what); }
}
// all sequences of length <=n over the given atoms
template<class T> static std::vector<std::vector<T> > seqs(const std::vector<T>& a, int n)
{
	std::vector<std::vector<T> > r(1); size_t b = 0;
	for (int k = 0; k < n; k++) { size_t e = r.size(); for (size_t i = b; i < e; i++) for (size_t j = 0; j < a.size(); j++) { std::vector<T> q = r[i]; q.push_back(a[j]); r.push_back(q); } b = e; }
	return r;
}
void mc_main()
{
	ints<int>("int"); ints<unsigned>("unsigned"); ints<long>("long"); ints<unsigned long>("unsigned long"); ints<long long>("long long"); ints<unsigned long long>("unsigned long long");
	{ std::vector<bool> bv; mc::Section s("pod"); for (int i = 0; i < 65536; i++) { if (i % 64 == 0 ? !s.pick() : false) { i += 63; continue; } mc::what("16-bit value %d", i); round<short>((short)i, 77); round<unsigned short>((unsigned short)i, 78); if (i < 256) { round<char>((char)i, 'q'); round<unsigned char>((unsigned char)i, 9); } if (i < 2) round<bool>(i != 0, i == 0); round<wchar_t>(i * 7919, 1); round<float>(i * 1.37f, 2.f); round<double>(i / 7.0, 1.0); } }
	{ std::vector<std::string> v; std::vector<char> al; al.push_back('a'); al.push_back('\0'); al.push_back('\x87'); std::vector<std::vector<char> > q = seqs(al, 3); for (size_t i = 0; i < q.size(); i++) v.push_back(std::string(q[i].begin(), q[i].end())); const size_t L[] = { 127, 128, 129, 130, 135, 136, 255, 256, 257, 32767, 32768, 65535, 65536, 70000 }; for (int i = 0; i < 14; i++) v.push_back(std::string(L[i], char('A' + i))); vals("string", v);
		mc::Section s("cstr"); for (size_t i = 0; i < v.size(); i++) { if (v[i].find('\0') != std::string::npos || !s.pick()) continue; mc::what("const char* of length %zu", v[i].size()); Out a, b; cybozu::save(a, v[i].c_str()); cybozu::save(b, v[i]); MC_CHECK(a.s == b.s, "const char* is saved differently from std::string"); mc::eval(); } }
	std::vector<int> ia; ia.push_back(0); ia.push_back(-1); ia.push_back(-124); ia.push_back(300); std::vector<std::vector<int> > is = seqs(ia, 3);
	vals("vector<int>", is);
	{ std::vector<std::vector<int> > big; const size_t L[] = { 0, 1, 127, 128, 135, 136, 255, 256, 1000 }; for (int i = 0; i < 9; i++) { std::vector<int> w; for (size_t k = 0; k < L[i]; k++) w.push_back((int)(k * 2654435761u)); big.push_back(w); } vals("vector<int> sizes", big); }
	{ std::vector<std::list<int> > v; std::vector<std::deque<int> > dq; for (size_t i = 0; i < is.size(); i++) { v.push_back(std::list<int>(is[i].begin(), is[i].end())); dq.push_back(std::deque<int>(is[i].begin(), is[i].end())); } vals("list<int>", v); vals("deque<int>", dq); }
	{ std::vector<std::set<int> > v; for (int m = 0; m < 64; m++) { static const int E[] = { 5, -128, 128, 70000, 0, -1 }; std::set<int> t; for (int k = 0; k < 6; k++) if (m >> k & 1) t.insert(E[k]); v.push_back(t); } vals("set<int>", v); }
	{ static const char *K[] = { "", "a", "b\n", "zz" }; std::vector<std::map<std::string, int> > v; std::vector<CYBOZU_NAMESPACE_STD::unordered_map<std::string, int> > u; std::vector<std::map<int, std::vector<std::string> > > mv;
		for (int m = 0; m < 81; m++) { std::map<std::string, int> t; std::map<int, std::vector<std::string> > q; int x = m; for (int k = 0; k < 4; k++) { if (x % 3) { t[K[k]] = x % 3 == 1 ? 0 : -130 - k; q[k * 1000] = std::vector<std::string>(x % 3 - 1, K[k]); } x /= 3; } v.push_back(t); u.push_back(CYBOZU_NAMESPACE_STD::unordered_map<std::string, int>(t.begin(), t.end())); mv.push_back(q); }
		vals("map<string,int>", v); vals("unordered_map<string,int>", u); vals("map<int,vector<string>>", mv); }
	{ std::vector<std::vector<std::string> > v; std::vector<std::string> a; a.push_back(""); a.push_back("x"); a.push_back(std::string("\0y", 2)); v = seqs(a, 3); vals("vector<string>", v); std::vector<std::vector<std::vector<std::string> > > vv; std::vector<std::vector<std::string> > at(v.begin(), v.begin() + 5); vv = seqs(at, 2); vals("vector<vector<string>>", vv); }
	{ std::vector<User> v; for (int i = 0; i < 27; i++) { User u; u.a = i * 50 - 200; u.b = std::string(i % 3, 'u'); u.c = is[i]; v.push_back(u); } vals("user type", v); std::vector<std::vector<User> > vu; std::vector<User> at(v.begin(), v.begin() + 4); vu = seqs(at, 2); vals("vector<user type>", vu); }
	{ // POD vectors
		mc::Section s("podVec"); for (size_t n = 0; n <= 300; n++) { if (!s.pick()) continue; mc::what("savePodVec of %zu elements", n); std::vector<double> v; for (size_t i = 0; i < n; i++) v.push_back(i * 1.5); Out os; cybozu::savePodVec(os, v); std::vector<double> w(n % 5, 3.0); In in(os.s.data(), os.s.size(), n % 3 ? 1000 : 5); cybozu::loadPodVec(w, in); MC_CHECK(w == v && in.pos == os.s.size(), "POD vector differs");
			uint16_t r[5] = { 1, 2, 300, 65535, 0 }, r2[5] = {}; Out o2; cybozu::saveRange(o2, r, 5); In i2(o2.s.data(), o2.s.size(), 1); cybozu::loadRange(r2, 5, i2); MC_CHECK(o2.s.size() == 10 && !memcmp(r, r2, 10), "range differs"); mc::eval(n > 0); } }
	{ // several values one after the other through std streams and in one stream
		mc::Section s("sequence"); for (int m = 0; m < 256; m++) { if (!s.pick()) continue; mc::what("program %d", m); std::stringstream ss; int x = m; for (int i = 0; i < 4; i++) { if (x % 4 == 0) cybozu::save(ss, (int)(m * 37)); else if (x % 4 == 1) cybozu::save(ss, std::string(m, 's')); else if (x % 4 == 2) cybozu::save(ss, is[m % is.size()]); else cybozu::save(ss, (unsigned long)m << 40); x /= 4; }
			x = m; for (int i = 0; i < 4; i++) { if (x % 4 == 0) { int a; cybozu::load(a, ss); MC_CHECK(a == m * 37, "int"); } else if (x % 4 == 1) { std::string a = "old"; cybozu::load(a, ss); MC_CHECK(a == std::string(m, 's'), "string"); } else if (x % 4 == 2) { std::vector<int> a(3); cybozu::load(a, ss); MC_CHECK(a == is[m % is.size()], "vector"); } else { unsigned long a; cybozu::load(a, ss); MC_CHECK(a == (unsigned long)m << 40, "ulong"); } x /= 4; } mc::eval(); } }
}
