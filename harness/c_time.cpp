// Time: texts of every day, every one character change, FILETIME
#include "util.hpp"
#include <sys/time.h>
#include <time.h>
// the system clock, served by the harness while g_clock is set
static bool g_clock; static long g_sec, g_usec, g_asked;
extern "C" int __real_gettimeofday(struct timeval *, void *); extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
extern "C" int __wrap_gettimeofday(struct timeval *tv, void *z) { if (!g_clock) return __real_gettimeofday(tv, z); g_asked++; tv->tv_sec = g_sec; tv->tv_usec = g_usec; return 0; }
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { if (!g_clock || c != CLOCK_REALTIME) return __real_clock_gettime(c, ts); g_asked++; ts->tv_sec = g_sec; ts->tv_nsec = g_usec * 1000 + 999; return 0; }
#include <cybozu/time.hpp>
#include <string.h>
static const char *MN[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
static bool leap(int y) { return (y % 4 == 0 && y % 100) || y % 400 == 0; }
static int mdays(int y, int m) { static const int d[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 1 && leap(y) ? 29 : d[m]; }
static int64_t days(int y, int m, int d) { int64_t n = 0; static std::vector<int64_t> c; if (c.empty()) { c.resize(3002); int64_t k = 0; for (int i = 1970; i < 3002; i++) { c[i] = k; k += leap(i) ? 366 : 365; } } n = c[y]; for (int i = 0; i < m; i++) n += mdays(y, i); return n + d - 1; }
// reference: 1 accepted, 0 refused, -1 no such day of that month
static int num(const std::string& s, size_t p, int n) { int v = 0; if (p + n > s.size()) return -1; for (int i = 0; i < n; i++) { if (s[p + i] < '0' || s[p + i] > '9') return -1; v = v * 10 + s[p + i] - '0'; } return v; }
static int ref(const std::string& s, int64_t& sec, int& ms)
{
	int y = num(s, 0, 4); if (y < 1970 || y > 3000) return 0; size_t p = 4; if (p >= s.size() || (s[p] != '-' && s[p] != '/')) return 0; char sep = s[p++];
	int m = -1; for (int i = 0; i < 12; i++) if (s.compare(p, 3, MN[i]) == 0) m = i; if (m >= 0) p += 3; else { m = num(s, p, 2) - 1; if (m < 0 || m > 11) return 0; p += 2; }
	if (p >= s.size() || s[p++] != sep) return 0; int d = num(s, p, 2); if (d < 1 || d > 31) return 0; p += 2;
	if (p >= s.size() || (s[p] != ' ' && s[p] != 'T')) return 0; p++; int h = num(s, p, 2); if (h < 0 || h > 23) return 0; p += 2; if (p >= s.size() || s[p++] != ':') return 0;
	int mi = num(s, p, 2); if (mi < 0 || mi > 59) return 0; p += 2; if (p >= s.size() || s[p++] != ':') return 0; int se = num(s, p, 2); if (se < 0 || se > 59) return 0; p += 2;
	ms = 0; if (p < s.size() && s[p] == '.') { ms = num(s, p + 1, 3); if (ms < 0) return 0; p += 4; } if (p < s.size() && s[p] == 'Z') p++; if (p != s.size()) return 0;
	if (d > mdays(y, m)) return -1; sec = days(y, m, d) * 86400 + h * 3600 + mi * 60 + se; return 1;
}
// the zone of the process must not matter: every group of cases runs under one of these
static void zone(int k) { static const char *Z[] = { "UTC0", "JST-9", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "NST3:30" }; static int cur = -1; k %= 5; if (k == cur) return; cur = k; setenv("TZ", Z[k], 1); tzset(); }
static void judge(const std::string& t)
{
	int64_t sec = 0; int ms = 0; int r = ref(t, sec, ms); if (r < 0) return;
	mc::Exact x(t); cybozu::Time a(12345, 678); bool b = true; a.fromString(&b, x.b(), x.e());
	MC_CHECK(b == (r == 1), "%s", b ? "accepted" : "refused"); if (b && r == 1) MC_CHECK(a.getTime() == sec && a.getMsec() == ms, "gives %lld.%03d, expected %lld.%03d", (long long)a.getTime(), a.getMsec(), (long long)sec, ms);
	cybozu::Time c; bool thr = false; try { c.fromString(x.b(), x.e()); } catch (std::exception&) { thr = true; } MC_CHECK(thr == (r != 1) && (thr || c == a), "throwing form differs");
	thr = false; try { cybozu::Time q(t); MC_CHECK(q == a || r != 1, "constructor differs"); } catch (std::exception&) { thr = true; } MC_CHECK(thr == (r != 1), "constructor %s", thr ? "throws" : "accepts");
	mc::eval(r == 1);
}
static std::string text(int y, int m, int d, int h, int mi, int s, int ms, int form)
{
	char sep = form & 1 ? '/' : '-'; std::string mo = form & 2 ? MN[m] : mc::fmt("%02d", m + 1); std::string r = mc::fmt("%04d%c%s%c%02d%c%02d:%02d:%02d", y, sep, mo.c_str(), sep, d, form & 4 ? 'T' : ' ', h, mi, s); if (form & 8) r += mc::fmt(".%03d", ms); if (form & 16) r += "Z"; return r;
}
static void ft(const cybozu::Time& t, int64_t sec, int ms)
{
	uint32_t l, h; t.getFILETIME(l, h); unsigned __int128 v = ((unsigned __int128)(sec * 1000 + ms)) * 10000 + 116444736000000000ull; uint64_t g = ((uint64_t)h << 32) | l; MC_CHECK(g == (uint64_t)v, "FILETIME %llx", (unsigned long long)g);
	cybozu::Time u(9, 9); u.setByFILETIME(l, h); MC_CHECK(u == t, "FILETIME back gives %lld.%d", (long long)u.getTime(), u.getMsec());
	u.setByFILETIME(l + 9999 < l ? l : l + 9999, h); MC_CHECK(u == t, "FILETIME within the millisecond gives %lld.%d", (long long)u.getTime(), u.getMsec());
	uint64_t l2, h2; t.getFILETIME(l2, h2); MC_CHECK((uint32_t)l2 == l && h2 == h, "FILETIME with a wider type");
}
void mc_main()
{
	{ mc::Section s("days"); for (int y = 1970; y <= 3000; y++) for (int m = 0; m < 12; m++) { if (!s.pick()) continue; zone(y * 12 + m); for (int d = 1; d <= mdays(y, m); d++) { int k = (y * 12 + m) * 31 + d; int h = k % 24, mi = (k / 24) % 60, se = (k / 7) % 60, ms = (k * 37) % 1000; mc::what("%04d-%02d-%02d", y, m + 1, d);
			int64_t sec = days(y, m, d) * 86400 + h * 3600 + mi * 60 + se; cybozu::Time t(sec, ms); std::string e = text(y, m, d, h, mi, se, ms, 8); MC_CHECK(t.toString() == e, "toString gives %s", t.toString().c_str()); MC_CHECK(t.toString(false) == text(y, m, d, h, mi, se, 0, 0), "toString(false) gives %s", t.toString(false).c_str());
			std::string o = "x"; t.toString(o, true, false); MC_CHECK(o == "x" + e, "append gives %s", o.c_str()); t.toString(o, "%Y/%m/%dT%H:%M:%S", false); MC_CHECK(o == text(y, m, d, h, mi, se, 0, 5), "format gives %s", o.c_str());
			for (int f = 0; f < 32; f++) { judge(text(y, m, d, h, mi, se, ms, f)); if (!mc::thorough() && f == 0) f = (k % 31); else if (!mc::thorough()) break; } ft(t, sec, ms); } mc::sample(mc::g().sh->what); } }
	{ mc::Section s("clock"); for (int h = 0; h < 24; h++) for (int mi = 0; mi < 60; mi++) { if (!s.pick()) continue; zone(h + mi); for (int se = 0; se < 60; se++) { mc::what("%02d:%02d:%02d", h, mi, se); judge(text(2024, 1, 29, h, mi, se, 0, 0)); int64_t sec = days(2024, 1, 29) * 86400 + h * 3600 + mi * 60 + se; cybozu::Time t(sec, 5); MC_CHECK(t.toString() == text(2024, 1, 29, h, mi, se, 5, 8), "toString gives %s", t.toString().c_str()); } } }
	{ mc::Section s("msec"); for (int ms = 0; ms < 1000; ms++) { if (!s.pick()) continue; mc::what("msec %d", ms); for (int f = 8; f < 32; f++) if (f & 8) judge(text(1999, 11, 31, 23, 59, 59, ms, f)); cybozu::Time t(946684799, ms); MC_CHECK(t.toString() == text(1999, 11, 31, 23, 59, 59, ms, 8), "toString gives %s", t.toString().c_str()); ft(t, 946684799, ms); } }
	{ mc::Section s("edits"); // every one character substitution, deletion, insertion and truncation of texts of every form
		for (int f = 0; f < 32; f++) for (int v = 0; v < 6; v++) { static const int B[][7] = { { 1970, 0, 1, 0, 0, 0, 0 }, { 2009, 0, 23, 2, 53, 44, 78 }, { 2000, 1, 29, 23, 59, 59, 999 }, { 3000, 11, 31, 12, 30, 10, 100 }, { 2013, 10, 5, 12, 23, 56, 123 }, { 2040, 4, 30, 10, 20, 30, 9 } }; std::string t = text(B[v][0], B[v][1], B[v][2], B[v][3], B[v][4], B[v][5], B[v][6], f);
			for (size_t p = 0; p <= t.size(); p++) { if (!s.pick()) continue; zone(f + v + (int)p); mc::what("%s edited at %zu", t.c_str(), p); judge(t.substr(0, p)); if (p < t.size()) judge(t.substr(p)); if (p < t.size()) judge(t.substr(0, p) + t.substr(p + 1)); for (int c = 0; c < 256; c++) { if (p < t.size()) { std::string u = t; u[p] = (char)c; mc::what("%s", mc::show(u).c_str()); judge(u); } std::string u = t.substr(0, p) + (char)c + t.substr(p); mc::what("%s", mc::show(u).c_str()); judge(u); } mc::sample(mc::g().sh->what); } } }
	{ mc::Section s("fields"); // every value of every field
		for (int y = 0; y < 10000; y++) { if (!s.pick()) continue; std::string t = mc::fmt("%04d-01-01 00:00:00", y); mc::what("%s", t.c_str()); judge(t); }
		for (int a = 0; a < 100; a++) for (int k = 0; k < 5; k++) { if (!s.pick()) continue; int v[5] = { 6, 15, 10, 20, 30 }; v[k] = a; std::string t = mc::fmt("2011/%02d/%02dT%02d:%02d:%02d.500Z", v[0], v[1], v[2], v[3], v[4]); mc::what("%s", t.c_str()); judge(t); } }
	{ mc::Section s("addSec"); const int64_t S[] = { -86400, -1, 0, 1, 5, 2147483646, 2147483648LL, 32503679999LL }; const int A[] = { 0, 1, -1, -5, -6, 86400, -86400, 2147483647, -2147483647 - 1 }; for (int64_t t : S) for (int a : A) for (int m : { 0, 999 }) { if (!s.pick()) continue; mc::what("%lld addSec(%d)", (long long)t, a); cybozu::Time x(t, m), y(t, m); x.addSec(a); MC_CHECK(x.getTime() == t + a && x.getMsec() == m, "%lld", (long long)x.getTime()); MC_CHECK((x < y) == (a < 0) && (y < x) == (a > 0) && (x == y) == (a == 0), "comparison"); mc::eval(); } }
	{ mc::Section s("order"); const int64_t S[] = { 0, 1, 2, 86399, 86400, 2147483647, 2147483648LL, 32503679999LL }; const int M[] = { 0, 1, 500, 999 }; for (int i = 0; i < 32; i++) for (int j = 0; j < 32; j++) { if (!s.pick()) continue; cybozu::Time a(S[i / 4], M[i % 4]), b; b.setTime(S[j / 4], M[j % 4]); mc::what("%d %d", i, j); MC_CHECK((a < b) == (i < j) && (a == b) == (i == j) && (a != b) == (i != j), "comparison"); b.addSec(3); MC_CHECK(b.getTime() == S[j / 4] + 3 && b.getMsec() == M[j % 4], "addSec"); ft(a, S[i / 4], M[i % 4]); mc::eval(); } }
	{ mc::Section s("current"); const long S[] = { 0, 1, 1258000000, 2147483647, 2147483648L, 32503679999L }; for (long sec : S) for (int ms = 0; ms < 1000; ms++) { if (!s.pick()) continue; zone(ms); for (int us : { 0, 1, 499, 500, 999 }) { mc::what("clock at %ld.%03d%03d", sec, ms, us); g_sec = sec; g_usec = ms * 1000L + us; g_asked = 0; g_clock = true; cybozu::Time a(true), b(5, 5); cybozu::Time& r = b.setCurrentTime(); double d = cybozu::GetCurrentTimeSec(); g_clock = false; MC_CHECK(&r == &b, "return value"); if (g_asked) { MC_CHECK(a.getTime() == sec && a.getMsec() == ms && a == b, "current time %lld.%03d", (long long)a.getTime(), a.getMsec()); MC_CHECK(d > sec + ms * 1e-3 - 1e-5 && d < sec + ms * 1e-3 + 1e-5, "GetCurrentTimeSec %f", d); MC_CHECK(a.getTimeSec() == d, "getTimeSec"); }
			else { struct timeval x, y; __real_gettimeofday(&x, 0); a.setCurrentTime(); __real_gettimeofday(&y, 0); long long lo = x.tv_sec * 1000LL + x.tv_usec / 1000, hi = y.tv_sec * 1000LL + y.tv_usec / 1000, g = a.getTime() * 1000LL + a.getMsec(); MC_CHECK(g >= lo && g <= hi, "current time %lld outside %lld..%lld", g, lo, hi); } mc::eval(); } } }
}
