// the unit test framework: the verdict and the counts of every small test program
#include "util.hpp"
#include <sstream>
#include <string>
#include <math.h>
#define CYBOZU_TEST_DISABLE_AUTO_RUN
#include <cybozu/test.hpp>
typedef std::string Str;
struct A : std::exception { const char *m; A(const char *m) : m(m) {} const char *what() const noexcept { return m; } }; struct B : A { B(const char *m) : A(m) {} }; struct Z {};
static int zero, one = 1; static int g_l1[300], g_l2[300]; static int g_true; static Str g_txt = "text";
// check k: 0 ok, 1 failed, 2 ends the test by an exception
static const int NCHECK = 46;
static void check(int k)
{
	const char ca[] = "abc", cb[] = "abc", cc[] = "abd"; char m1[] = "abc"; const int a1[] = { 1, 2, 3 }, a2[] = { 1, 2, 4 }; Str s1 = "x", s2 = "x", s3 = "y"; size_t z5 = 5; int i5 = 5; float f1 = 1.5f; double d1 = 1.5, nan = NAN;
	switch (k) {
	case 0: CYBOZU_TEST_ASSERT(true); break; case 1: CYBOZU_TEST_ASSERT(zero); break; case 2: CYBOZU_TEST_ASSERT(one + one); break;
	case 3: CYBOZU_TEST_EQUAL(s1, s2); break; case 4: CYBOZU_TEST_EQUAL(s1, s3); break; case 5: CYBOZU_TEST_EQUAL(z5, i5); break; case 6: CYBOZU_TEST_EQUAL(4, z5); break; case 7: CYBOZU_TEST_EQUAL(ca, cb); break; case 8: CYBOZU_TEST_EQUAL(m1, cb); break; case 9: CYBOZU_TEST_EQUAL(cc, m1); break; case 10: CYBOZU_TEST_EQUAL(f1, 1.5f); break; case 11: CYBOZU_TEST_EQUAL(d1, 1.5000001); break; case 12: CYBOZU_TEST_EQUAL(s1, "x"); break;
	case 13: CYBOZU_TEST_NEAR(d1, 1.51, 0.1); break; case 14: CYBOZU_TEST_NEAR(d1, 1.71, 0.1); break; case 15: CYBOZU_TEST_NEAR(d1, nan, 0.1); break; case 16: CYBOZU_TEST_NEAR(1.71, d1, 0.1); break;
	case 17: CYBOZU_TEST_EQUAL_POINTER(a1, a1); break; case 18: CYBOZU_TEST_EQUAL_POINTER(a1, a2); break;
	case 19: CYBOZU_TEST_EQUAL_ARRAY(a1, a2, 2); break; case 20: CYBOZU_TEST_EQUAL_ARRAY(a1, a2, 3); break; case 21: CYBOZU_TEST_EQUAL_ARRAY(a1, a2, 0); break;
	case 22: CYBOZU_TEST_FAIL("msg"); break;
	case 23: CYBOZU_TEST_EXCEPTION(throw A("m"), A); break; case 24: CYBOZU_TEST_EXCEPTION(throw B("m"), A); break; case 25: CYBOZU_TEST_EXCEPTION(throw A("m"), B); break; case 26: CYBOZU_TEST_EXCEPTION(g_true++, A); break; case 27: CYBOZU_TEST_EXCEPTION(throw Z(), std::exception); break;
	case 28: CYBOZU_TEST_EXCEPTION_MESSAGE(throw A("hello world"), A, "lo wo"); break; case 29: CYBOZU_TEST_EXCEPTION_MESSAGE(throw A("hello"), A, "hallo"); break; case 30: CYBOZU_TEST_EXCEPTION_MESSAGE(throw A("hello"), B, "hello"); break; case 31: CYBOZU_TEST_EXCEPTION_MESSAGE(g_true++, A, "hello"); break; case 32: CYBOZU_TEST_EXCEPTION_MESSAGE(throw Z(), A, ""); break;
	case 33: CYBOZU_TEST_NO_EXCEPTION(g_true++); break; case 34: CYBOZU_TEST_NO_EXCEPTION(throw A("m")); break; case 35: CYBOZU_TEST_NO_EXCEPTION(throw Z()); break;
	case 36: throw A("stop"); case 37: throw Z(); case 38: CYBOZU_TEST_EQUAL((throw A("inside"), 1), 1); break; case 39: CYBOZU_TEST_ASSERT(!0); break; case 40: CYBOZU_TEST_EQUAL(-1, one); break;
	case 41: CYBOZU_TEST_EQUAL_ARRAY(g_l1, g_l2, 300); break; case 42: CYBOZU_TEST_EQUAL_ARRAY(g_l1, g_l1, 300); break; case 43: CYBOZU_TEST_EXCEPTION_MESSAGE(throw A(""), A, ""); break; case 44: CYBOZU_TEST_EXCEPTION_MESSAGE(throw A(""), A, "x"); break; case 45: throw A(""); }
}
// ok, ng, exception
static const int EX[NCHECK][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 1, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 0, 1, 0 }, { 0, 1, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 2, 0, 0 }, { 2, 1, 0 }, { 0, 0, 0 }, { 0, 1, 0 }, { 1, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 0, 1, 0 }, { 0, 1, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 0, 1, 0 }, { 0, 1, 0 }, { 0, 1, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 0, 0, 1 }, { 0, 0, 1 }, { 1, 0, 0 }, { 0, 1, 0 }, { 298, 2, 0 }, { 300, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
// what is printed for it
static const char *const MSG[NCHECK][3] = { {}, { "CYBOZU_TEST_ASSERT(zero);" }, {}, {}, { "CYBOZU_TEST_EQUAL(s1, s3);", "lhs=x\n", "rhs=y\n" }, {}, { "CYBOZU_TEST_EQUAL(4, z5);", "lhs=4\n", "rhs=5\n" }, {}, {}, { "CYBOZU_TEST_EQUAL(cc, m1);", "lhs=abd\n", "rhs=abc\n" }, {}, { "CYBOZU_TEST_EQUAL(d1, 1.5000001);", "lhs=1.5\n", "rhs=1.5\n" }, {}, {}, { "CYBOZU_TEST_NEAR(d1, 1.71);", "lhs=1.5\n", "rhs=1.71\n" }, { "CYBOZU_TEST_NEAR(d1, nan);", "lhs=1.5\n", "rhs=nan\n" }, { "CYBOZU_TEST_NEAR(1.71, d1);", "lhs=1.71\n", "rhs=1.5\n" }, {}, { "CYBOZU_TEST_EQUAL_POINTER(a1, a2);", "lhs=0x", "rhs=0x" }, {}, { "CYBOZU_TEST_EQUAL_ARRAY(a1, a2, 3);", "i=2\n", "lhs=3\nctest:  rhs=4\n" }, {}, { "CYBOZU_TEST_FAIL(msg);" }, {}, {}, { "CYBOZU_TEST_EXCEPTION(", "unexpected exception\n" }, { "CYBOZU_TEST_EXCEPTION(g_true++, A);", "no exception\n" }, { "CYBOZU_TEST_EXCEPTION(", "unexpected exception\n" }, {}, { "CYBOZU_TEST_EXCEPTION_MESSAGE(", "bad exception msg:hello\n" }, { "CYBOZU_TEST_EXCEPTION_MESSAGE(", "unexpected exception\n" }, { "CYBOZU_TEST_EXCEPTION_MESSAGE(", "no exception\n" }, { "CYBOZU_TEST_EXCEPTION_MESSAGE(", "unexpected exception\n" }, {}, { "CYBOZU_TEST_NO_EXCEPTION(" }, { "CYBOZU_TEST_NO_EXCEPTION(throw Z());" }, { "is stopped by exception stop\n" }, { "is stopped by unknown exception\n" }, { "is stopped by exception inside\n" }, {}, { "CYBOZU_TEST_EQUAL(-1, one);", "lhs=-1\n", "rhs=1\n" }, { "CYBOZU_TEST_EQUAL_ARRAY(g_l1, g_l2, 300);", "i=256\nctest:  lhs=0\nctest:  rhs=7\n", "i=299\nctest:  lhs=0\nctest:  rhs=9\n" }, {}, {}, { "bad exception msg:\n" }, { "is stopped by exception \n" } };
static size_t times(const Str& o, const Str& k) { size_t n = 0; for (size_t p = 0; (p = o.find(k, p)) != Str::npos; p += k.size()) n++; return n; }
static std::vector<std::vector<int> > g_mod; static std::vector<int> g_ran; static int g_fix, g_fixLive, g_fixBad; static size_t g_next;
static void module() { size_t i = g_next++; g_ran.push_back((int)i); for (int k : g_mod[i]) check(k); }
struct Fix { Fix() { if (g_fix == 1) throw A("init fails"); if (g_fix == 2) throw Z(); if (g_fix == 4) throw A(""); g_fixLive++; } ~Fix() { g_fixLive--; } };
static void init() { new (malloc(1)) Fix; } static void term() { g_fixLive--; if (g_fix == 3) throw A("term fails"); if (g_fix == 5) throw A(""); if (g_fix == 6) throw Z(); }
// the real macros once: registration order and fixtures
static std::vector<Str> g_auto; struct Per { Per() { g_auto.push_back("+"); } ~Per() { g_auto.push_back("-"); } };
CYBOZU_TEST_AUTO(first) { g_auto.push_back("first"); CYBOZU_TEST_ASSERT(true); }
CYBOZU_TEST_AUTO_WITH_FIXTURE(second, Per) { g_auto.push_back("second"); CYBOZU_TEST_EQUAL(1, 1); if (g_fixBad) throw 5; }
CYBOZU_TEST_AUTO(third) { g_auto.push_back("third"); CYBOZU_TEST_ASSERT(!g_fixBad); }
struct R { int rc; Str out; };
// run in a child: the framework keeps its counts in a singleton
static R run(std::function<int()> f) { int p[2]; if (pipe(p)) abort(); fflush(stdout); pid_t pid = fork(); if (pid == 0) { close(p[0]); dup2(p[1], 1); close(p[1]); int rc = f(); fflush(stdout); std::cout.flush(); _exit(rc == 0 ? 0 : rc == 1 ? 1 : 77); } close(p[1]); R r; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) r.out.append(b, n); close(p[0]); int st; waitpid(pid, &st, 0); r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); return r; }
static int count(const Str& o, const char *key) { size_t p = o.rfind("ctest:name="); if (p == Str::npos) return -1; p = o.find(Str(key) + "=", p); return p == Str::npos ? -1 : atoi(o.c_str() + p + strlen(key) + 1); }
static void program(const std::vector<std::vector<int> >& mods, int fix)
{
	Str w; for (auto& m : mods) { w += "["; for (int k : m) w += mc::fmt(" %d", k); w += " ]"; } mc::what("modules %s fixture %d", w.c_str(), fix); g_mod = mods; int ok = 0, ng = 0, ex = 0; for (auto& m : mods) for (int k : m) { ok += EX[k][0]; ng += EX[k][1]; if (EX[k][2]) { ex++; break; } }
	R r = run([&] { cybozu::test::AutoRun& a = cybozu::test::autoRun; a = cybozu::test::AutoRun(); g_fix = fix; g_next = 0; if (fix >= 0) a.setup(init, term); for (size_t i = 0; i < mods.size(); i++) a.append("module", module); char n[] = "dir/prog.exe"; char *av[] = { n, 0 }; int rc = a.run(1, av); std::cout << "ran"; for (int i : g_ran) std::cout << " " << i; std::cout << " live " << g_fixLive << std::endl; return rc; });
	bool stopped = fix == 1 || fix == 2 || fix == 4, tf = fix == 3 || fix == 5 || fix == 6; bool bad = stopped || tf || ng + ex > 0; MC_CHECK(r.rc == (bad ? 1 : 0), "exit status %d, expected %d", r.rc, bad); Str ran = "ran"; if (!stopped) for (size_t i = 0; i < mods.size(); i++) ran += mc::fmt(" %zu", i); ran += " live 0\n"; MC_CHECK(r.out.size() >= ran.size() && r.out.compare(r.out.size() - ran.size(), ran.size(), ran) == 0, "order: %s", r.out.c_str());
	if (!stopped) {
		MC_CHECK((int)times(r.out, ":ctest:CYBOZU_TEST_") == ng, "%zu failures listed, %d failed: %s", times(r.out, ":ctest:CYBOZU_TEST_"), ng, r.out.c_str());
		for (auto& m : mods) for (int k : m) { for (int x = 0; x < 3; x++) if (MSG[k][x]) MC_CHECK(r.out.find(MSG[k][x]) != Str::npos, "check %d: no '%s' in %s", k, MSG[k][x], r.out.c_str()); if (EX[k][2]) break; }
		MC_CHECK((int)times(r.out, "ctest:module=module\n") == (int)mods.size() && (int)times(r.out, " is stopped by ") == ex, "modules %s", r.out.c_str());
	}
	if (!stopped && !tf) { MC_CHECK(count(r.out, "ok") == ok && count(r.out, "ng") == ng && count(r.out, "exception") == ex && count(r.out, "total") == ok + ng + ex && count(r.out, "module") == (int)mods.size(), "summary ok=%d ng=%d exception=%d total=%d module=%d, expected %d %d %d", count(r.out, "ok"), count(r.out, "ng"), count(r.out, "exception"), count(r.out, "total"), count(r.out, "module"), ok, ng, ex); }
	mc::eval(!mods.empty());
}
void mc_main()
{
	g_l2[256] = 7; g_l2[299] = 9;
	{ mc::Section s("one check"); for (int k = 0; k < NCHECK; k++) for (int fix = -1; fix <= 6; fix++) { if (!s.pick()) continue; program({ { k } }, fix); program({ { k, 0 } }, fix); program({ { k }, { 0 } }, fix); program({ { 0 }, {}, { k } }, fix); } if (s.pick()) program({}, -1); if (s.pick()) program({ {}, {} }, 0); }
	{ mc::Section s("two checks"); for (int a = 0; a < NCHECK; a++) for (int b = 0; b < NCHECK; b++) { if (!s.pick()) continue; program({ { a, b } }, -1); if (mc::thorough()) program({ { a }, { b } }, 0); } }
	{ mc::Section s("programs"); const int K[] = { 0, 1, 36, 37 }; mc::forSeqUpTo(5, mc::tier(5, 6), [&](const std::vector<int>& q) { if (!s.pick()) return; std::vector<std::vector<int> > m(1); for (int i : q) { if (i == 4) m.push_back(std::vector<int>()); else m.back().push_back(K[i]); } program(m, -1); }); }
	{ mc::Section s("many"); for (int n : { 255, 256, 257, 512 }) for (int k : { 1, 36 }) { if (!s.pick()) continue; std::vector<std::vector<int> > m; for (int i = 0; i < n; i++) m.push_back({ k }); program(m, -1); } }
	{ mc::Section s("macros"); for (int bad = 0; bad < 2; bad++) { if (!s.pick()) continue; mc::what("CYBOZU_TEST_AUTO, bad %d", bad); R r = run([&] { g_fixBad = bad; char n[] = "p"; char *av[] = { n, 0 }; int rc = cybozu::test::autoRun.run(1, av); for (auto& x : g_auto) std::cout << x; std::cout << std::endl; return rc; }); MC_CHECK(r.rc == bad, "exit status %d", r.rc); MC_CHECK(r.out.find("first+second-third\n") != Str::npos, "order %s", r.out.c_str()); MC_CHECK(count(r.out, "ok") == (bad ? 2 : 3) && count(r.out, "ng") == bad && count(r.out, "exception") == bad, "counts %s", r.out.c_str()); mc::eval(); } }
	{ mc::Section s("isEqual"); using cybozu::test::isEqual; double d[] = { 0.0, -0.0, 1, -1, 1e300, INFINITY, NAN, 5e-324 }; for (double a : d) for (double b : d) { if (!s.pick()) continue; mc::what("isEqual(%g, %g)", a, b); MC_CHECK(isEqual(a, b) == (memcmp(&a, &b, 8) == 0), "double"); float x = (float)a, y = (float)b; MC_CHECK(isEqual(x, y) == (memcmp(&x, &y, 4) == 0), "float"); mc::eval(); } const char *t[] = { "", "a", "ab", "b" }; for (auto a : t) for (auto b : t) { if (!s.pick()) continue; mc::what("isEqual(%s, %s)", a, b); bool e = !strcmp(a, b); Str p(a), q(b); MC_CHECK(isEqual(a, b) == e && isEqual(&p[0], b) == e && isEqual(a, &q[0]) == e && isEqual(&p[0], &q[0]) == e && isEqual(p, b) == e && isEqual(p, q) == e, "strings"); mc::eval(); } for (int a : { 0, 1, 5, 2147483647 }) for (size_t b : { (size_t)0, (size_t)1, (size_t)5, (size_t)2147483647, (size_t)1 << 32, ((size_t)1 << 32) + 1 }) { if (!s.pick()) continue; mc::what("isEqual(%d, %zu)", a, b); MC_CHECK(isEqual(a, b) == ((size_t)a == b) && isEqual(b, a) == ((size_t)a == b), "int size_t"); mc::eval(); } }
}
