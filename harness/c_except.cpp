// Exception messages, error number texts, environment lookups, quit signal handler
#include "util.hpp"
#include <string>
#include <vector>
#include <limits.h>
#include <map>
#include <sstream>
#include <signal.h>
#include <stdlib.h>
#include <sys/wait.h>
#include <cybozu/exception.hpp>
#include <cybozu/env.hpp>
#include <cybozu/quit_signal_handler.hpp>
struct App { volatile sig_atomic_t n; App() : n(0) {} void quit() { n = n + 1; } };
struct App2 { volatile sig_atomic_t n; App2() : n(0) {} void quit() { n = n + 1; } };
struct Pt { int x; }; static std::ostream& operator<<(std::ostream& os, const Pt& p) { return os << "<" << p.x << ">"; }
static void put(cybozu::Exception& e, std::string& want, int op)
{
	switch (op) { case 0: e << "abc"; want += ":abc"; break; case 1: e << std::string("x y"); want += ":x y"; break; case 2: e << 12345; want += ":12345"; break; case 3: e << -7LL; want += ":-7"; break; case 4: e << 'c'; want += ":c"; break; case 5: e << ""; want += ":"; break; case 6: { Pt p = { 5 }; e << p; want += ":<5>"; } break; case 7: e << 1.5; want += ":1.5"; break; case 8: e << cybozu::ErrorNo(ENOENT); want += std::string(":") + strerror(ENOENT) + "(2)"; break; case 9: e << std::string(3000, 'L'); want += ":" + std::string(3000, 'L'); break; case 10: e << UINT64_MAX; want += ":18446744073709551615"; break; default: { char buf[] = "mut%s%n"; e << buf; want += ":mut%s%n"; } }
}
void mc_main()
{
	{ mc::Section s("message"); const char *names[] = { "", "mod:func" }; for (int nm = 0; nm < 3; nm++) mc::forSeqUpTo(12, mc::tier(4, 5), [&](const std::vector<int>& q) { if (!s.pick()) return; std::string w; for (int i : q) w += (char)('a' + i); mc::what("name %d, << %s", nm, w.c_str()); std::string want; cybozu::Exception e0, e1("mod:func"), e2(std::string(500, 'n')); cybozu::Exception& e = nm == 0 ? e0 : nm == 1 ? e1 : e2; want = nm == 2 ? std::string(500, 'n') : names[nm]; for (int op : q) { put(e, want, op); mc::state(); }
		MC_CHECK(want == e.what() && e.toString() == want, "message is '%s', expected '%s'", e.what(), want.c_str()); MC_CHECK(want == e.what(), "second what() differs"); std::string got; try { throw e; } catch (std::exception& x) { got = x.what(); } MC_CHECK(got == want, "caught as std::exception: '%s'", got.c_str()); cybozu::Exception c(e); put(c, want, 0); MC_CHECK(want == c.what(), "copy"); MC_CHECK(want.size() == e.toString().size() + 4, "appending to the copy changed the original"); e = c; MC_CHECK(want == e.what(), "assignment"); mc::eval(!q.empty()); }); }
	{ mc::Section s("errno"); for (int i = -300; i < mc::tier(4500, 70000); i++) { if (!s.pick()) continue; mc::what("error %d", i); std::string want = std::string(strerror(i)) + mc::fmt("(%d)", i); MC_CHECK(cybozu::ConvertErrorNoToString(i) == want, "'%s', expected '%s'", cybozu::ConvertErrorNoToString(i).c_str(), want.c_str()); MC_CHECK(cybozu::ErrorNo(i).toString() == want, "ErrorNo"); errno = i; cybozu::ErrorNo now; errno = 0; MC_CHECK(now.toString() == want, "ErrorNo() is not errno"); std::ostringstream os; os << cybozu::ErrorNo(i); MC_CHECK(os.str() == want, "<<"); mc::eval(i > 0); }
		for (int i : { INT_MAX, INT_MIN, INT_MAX - 1 }) { if (!s.pick()) continue; mc::what("error %d", i); MC_CHECK(cybozu::ConvertErrorNoToString(i) == std::string(strerror(i)) + mc::fmt("(%d)", i), "text"); mc::eval(); } }
	// every prefix length of every kind of text: at most 16 characters, never past the end or a NUL
	{ mc::Section s("makeString"); for (int len = 0; len <= 40; len++) for (int nul = -1; nul < len; nul++) { if (!s.pick()) continue; mc::what("%d characters, NUL at %d", len, nul); std::string t; for (int i = 0; i < len; i++) t += i == nul ? '\0' : (char)('a' + i % 26); mc::Exact m(t); std::string g = cybozu::exception::makeString(m.p, len); std::string full = t.substr(0, 16), cut = nul >= 0 ? full.substr(0, nul) : full; MC_CHECK(g == full || g == cut, "makeString gives %zu characters", g.size()); mc::eval(len > 0); } }
	{ mc::Section s("env"); static const char *K[] = { "MC_A", "MC_AB", "MC_", "mc_a" }; static const char *V[] = { "", "v", "a=b", " x ", "\x80\xff" }; mc::forSeqUpTo(4 * 6, mc::tier(3, 4), [&](const std::vector<int>& q) { if (!s.pick()) return; std::string w; for (int i : q) w += mc::fmt("%d:%d ", i / 6, i % 6); mc::what("%s", w.c_str()); std::map<std::string, std::string> m; for (const char *k : K) unsetenv(k); for (int i : q) { const char *k = K[i / 6]; if (i % 6 == 5) { unsetenv(k); m.erase(k); } else { setenv(k, V[i % 6], 1); m[k] = V[i % 6]; }
			for (const char *x : K) { std::string v = "old value"; bool b = cybozu::QueryEnv(v, x); MC_CHECK(b == (m.count(x) != 0), "QueryEnv(%s)", x); if (b) MC_CHECK(v == m[x], "QueryEnv(%s) value", x); bool thr = false; std::string g; try { g = cybozu::GetEnv(x); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr == !b && (thr || g == m[x]), "GetEnv(%s)", x); MC_CHECK(cybozu::GetEnv(x, "def") == (b ? m[x] : "def"), "GetEnv(%s, def)", x); } mc::state(); } mc::eval(!q.empty()); }); }
	// every history of the four quit signals, sent while the program computes, sleeps or is already in the handler of another application object
	{ mc::Section s("signal"); static const int S[] = { SIGINT, SIGQUIT, SIGABRT, SIGTERM }; mc::forSeqUpTo(5, mc::tier(4, 5), [&](const std::vector<int>& q) { if (!s.pick()) return; std::string w; for (int i : q) w += (char)('0' + i); mc::what("signals %s (4: a new handler object)", w.c_str()); pid_t p = fork(); if (p == 0) { for (int x : S) signal(x, SIG_DFL); App a, b; App *cur = &a; int want = 0; { cybozu::QuitSignalHandler<App> h(a); for (int i : q) { if (i == 4) { static char buf[4][64]; static int k; new (buf[k++ % 4]) cybozu::QuitSignalHandler<App>(b); cur = &b; want = b.n; continue; } raise(S[i]); want++; if (cur->n != want) _exit(1); } } raise(SIGTERM); if (cur->n != want + 1) _exit(2); App2 c; cybozu::QuitSignalHandler<App2> h2(c); raise(SIGINT); if (c.n != 1 || cur->n != want + 1) _exit(3); for (int x : S) { struct sigaction sa; sigaction(x, 0, &sa); for (int y : S) if (!sigismember(&sa.sa_mask, y)) _exit(4); if (sa.sa_flags & SA_RESETHAND) _exit(5); } _exit(0); }
		int st; waitpid(p, &st, 0); MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "%s", WIFSIGNALED(st) ? mc::fmt("killed by signal %d", WTERMSIG(st)).c_str() : WEXITSTATUS(st) == 1 ? "quit() not called exactly once per signal" : mc::fmt("failure %d", WEXITSTATUS(st)).c_str()); mc::eval(!q.empty()); }); }
}
