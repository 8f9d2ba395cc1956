// ssl::ClientSocket over a modelled TLS layer: every split, retry request, end of stream and failure at every call
#include "util.hpp"
#include "fakeos.hpp"
#include <sys/wait.h>
#include <sys/mman.h>
#include <openssl/ssl.h>
#include <openssl/err.h>
namespace tls {
struct S { int fd = -1; bool connected = false, down = false; };
static mc::Chooser *ch; static std::set<S*> live; static std::string rx, tx, bad; static size_t rxPos; static int err, retries, injected, shut, printed; static bool faults, zero; static int64_t big = -1; static int maxRetry = 2;
static const char *bigBase; static void badness(const std::string& s) { if (bad.empty()) bad = s; }
static void reset(mc::Chooser *c, const std::string& r) { ch = c; live.clear(); rx = r; tx.clear(); bad.clear(); rxPos = 0; err = retries = injected = shut = printed = 0; faults = false; }
static S *get(SSL *p, const char *w) { S *s = (S*)p; if (!live.count(s)) { badness(std::string(w) + " on a dead connection"); return 0; } return s; }
static bool onWire(S *s, const char *w) { fos::Fd *f = fos::os().get(s->fd); if (!f || f->kind != fos::SOCK) { badness(std::string(w) + " without an open socket"); return false; } return true; }
// 0 go on, otherwise the SSL_ERROR_ value
static int trouble() { if (!faults) return 0; bool r = retries < maxRetry; int k = ch->choose(r ? 6 : 4); zero = false; if (k == 0) return 0; if (k == 1) { injected++; return SSL_ERROR_SSL; } if (k == 2) { injected++; return SSL_ERROR_SYSCALL; } if (k == 3) { injected++; zero = true; return SSL_ERROR_SYSCALL; } /* the connection is gone: 0 with an error */ retries++; return k == 4 ? SSL_ERROR_WANT_READ : SSL_ERROR_WANT_WRITE; }
}
extern "C" {
SSL *__wrap_SSL_new(SSL_CTX *) { if (tls::faults && tls::ch->choose(2)) { tls::injected++; return 0; } tls::S *s = new tls::S; tls::live.insert(s); return (SSL*)s; }
void __wrap_SSL_free(SSL *p) { tls::S *s = tls::get(p, "SSL_free"); if (!s) return; tls::live.erase(s); delete s; }
int __wrap_SSL_set_fd(SSL *p, int fd) { tls::S *s = tls::get(p, "SSL_set_fd"); if (!s) return 0; if (tls::faults && tls::ch->choose(2)) { tls::injected++; return 0; } s->fd = fd; return 1; }
int __wrap_SSL_connect(SSL *p) { tls::S *s = tls::get(p, "SSL_connect"); if (!s || !tls::onWire(s, "SSL_connect")) return -1; if (tls::faults) { int k = tls::ch->choose(3); if (k) { tls::injected++; return k == 1 ? 0 : -1; } } s->connected = true; return 1; }
int __wrap_SSL_read(SSL *p, void *b, int n) { tls::S *s = tls::get(p, "SSL_read"); if (!s || !tls::onWire(s, "SSL_read")) { tls::err = SSL_ERROR_SYSCALL; return -1; } if (n <= 0) tls::badness(mc::fmt("SSL_read of %d bytes", n)); if ((tls::err = tls::trouble())) return tls::zero ? 0 : -1; size_t left = tls::rx.size() - tls::rxPos; if (left == 0) { tls::err = SSL_ERROR_ZERO_RETURN; return 0; } size_t m = left < (size_t)n ? left : (size_t)n; if (m > 1) m = m - tls::ch->choose((int)m); memcpy(b, tls::rx.data() + tls::rxPos, m); tls::rxPos += m; return (int)m; }
int __wrap_SSL_write(SSL *p, const void *b, int n) { tls::S *s = tls::get(p, "SSL_write"); if (!s || !tls::onWire(s, "SSL_write")) { tls::err = SSL_ERROR_SYSCALL; return -1; } if (n <= 0) tls::badness(mc::fmt("SSL_write of %d bytes", n)); if ((tls::err = tls::trouble())) return tls::zero ? 0 : -1; if (tls::big >= 0) { if ((const char*)b != tls::bigBase + tls::big) tls::badness(mc::fmt("SSL_write at offset %lld instead of %lld", (long long)((const char*)b - tls::bigBase), (long long)tls::big)); int m = n - tls::ch->choose(2); if (m < 1) m = 1; tls::big += m; return m; } size_t m = n; if (m > 1) m = m - tls::ch->choose((int)m); tls::tx.append((const char*)b, m); return (int)m; }
int __wrap_SSL_get_error(const SSL *p, int) { tls::get((SSL*)p, "SSL_get_error"); return tls::err; }
int __wrap_SSL_shutdown(SSL *p) { tls::S *s = tls::get(p, "SSL_shutdown"); if (!s) return -1; if (s->fd < 0) return -1; /* never attached: OpenSSL answers -1 */ if (!tls::onWire(s, "SSL_shutdown")) return -1; tls::shut++; int k = tls::ch->choose(tls::faults ? 3 : 2); if (k == 2) { tls::injected++; return -1; } s->down = true; return k == 0 ? 1 : 0; }
void __wrap_ERR_print_errors_fp(FILE *) { tls::printed++; }
}
#include <cybozu/ssl.hpp>
using namespace fos;
typedef cybozu::ssl::ClientSocket C;
static cybozu::SocketAddr *g_addr;
static std::string bytes(size_t n, int k) { std::string s; for (size_t i = 0; i < n; i++) s += char('A' + (i * 7 + k * 3) % 57); return s; }
// a program of operations on one connection; tx and rx judged after each
enum { R0, R1, R3, RS1, RS3, W0, W1, W4, CL, CLN, NOP };
static void program(const std::vector<int>& q, size_t len, int bound, bool connectFaults)
{
	mc::Chooser ch; ch.run([&] { std::string in = bytes(len, 2); tls::reset(&ch, in); OS& o = os(); o.base = 0; o.reset(&ch); On on; C *c = 0; bool usable = false; std::string got, sent; bool open = false, connFail = false; std::string w; for (int i : q) w += (char)('a' + i);
		tls::faults = connectFaults; try { c = new C; } catch (cybozu::Exception&) { MC_CHECK(tls::injected > 0, "constructor threw"); }
		if (c) { try { o.fConnErr = connectFaults; c->connect(*g_addr); usable = open = true; } catch (cybozu::Exception&) { connFail = true; } mc::what("ops %s, %zu bytes to read, answers %s", w.c_str(), len, ch.path().c_str()); if (usable) MC_CHECK(tls::live.size() == 1 && (*tls::live.begin())->connected && tls::injected == 0, "connect succeeded without a connection"); else MC_CHECK(connectFaults /* an interrupted connect is reported too */, "connect failed though nothing went wrong"); }
		o.fConnErr = false; tls::faults = true;
		if (usable) for (size_t k = 0; k < q.size(); k++) { int op = q[k]; int inj = tls::injected; bool thr = false; size_t n = 0, r = 0; std::string before = tls::tx; size_t pos0 = tls::rxPos; char *p = 0; mc::what("ops %s, %zu bytes to read, answers %s", w.c_str(), len, ch.path().c_str());
				if (!open && op != CL && op != CLN) break;
				switch (op) { case R0: case R1: case R3: n = op == R0 ? 0 : op == R1 ? 1 : 3; p = (char*)malloc(n + 1); memset(p, '#', n + 1); try { c->read(p, n); } catch (cybozu::Exception&) { thr = true; } if (!thr) MC_CHECK(in.compare(pos0, n, p, n) == 0 && pos0 + n <= in.size() && tls::rxPos == pos0 + n && p[n] == '#', "read(%zu) is wrong: %s, %zu consumed", n, std::string(p, n).c_str(), tls::rxPos - pos0); else MC_CHECK(tls::injected > inj || in.size() - pos0 < n, "read(%zu) threw though the data is there", n); free(p); break;
					case RS1: case RS3: n = op == RS1 ? 1 : 3; p = (char*)malloc(n + 1); memset(p, '#', n + 1); try { r = c->readSome(p, n); } catch (cybozu::Exception&) { thr = true; } if (!thr) MC_CHECK(r <= n && tls::rxPos == pos0 + r && in.compare(pos0, r, p, r) == 0 && p[n] == '#' && (r > 0 || pos0 == in.size()), "readSome(%zu) = %zu", n, r); MC_CHECK(thr == (tls::injected > inj), "readSome: thrown %d, failures %d", thr, tls::injected - inj); free(p); break;
					case W0: case W1: case W4: { n = op == W0 ? 0 : op == W1 ? 1 : 4; std::string d = bytes(n, (int)k); char *x = (char*)malloc(n ? n : 1); memcpy(x, d.data(), n); try { c->write(x, n); } catch (cybozu::Exception&) { thr = true; } free(x); std::string now = tls::tx.substr(before.size()); if (!thr) MC_CHECK(now == d, "write reported success, the peer gets %s instead of %s", now.c_str(), d.c_str()); else MC_CHECK(d.compare(0, now.size(), now) == 0, "not a prefix"); MC_CHECK(thr == (tls::injected > inj), "write: thrown %d, failures %d", thr, tls::injected - inj); break; }
					case CL: case CLN: { int s0 = tls::shut; bool was = open; try { if (op == CLN) c->close(true); else c->close(); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(o.fds.empty(), "socket left open by close"); MC_CHECK(tls::shut - s0 == (was ? 1 : 0), "SSL_shutdown called %d times", tls::shut - s0); MC_CHECK(thr == (op == CL && tls::injected > inj), "close: thrown %d, failures %d", thr, tls::injected - inj); open = false; break; } }
				mc::state(); if (thr) { break; } }
		int s0 = tls::shut; delete c; if (usable) MC_CHECK(tls::shut - s0 == (open ? 1 : 0), "SSL_shutdown called %d times by the destructor", tls::shut - s0); mc::what("ops %s, %zu bytes to read, answers %s", w.c_str(), len, ch.path().c_str()); MC_CHECK(tls::live.empty(), "connection object leaked"); MC_CHECK(o.fds.empty(), "descriptor leaked"); MC_CHECK(tls::bad.empty(), "%s", tls::bad.c_str()); MC_CHECK(o.badness.empty(), "%s", o.badness.c_str()); mc::eval(usable && !q.empty()); }, bound);
}
void mc_main()
{
	cybozu::SocketAddr a("127.0.0.1", 80); g_addr = &a; const int nop = NOP; const int b = mc::tier(3, 5);
	{ mc::Section s("process end"); for (int k = 0; k < 3; k++) { if (!s.pick()) continue; mc::what("a process that used %d client sockets ends normally", k); fflush(0); pid_t p = fork(); if (p == 0) { tls::faults = false; mc::Chooser ch; tls::reset(&ch, ""); { C *c[2]; for (int i = 0; i < k; i++) c[i] = new C; for (int i = 0; i < k; i++) delete c[i]; } exit(7); } int st; waitpid(p, &st, 0); MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 7, "the process ended with status %x", st); mc::eval(); } }
	{ mc::Section s("connect"); for (size_t len : { (size_t)0, (size_t)2 }) mc::forSeqUpTo(nop, 1, [&](const std::vector<int>& q) { if (!s.pick()) return; program(q, len, b + 2, true); }); }
	{ mc::Section s("programs"); for (size_t len = 0; len <= 4; len++) mc::forSeqUpTo(nop, mc::tier(3, 4), [&](const std::vector<int>& q) { if (!s.pick()) return; program(q, len, b, false); }); }
	{ mc::Section s("large"); // sizes beyond int: nothing is read or written outside the buffer, and everything is sent
		const int64_t top = 0x200000010LL; char *m = (char*)mmap(0, top, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		for (int64_t n : { 0x7ffffffeLL, 0x7fffffffLL, 0x80000000LL, 0x80000001LL, 0xffffffffLL, 0x100000000LL, 0x100000001LL, 0x17fffffffLL, 0x200000000LL }) for (int op = 0; op < 2; op++) { if (!s.pick()) continue; if (m == MAP_FAILED) continue; mc::what("%s of %lld bytes", op ? "write" : "readSome", (long long)n); mc::Chooser ch; ch.run([&] { tls::reset(&ch, "abc"); OS& o = os(); o.reset(&ch); On on; { C c; c.connect(*g_addr); if (op == 0) { size_t r = c.readSome(m, (size_t)n); MC_CHECK(r >= 1 && r <= 3 && memcmp(m, "abc", r) == 0, "readSome = %zu", r); } else { tls::big = 0; tls::bigBase = m; bool thr = false; try { c.write(m, (size_t)n); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(!thr && tls::big == n, "%lld bytes sent", (long long)tls::big); tls::big = -1; } } MC_CHECK(tls::bad.empty(), "%s", tls::bad.c_str()); mc::eval(); }, 2); }
		if (m != MAP_FAILED) munmap(m, top); }
	{ mc::Section s("splits"); for (size_t len = 0; len <= (size_t)mc::tier(6, 9); len++) for (int op : { R3, RS3, W4 }) for (int op2 : { R3, W4 }) { if (!s.pick()) continue; program({ op, op2 }, len, 1000, false); } }
}
