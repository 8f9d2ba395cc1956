// C08: several threads close or move away one Socket: its descriptor is closed exactly once and never lost
#include "sched.hpp"
#include <cybozu/socket.hpp>
#include <pthread.h>
#include <utility>
using namespace sched;
typedef cybozu::Socket S;
struct Fn { std::function<void()> f; static void *run(void *a) { ((Fn*)a)->f(); return 0; } };
extern "C" {
int __wrap_pipe(int fd[2]);
int __real_socket(int, int, int); int __real_connect(int, const struct sockaddr*, socklen_t);
int __wrap_close(int);
int __wrap_socket(int a, int b, int c) { if (!active()) return __real_socket(a, b, c); int fd[2]; __wrap_pipe(fd); __wrap_close(fd[0]); return fd[1]; }
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l) { return active() ? 0 : __real_connect(fd, a, l); }
}
static cybozu::SocketAddr *g_addr;
enum { CLOSE, CLOSED, MOVEFROM, MOVECTOR, MOVEASSIGN, MOVEINTO, NOP_ };
static const char *names[] = { "close", "close(DontThrow)", "t.moveFrom(s)", "T t(move(s))", "t=move(s)", "open t.moveFrom(s)" };
static int g_got, g_threw;
static void doOp(S& s, int op)
{
	bool got = false;
	try {
		switch (op) {
		case CLOSE: s.close(); break;
		case CLOSED: s.close(cybozu::DontThrow); break;
		case MOVEFROM: { S t; t.moveFrom(s); got = t.isValid(); break; }
		case MOVECTOR: { S t(std::move(s)); got = t.isValid(); break; }
		case MOVEASSIGN: { S t; t = std::move(s); got = t.isValid(); break; }
		case MOVEINTO: { S t; t.connect(*g_addr); t.moveFrom(s); got = t.isValid(); break; }
		}
	} catch (std::exception&) { Quiet q; g_threw++; }
	{ Quiet q; g_got += got; note("%s %s", names[op], got ? "got it" : "nothing"); }
}
static void scenario(const std::vector<std::vector<int> >& th, int bound)
{
	std::string nm; bool closer = false;
	for (size_t i = 0; i < th.size(); i++) { nm += i ? " || " : ""; for (size_t k = 0; k < th[i].size(); k++) { nm += std::string(k ? "; " : "") + names[th[i][k]]; closer |= th[i][k] <= CLOSED; } }
	Opts o; o.preempt = bound;
	explore(nm, [&] {
		{ Quiet q; g_got = g_threw = 0; }
		S *s = new S; s->connect(*g_addr);
		{ Quiet q; loose(s, sizeof(S)); }
		Fn f[3]; pthread_t h[3];
		for (size_t i = 0; i < th.size(); i++) {
			{ Quiet q; const std::vector<int> *pr = &th[i]; f[i].f = [s, pr] { for (size_t k = 0; k < pr->size(); k++) doOp(*s, (*pr)[k]); }; }
			pthread_create(&h[i], 0, Fn::run, &f[i]);
		}
		for (size_t i = 0; i < th.size(); i++) pthread_join(h[i], 0);
		if (s->isValid()) violation("the socket is still valid after close/move");
		delete s;
		{ Quiet q; loose(0, 0); }
	}, [&](Run& r) {
		MC_CHECK(r.openFds == 0, "%d descriptors lost (trace: %s)", r.openFds, r.trace.c_str());
		MC_CHECK(g_threw == 0, "close reported an error");
		MC_CHECK(g_got <= 1 && (closer || g_got == 1), "%d threads obtained the connection (trace: %s)", g_got, r.trace.c_str());
	}, o);
}
void mc_main()
{
	g_addr = new cybozu::SocketAddr("127.0.0.1", 80);
	{ mc::Section s("two"); for (int a = 0; a < NOP_; a++) for (int b = a; b < NOP_; b++) if (s.pick()) scenario({ { a }, { b } }, mc::tier(4, 8)); }
	{ mc::Section s("two_ops"); for (int a = 0; a < NOP_; a++) for (int b = 0; b < NOP_; b++) for (int c = 0; c < NOP_; c++) if (s.pick()) scenario({ { a, b }, { c } }, mc::tier(3, 5)); }
	{ mc::Section s("three"); for (int a = 0; a < NOP_; a++) for (int b = a; b < NOP_; b++) for (int c = b; c < NOP_; c++) if (s.pick()) scenario({ { a }, { b }, { c } }, mc::tier(3, 4)); }
}
