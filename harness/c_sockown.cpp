// C08: descriptor ownership and connection state of Socket under every operation sequence and failure
#include "fakeos.hpp"
#include <cybozu/socket.hpp>
#include <utility>
using namespace fos;
static cybozu::SocketAddr *g_addr;
typedef cybozu::Socket S;

enum { CONNECT0, CONNECTT, BIND, ACCEPT, ACCEPTA, CLOSE, CLOSED, MOVE01, MOVE10, MOVECTOR, MOVEASSIGN, WR, NEWOBJ, BIND4, BIND6, NOP_ };
static const char *names[] = { "connect", "connect(timeout)", "bind", "accept", "accept(addr)", "close", "close(DontThrow)", "s0.moveFrom(s1)", "s1.moveFrom(s0)", "move-construct", "move-assign", "write", "destroy+new", "bind(IPv4)", "bind(IPv6)" };

static uint64_t idOf(int which, S *s)
{
	// which descriptor does the object use?  observed through a write
	for (std::map<int, Fd>::iterator i = os().fds.begin(); i != os().fds.end(); ++i) i->second.txLen = 0;
	char c = 0; bool b;
	bool e1 = os().fErr, e2 = os().fEintr; os().fErr = os().fEintr = false;
	s->write(&b, &c, 1);
	os().fErr = e1; os().fEintr = e2;
	for (std::map<int, Fd>::iterator i = os().fds.begin(); i != os().fds.end(); ++i) if (i->second.txLen == 1) return i->second.id;
	return 0;
}
static void seqRun(const std::vector<int>& ops, int bound, int base, int connErr = 0)
{
	mc::Chooser ch;
	ch.run([&] {
		OS& o = os(); o.base = base; o.reset(&ch); o.on = true; o.connErr = connErr;
		std::string trace;
		{
			S *s[2] = { new S, new S };
			uint64_t own[2] = { 0, 0 }; // id of the owned descriptor according to the specification
			S *srv = new S; srv->bind(1); // a listening socket
			for (size_t k = 0; k < ops.size(); k++) {
				int op = ops[k] % 100, i = ops[k] / 100;
				trace += mc::fmt(" %s%s", names[op], op == MOVE01 || op == MOVE10 ? "" : i ? "/s1" : "/s0");
				mc::setWhat(trace + " path=" + ch.path());
				o.fSock = o.fConnErr = o.fClose = true; o.fEintr = op == CONNECTT;
				uint64_t inj0 = o.injected; o.bindFailed = false; bool threw = false, was = s[i]->isValid();
				uint64_t before = own[i];
				try {
					switch (op) {
					case CONNECT0: s[i]->connect(*g_addr); break;
					case CONNECTT: s[i]->connect(*g_addr, 1234); break;
					case BIND: s[i]->bind(5); break;
					case BIND4: s[i]->bind(5, S::allowIPv4); break;
					case BIND6: s[i]->bind(5, S::allowIPv6); break;
					case ACCEPT: srv->accept(*s[i]); break;
					case ACCEPTA: { cybozu::SocketAddr a; srv->accept(*s[i], &a); MC_CHECK(a.getPort() == 4321, "peer port %d", a.getPort()); break; }
					case CLOSE: s[i]->close(); break;
					case CLOSED: s[i]->close(cybozu::DontThrow); break;
					case MOVE01: s[0]->moveFrom(*s[1]); break;
					case MOVE10: s[1]->moveFrom(*s[0]); break;
					case MOVECTOR: { S *t = new S(std::move(*s[i])); MC_CHECK(!s[i]->isValid(), "moved-from socket still valid"); delete s[i]; s[i] = t; break; }
					case MOVEASSIGN: { S *t = new S; *t = std::move(*s[i]); MC_CHECK(!s[i]->isValid(), "moved-from socket still valid"); delete s[i]; s[i] = t; break; }
					case WR: { char c[2] = { 1, 2 }; bool b; o.fErr = true; s[i]->write(&b, c, 2); o.fErr = false; break; }
					case NEWOBJ: delete s[i]; s[i] = new S; own[i] = 0; break;
					}
				} catch (std::exception&) { threw = true; }
				o.fSock = o.fConnErr = o.fClose = o.fErr = o.fEintr = false;
				MC_CHECK(o.badness.empty(), "%s", o.badness.c_str());
				// exactly one descriptor per valid object
				size_t valid = s[0]->isValid() + s[1]->isValid() + srv->isValid();
				MC_CHECK(o.fds.size() == valid, "%zu descriptors open for %zu valid sockets", o.fds.size(), valid);
				uint64_t now[2] = { s[0]->isValid() ? idOf(0, s[0]) : 0, s[1]->isValid() ? idOf(1, s[1]) : 0 };
				if (now[0]) MC_CHECK(now[0] != now[1], "two sockets own one descriptor");
				// effect of the operation
				Fd *f = 0;
				for (std::map<int, Fd>::iterator it = o.fds.begin(); it != o.fds.end(); ++it) if (now[i] && it->second.id == now[i]) f = &it->second;
				switch (op) {
				case CONNECT0: case CONNECTT:
					if (was) { MC_CHECK(threw && now[i] == before, "connect on a connected socket"); break; }
					if (!threw) { MC_CHECK(f && f->conn == CONNECTED, "connect returned but the connection is not established"); MC_CHECK(f && !f->nonblock, "connect left the socket non-blocking");
						MC_CHECK(f && f->addr == std::string((const char*)g_addr->get(), g_addr->getSize()), "connected to another address");
						if (op == CONNECTT && o.selCalls) MC_CHECK(o.lastSec == 1 && o.lastUsec == 234000, "waited with timeout %ld.%06ld instead of 1.234 s", o.lastSec, o.lastUsec); }
					else MC_CHECK(o.injected > inj0 || op == CONNECTT || o.eintrLeft < 2 || (f && f->conn != CONNECTED), "connect threw though nothing failed");
					break;
				case BIND: case BIND4: case BIND6: if (!threw) { MC_CHECK(f && f->conn == LISTENING && f->bound, "bind returned but the socket does not listen"); } else { MC_CHECK(o.injected > inj0, "bind threw though nothing failed"); if (o.bindFailed) MC_CHECK(!s[i]->isValid(), "the socket keeps a descriptor that could not be bound"); } break;
				case ACCEPT: case ACCEPTA: if (!threw) MC_CHECK(f && f->conn == CONNECTED && now[i] != before, "accept returned without a new connection"); else { MC_CHECK(o.injected > inj0, "accept threw though nothing failed"); } break;
				case CLOSE: case CLOSED: MC_CHECK(!s[i]->isValid(), "valid after close"); MC_CHECK(threw == (op == CLOSE && o.injected > inj0), "close: threw=%d", threw); break;
				case MOVE01: if (!threw) MC_CHECK(now[0] == own[1] && now[1] == 0, "moveFrom did not transfer the descriptor"); else MC_CHECK(now[0] == 0 && now[1] == own[1], "failed moveFrom lost the source"); break;
				case MOVE10: if (!threw) MC_CHECK(now[1] == own[0] && now[0] == 0, "moveFrom did not transfer the descriptor"); else MC_CHECK(now[1] == 0 && now[0] == own[0], "failed moveFrom lost the source"); break;
				case MOVECTOR: case MOVEASSIGN: MC_CHECK(now[i] == before && !threw, "move did not transfer the descriptor"); break;
				case WR: MC_CHECK(now[i] == before, "descriptor changed by write"); break;
				}
				if (op != MOVE01 && op != MOVE10) MC_CHECK(now[1 - i] == own[1 - i], "an operation on one socket changed the other");
				own[0] = now[0]; own[1] = now[1];
			}
			o.fClose = true; // destructors must cope with close failing
			delete s[0]; delete s[1]; delete srv;
			o.fClose = false;
		}
		MC_CHECK(o.fds.empty(), "%zu descriptors leaked after destruction", o.fds.size());
		MC_CHECK(o.badness.empty(), "%s", o.badness.c_str());
		mc::eval();
		o.on = false;
	}, bound);
}
static void queryAccept(int fd0, int msec, bool rdSide)
{
	mc::Chooser ch;
	ch.run([&] {
		OS& o = os(); o.base = fd0; o.reset(&ch); o.on = true;
		{
			S s; s.connect(*g_addr);
			o.fConnErr = o.fEintr = true;
			int r = s.queryAcceptNoThrow(msec, rdSide);
			int e = errno;
			o.fConnErr = o.fEintr = false;
			mc::what("queryAccept fd=%d msec=%d read=%d path=%s r=%d", fd0, msec, rdSide, ch.path().c_str(), r);
			MC_CHECK(o.badness.empty(), "%s", o.badness.c_str());
			if (fd0 >= FD_SETSIZE) { MC_CHECK(r < 0 || o.selCalls, "claims readiness without asking"); }
			else {
				MC_CHECK(o.selCalls == 1, "asked %d times", o.selCalls);
				MC_CHECK(o.lastSec == msec / 1000 && o.lastUsec == msec % 1000 * 1000, "timeout %ld.%06ld for %d ms", o.lastSec, o.lastUsec, msec);
				MC_CHECK(o.lastSelRead == rdSide, "waits for the wrong direction");
				bool timeout = ch.path().find('1') != std::string::npos && o.eintrLeft == 2;
				if (o.eintrLeft < 2) MC_CHECK(r == -EINTR, "interrupted wait returned %d", r);
				else if (timeout) MC_CHECK(r == 0, "timeout returned %d", r);
				else MC_CHECK(r > 0, "readiness returned %d", r);
			}
			mc::eval();
		}
		o.on = false;
	});
	On on; S inv; MC_CHECK(inv.queryAcceptNoThrow(msec) < 0, "invalid socket is ready");
}
static void rec(mc::Section& s, std::vector<int>& v, int depth, const std::vector<int>& al, int bound)
{
	if ((int)v.size() == depth) { if (s.pick()) { seqRun(v, bound, 100); mc::sample(mc::g().sh->what); } return; }
	for (size_t i = 0; i < al.size(); i++) { v.push_back(al[i]); rec(s, v, depth, al, bound); v.pop_back(); }
}
void mc_main()
{
	os().on = false; g_addr = new cybozu::SocketAddr("127.0.0.1", 80);
	std::vector<int> all;
	for (int op = 0; op < NOP_; op++) { all.push_back(op); if (op != MOVE01 && op != MOVE10) all.push_back(100 + op); }
	std::vector<int> small; // s0 driven, s1 as move partner
	int sm[] = { CONNECT0, CONNECTT, BIND, ACCEPT, ACCEPTA, CLOSE, CLOSED, MOVE01, MOVE10, MOVECTOR, WR };
	for (size_t i = 0; i < sizeof(sm) / sizeof(sm[0]); i++) small.push_back(sm[i]);
	std::vector<int> v;
	{ mc::Section s("sequences1"); rec(s, v, 1, all, 8); }
	{ mc::Section s("sequences2"); rec(s, v, 2, all, mc::tier(4, 6)); }
	{ mc::Section s("sequences3"); rec(s, v, 3, all, mc::tier(1, 3)); }
	{ mc::Section s("sequences4"); rec(s, v, 4, mc::thorough() ? all : small, mc::tier(1, 1)); }
	{ mc::Section s("queryAccept"); int ms[] = { 0, 1, 999, 1000, 1001, 2500, 60000, 2147483647 };
		int fds[] = { 0, 1, 63, 64, 1023, 1024, 1025, 70000 };
		for (int f = 0; f < 8; f++) for (int m = 0; m < 8; m++) for (int r = 0; r < 2; r++) if (s.pick()) { queryAccept(fds[f], ms[m], r); mc::sample(mc::g().sh->what); } }
	{ mc::Section s("soError"); int er[] = { ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, ECONNRESET, EACCES, EINPROGRESS, EALREADY, EISCONN, EAGAIN, EINTR, ENOBUFS, 1, 4095 };
		for (size_t e = 0; e < sizeof(er) / sizeof(er[0]); e++) for (int j = 0; j < 4; j++) if (s.pick()) { std::vector<int> w; w.push_back(CONNECTT); if (j) { int x[] = { CLOSE, CONNECTT, MOVECTOR }; w.push_back(x[j - 1]); w.push_back(CONNECTT); } seqRun(w, 3, 100, er[e]); mc::sample(mc::g().sh->what); } }
	{ mc::Section s("fd0"); std::vector<int> w; for (size_t i = 0; i < all.size(); i++) for (size_t j = 0; j < all.size(); j++) if (s.pick()) { w.clear(); w.push_back(all[i]); w.push_back(all[j]); seqRun(w, 1, 0); } }
}
