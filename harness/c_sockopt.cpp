// C09: socket options, timeouts and addresses
#include "fakeos.hpp"
#include <cybozu/socket.hpp>
using namespace fos;
static cybozu::SocketAddr *g_addr;
typedef cybozu::Socket S;
static Fd& theFd() { return os().fds.begin()->second; }
static void timeouts(int lo, int hi)
{
	mc::Chooser ch; OS& o = os(); o.base = 0; o.reset(&ch); o.on = true;
	{
		S s; s.connect(*g_addr);
		for (int64_t m = lo; m <= hi; m++) {
			mc::what("setSendTimeout/setReceiveTimeout(%d)", (int)m);
			s.setSendTimeout((int)m);
			s.setReceiveTimeout((int)(m ^ 1));
			MC_CHECK(s.getSendTimeout() == (int)m, "getSendTimeout = %d", s.getSendTimeout());
			MC_CHECK(s.getReceiveTimeout() == (int)(m ^ 1), "getReceiveTimeout = %d", s.getReceiveTimeout());
			const Str& b = theFd().opt[std::make_pair(SOL_SOCKET, SO_SNDTIMEO)];
			struct timeval t; memcpy(&t, b.data(), sizeof t);
			MC_CHECK(t.tv_sec == m / 1000 && t.tv_usec == m % 1000 * 1000, "system was told %ld.%06ld", (long)t.tv_sec, (long)t.tv_usec);
			mc::eval();
		}
	}
	o.on = false;
}
static void linger(int onoff)
{
	mc::Chooser ch; OS& o = os(); o.base = 0; o.reset(&ch); o.on = true;
	{
		S s; s.connect(*g_addr);
		for (int l = 0; l < 65536; l++) {
			mc::what("setLinger(%d, %d)", onoff, l);
			s.setLinger(onoff, l);
			const Str& b = theFd().opt[std::make_pair(SOL_SOCKET, SO_LINGER)];
			struct linger t; memcpy(&t, b.data(), sizeof t);
			MC_CHECK(t.l_onoff == onoff && t.l_linger == l, "system was told l_onoff=%d l_linger=%d", t.l_onoff, t.l_linger);
			mc::eval();
		}
	}
	o.on = false;
}
static void options(int fault)
{
	mc::Chooser ch;
	ch.run([&] {
		OS& o = os(); o.base = 0; o.reset(&ch); o.on = true;
		{
			S s; s.connect(*g_addr);
			o.fSock = fault;
			int vals[] = { 0, 1, 255, 256, 65535, 65536, 0x7fffffff, 0x12345678 };
			for (int i = 0; i < 8; i++) {
				bool threw = false; uint64_t inj = o.injected; int got = -7, got2 = -7;
				try { s.setReceiveBufferSize(vals[i]); s.setSendBufferSize(vals[i] ^ 3); got = s.getReceiveBufferSize(); got2 = s.getSendBufferSize(); } catch (std::exception&) { threw = true; }
				mc::what("buffer size %d path=%s", vals[i], ch.path().c_str());
				MC_CHECK(threw == (o.injected > inj), "threw=%d", threw);
				if (!threw) MC_CHECK(got == vals[i] && got2 == (vals[i] ^ 3), "got %d %d", got, got2);
				mc::eval();
			}
			o.fSock = false;
		}
		o.on = false;
	}, 2);
}
static void bindModes()
{
	for (int mode = 1; mode <= 3; mode++) for (int port = 0; port < 65536; port += (port < 300 || port > 65000) ? 1 : 97) {
		mc::Chooser ch; OS& o = os(); o.base = 0; o.reset(&ch); o.on = true;
		{
			S s; s.bind(port, mode);
			mc::what("bind port=%d mode=%d", port, mode);
			Fd& f = theFd();
			if (mode & S::allowIPv6) {
				struct sockaddr_in6 a; MC_CHECK(f.addr.size() == sizeof a, "address size %zu", f.addr.size()); memcpy(&a, f.addr.data(), sizeof a);
				struct in6_addr any = IN6ADDR_ANY_INIT;
				MC_CHECK(a.sin6_family == AF_INET6 && ntohs(a.sin6_port) == port && memcmp(&a.sin6_addr, &any, sizeof any) == 0, "bound to another address");
				Str v = f.opt[std::make_pair((int)IPPROTO_IPV6, (int)IPV6_V6ONLY)]; int only = -1; if (v.size() == 4) memcpy(&only, v.data(), 4);
				MC_CHECK(only == ((mode & S::allowIPv4) ? 0 : 1), "IPV6_V6ONLY=%d", only);
			} else {
				struct sockaddr_in a; MC_CHECK(f.addr.size() == sizeof a, "address size %zu", f.addr.size()); memcpy(&a, f.addr.data(), sizeof a);
				MC_CHECK(a.sin_family == AF_INET && ntohs(a.sin_port) == port && a.sin_addr.s_addr == 0, "bound to another address");
			}
			Str r = f.opt[std::make_pair((int)SOL_SOCKET, (int)SO_REUSEADDR)]; int re = 0; if (r.size() == 4) memcpy(&re, r.data(), 4);
			MC_CHECK(re == 1, "SO_REUSEADDR not set before bind");
			mc::eval();
		}
		o.on = false;
	}
}
static long g_ai;
extern "C" {
int __real_getaddrinfo(const char*, const char*, const struct addrinfo*, struct addrinfo**); void __real_freeaddrinfo(struct addrinfo*);
int __wrap_getaddrinfo(const char *a, const char *b, const struct addrinfo *h, struct addrinfo **r) { int x = __real_getaddrinfo(a, b, h, r); if (x == 0) g_ai++; return x; }
void __wrap_freeaddrinfo(struct addrinfo *r) { if (r) g_ai--; __real_freeaddrinfo(r); }
}
static void addresses()
{
	os().on = false;
	const char *v4[] = { "0.0.0.0", "127.0.0.1", "127.0.0.2", "1.0.0.127", "255.255.255.255", "10.20.30.40" };
	const char *v6[] = { "::", "::1", "::ffff:0:1", "2001:db8::1", "::fffe:7f00:1", "1::ffff:7f00:1", "::7f00:1", "::ffff:7f00:1", "::ffff:a14:1e28", "fe80::ff" };
	struct X { std::string text; bool f6; int port; };
	std::vector<X> xs;
	for (int f = 0; f < 2; f++) for (size_t i = 0; i < 6; i++) { X x = { v4[i], f == 1, int(80 + i) }; xs.push_back(x); }
	for (size_t i = 0; i < 10; i++) { X x = { v6[i], true, int(65535 - i) }; xs.push_back(x); }
	std::vector<cybozu::SocketAddr> as; std::vector<std::string> canon; std::vector<int> fam;
	for (size_t i = 0; i < xs.size(); i++) {
		mc::what("SocketAddr(%s, %d, %d)", xs[i].text.c_str(), xs[i].port, xs[i].f6);
		cybozu::SocketAddr a(xs[i].text, xs[i].port, xs[i].f6);
		MC_CHECK(g_ai == 0, "%ld resolver results leaked", g_ai);
		MC_CHECK(a.getPort() == xs[i].port, "port %d", a.getPort());
		MC_CHECK(a.getFamily() == (xs[i].f6 ? AF_INET6 : AF_INET), "family %d", a.getFamily());
		unsigned char raw[16] = { 0 };
		if (strchr(xs[i].text.c_str(), ':')) inet_pton(AF_INET6, xs[i].text.c_str(), raw);
		else { raw[10] = raw[11] = 0xff; inet_pton(AF_INET, xs[i].text.c_str(), raw + 12); }
		char buf[100]; std::string exp;
		if (xs[i].f6) { inet_ntop(AF_INET6, raw, buf, sizeof buf); exp = std::string("[") + buf + "]:" + std::to_string(xs[i].port); }
		else { inet_ntop(AF_INET, raw + 12, buf, sizeof buf); exp = std::string(buf) + ":" + std::to_string(xs[i].port); }
		MC_CHECK(a.toStr() == exp, "toStr=%s", a.toStr().c_str());
		as.push_back(a); canon.push_back(std::string((char*)raw, 16));
		mc::eval();
	}
	for (size_t i = 0; i < as.size(); i++) for (size_t j = 0; j < as.size(); j++) {
		mc::what("hasSameAddr %s %s", as[i].toStr().c_str(), as[j].toStr().c_str());
		MC_CHECK(as[i].hasSameAddr(as[j]) == (canon[i] == canon[j]), "gives %d", as[i].hasSameAddr(as[j]));
		mc::eval();
	}
	for (int p = 0; p < 65536; p += mc::tier(7, 1)) { cybozu::SocketAddr a("127.0.0.1", p); mc::what("port %d", p); MC_CHECK(a.getPort() == p && a.toStr() == "127.0.0.1:" + std::to_string(p), "%s", a.toStr().c_str()); mc::eval(); }
	const char *badn[] = { "", "256.1.1.1", "no such host", "1:2" };
	for (int i = 0; i < 4; i++) for (int f = 0; f < 2; f++) { mc::what("SocketAddr(%s) force6=%d", badn[i], f); bool threw = false; try { cybozu::SocketAddr a(badn[i], 1, f); } catch (std::exception&) { threw = true; } MC_CHECK(threw || i == 0, "accepted"); MC_CHECK(g_ai == 0, "%ld resolver results leaked", g_ai); mc::eval(); }
	// a re-used address object holds nothing of its former contents
	for (size_t i = 0; i < as.size(); i++) for (size_t j = 0; j < as.size(); j++) { cybozu::SocketAddr a = as[i]; mc::what("%s set to %s", as[i].toStr().c_str(), as[j].toStr().c_str()); a.set(xs[j].text, xs[j].port, xs[j].f6); MC_CHECK(a.toStr() == as[j].toStr() && a.getFamily() == as[j].getFamily() && a.getSize() == as[j].getSize() && memcmp(a.get(), as[j].get(), a.getSize()) == 0 && a.hasSameAddr(as[j]), "is %s", a.toStr().c_str()); mc::eval(); }
	for (size_t i = 0; i < as.size(); i++) { cybozu::SocketAddr a = as[i]; mc::what("%s after a failed set", as[i].toStr().c_str()); bool threw = false; try { a.set("no such host", 1); } catch (std::exception&) { threw = true; } bool t2 = false; try { a.getPort(); } catch (std::exception&) { t2 = true; } MC_CHECK(threw && t2 && a.getSize() == 0 && !a.hasSameAddr(as[i]) && !as[i].hasSameAddr(a), "still set"); mc::eval(); }
	// the peer of an accepted connection
	for (size_t i = 0; i < as.size(); i++) for (size_t old = 0; old <= as.size(); old++) {
		mc::Chooser ch; OS& o = os(); o.base = 0; o.reset(&ch); o.on = true;
		mc::what("accept from %s", xs[i].text.c_str()); o.acceptPeer.assign((const char*)as[i].get(), as[i].getSize());
		{ S srv, cl; srv.bind(80); cybozu::SocketAddr a; if (old < as.size()) a = as[old]; srv.accept(cl, &a);
			MC_CHECK(cl.isValid() && a.getFamily() == as[i].getFamily() && a.getSize() == as[i].getSize() && a.getPort() == xs[i].port && memcmp(a.get(), as[i].get(), a.getSize()) == 0, "peer is family %d port %d", a.getFamily(), a.getPort());
			o.on = false; MC_CHECK(a.toStr() == as[i].toStr() && a.hasSameAddr(as[i]), "peer is %s", a.toStr().c_str()); o.on = true; }
		o.acceptPeer.clear(); o.on = false; mc::eval();
	}
	cybozu::SocketAddr none; MC_CHECK(!none.hasSameAddr(none) && !none.hasSameAddr(as[0]) && !as[0].hasSameAddr(none), "unset address equals something");
}
void mc_main()
{
	os().on = false; g_addr = new cybozu::SocketAddr("127.0.0.1", 80); g_ai = 0;
	{ mc::Section s("timeouts"); const int M = mc::tier(50000, 1000000); for (int b = 0; b < 8; b++) if (s.pick()) { timeouts(b * (M / 8), (b + 1) * (M / 8) - 1); mc::sample(mc::g().sh->what); }
		if (s.pick()) timeouts(0x7fffffff - 1000, 0x7fffffff); if (s.pick()) timeouts(86400000 - 500, 86400000 + 500); }
	{ mc::Section s("linger"); int t[] = { 0, 1, 65535 }; for (int i = 0; i < 3; i++) if (s.pick()) { linger(t[i]); mc::sample(mc::g().sh->what); } }
	{ mc::Section s("options"); for (int i = 0; i < 2; i++) if (s.pick()) options(i); }
	{ mc::Section s("bind"); if (s.pick()) { bindModes(); mc::sample(mc::g().sh->what); } }
	{ mc::Section s("addresses"); if (s.pick()) { addresses(); mc::sample(mc::g().sh->what); } }
}
