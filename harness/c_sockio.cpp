// C07: Socket stream I/O against every behaviour of the kernel
#include "fakeos.hpp"
#include <cybozu/socket.hpp>
#include <thread>
using namespace fos;
static cybozu::SocketAddr *g_addr;
static std::string seqBytes(size_t n, int k) { std::string s; for (size_t i = 0; i < n; i++) s += char('A' + (i * 7 + k * 3) % 57); return s; }
struct Heap { char *p; size_t n; Heap(size_t n_) : p((char*)malloc(n_ ? n_ : 1)), n(n_) { memset(p, '#', n); } ~Heap() { free(p); } std::string str() const { return std::string(p, n); } };

static void prep(mc::Chooser& ch, cybozu::Socket& s, const std::string& rx, bool eof)
{
	OS& o = os(); o.base = 0; o.reset(&ch); o.rxTemplate = rx; o.rxTemplateEof = eof; o.on = true;
	s.connect(*g_addr);
	o.calls = 0;
}
static Fd& theFd() { return os().fds.begin()->second; }

static const int g_errs[] = { 0, EAGAIN, ECONNRESET, ETIMEDOUT, EIO, ENOBUFS, EBADF, EINVAL };
static void wr(size_t n, bool boolForm, int bound, int ioErr = 0)
{
	mc::Chooser ch;
	ch.run([&] {
		On on;
		{
			cybozu::Socket s; prep(ch, s, "", true);
			os().fShort = os().fEintr = os().fErr = true; os().ioErr = ioErr;
			std::string data = seqBytes(n, 1);
			Heap h(n); memcpy(h.p, data.data(), n);
			bool ok = false;
			try { if (boolForm) { bool b = !true; s.write(&b, h.p, n); ok = b; } else { s.write(h.p, n); ok = true; } } catch (std::exception&) { }
			mc::what("write n=%zu form=%d errno=%d path=%s", n, boolForm, ioErr, ch.path().c_str());
			const std::string& tx = theFd().tx;
			if (ok) { MC_CHECK(tx == data, "reported success but the peer gets %s instead of %s", mc::show(tx).c_str(), mc::show(data).c_str()); MC_CHECK(os().injected == 0, "a failed write was reported as success"); }
			else { MC_CHECK(os().injected > 0, "failure reported though no call failed"); MC_CHECK(data.compare(0, tx.size(), tx) == 0, "bytes on the wire are not a prefix: %s", mc::show(tx).c_str()); }
			MC_CHECK(os().badness.empty(), "%s", os().badness.c_str());
			mc::eval(n > 0);
		}
	}, bound);
}
static void rd(size_t n, size_t len, int bound, int ioErr = 0, bool some = false)
{
	mc::Chooser ch;
	ch.run([&] {
		On on;
		{
			std::string data = seqBytes(len, 2);
			cybozu::Socket s; prep(ch, s, data, true);
			os().fShort = os().fEintr = os().fErr = true; os().ioErr = ioErr;
			Heap h(n); bool ok = false;
			if (some) {
				size_t r = 0; try { r = s.readSome(h.p, n); ok = true; } catch (std::exception&) { }
				mc::what("readSome n=%zu of stream of %zu errno=%d path=%s", n, len, ioErr, ch.path().c_str());
				MC_CHECK(ok == (os().injected == 0), "failure %s", ok ? "swallowed" : "reported though no call failed");
				if (ok) MC_CHECK(r <= n && r == theFd().rxPos && (r > 0 || n == 0 || len == 0) && h.str().substr(0, r) == data.substr(0, r), "returned %zu", r);
				MC_CHECK(os().badness.empty(), "%s", os().badness.c_str());
				mc::eval(n > 0);
				return;
			}
			try { s.read(h.p, n); ok = true; } catch (std::exception&) { }
			mc::what("read n=%zu of stream of %zu errno=%d path=%s", n, len, ioErr, ch.path().c_str());
			size_t got = theFd().rxPos;
			if (ok) {
				MC_CHECK(os().injected == 0 && len >= n, "success though the stream failed or ended early");
				MC_CHECK(h.str() == data.substr(0, n), "wrong bytes %s", mc::show(h.str()).c_str());
				MC_CHECK(got == n, "consumed %zu bytes for a read of %zu", got, n);
			} else {
				MC_CHECK(os().injected > 0 || len < n, "failure though the data was there");
				MC_CHECK(got <= n, "consumed %zu bytes for a read of %zu", got, n);
			}
			MC_CHECK(os().badness.empty(), "%s", os().badness.c_str());
			mc::eval(n > 0);
		}
	}, bound);
}
// programs of read / readSome calls over one stream: the bytes come out in order, none lost, none twice
static void prog(const std::vector<int>& ops, size_t len, int bound)
{
	mc::Chooser ch;
	ch.run([&] {
		On on;
		{
			std::string data = seqBytes(len, 3), got; bool eof = false, threw = false;
			cybozu::Socket s; prep(ch, s, data, true);
			os().fShort = os().fEintr = true;
			for (size_t i = 0; i < ops.size() && !threw; i++) {
				size_t n = ops[i] / 2; Heap h(n);
				if (ops[i] & 1) {
					size_t r = 0; try { r = s.readSome(h.p, n); } catch (std::exception&) { threw = true; break; }
					MC_CHECK(r <= n, "readSome(%zu) returned %zu", n, r);
					got += h.str().substr(0, r);
					if (r == 0 && n) { eof = true; MC_CHECK(got == data, "end of stream reported after %zu of %zu bytes", got.size(), len); }
				} else {
					try { s.read(h.p, n); got += h.str(); } catch (std::exception&) { threw = true; }
					MC_CHECK(threw == (got.size() + (threw ? n : 0) > len), "read(%zu) after %zu bytes of %zu: threw=%d", n, got.size(), len, threw);
				}
			}
			std::string w = mc::fmt("stream of %zu, path=%s, calls:", len, ch.path().c_str());
			for (size_t i = 0; i < ops.size(); i++) w += mc::fmt(" %s(%d)", ops[i] & 1 ? "readSome" : "read", ops[i] / 2);
			mc::setWhat(w);
			if (threw) MC_CHECK(!(got.size() > len), "?");
			MC_CHECK(data.compare(0, got.size(), got) == 0, "received %s of stream %s", mc::show(got).c_str(), mc::show(data).c_str());
			mc::eval();
		}
	}, bound);
}
static void hugeIo(uint64_t n, int kind, int bound)
{
	mc::Chooser ch;
	ch.run([&] {
		On on;
		{
			cybozu::Socket s; prep(ch, s, "", true);
			OS& o = os(); o.huge = true; o.hugeBase = (const char*)0x100000000000ULL; o.hugeMax = n; o.fShort = o.fEintr = o.fErr = true;
			bool ok = false; uint64_t r = 0;
			try { if (kind == 0) s.write(o.hugeBase, n); else if (kind == 1) s.read((void*)o.hugeBase, n); else r = s.readSome((void*)o.hugeBase, n); ok = true; } catch (std::exception&) { }
			mc::what("%s of %llu bytes path=%s", kind == 0 ? "write" : kind == 1 ? "read" : "readSome", (unsigned long long)n, ch.path().c_str());
			Fd& f = theFd();
			MC_CHECK(o.badness.empty(), "%s", o.badness.c_str());
			if (ok) {
				MC_CHECK(o.injected == 0, "failure swallowed");
				if (kind == 0) MC_CHECK(f.txLen == n, "%llu bytes written", (unsigned long long)f.txLen);
				if (kind == 1) MC_CHECK(f.rxPos == n, "%llu bytes read", (unsigned long long)f.rxPos);
				if (kind == 2) MC_CHECK(r == f.rxPos && r > 0, "returned %llu, consumed %llu", (unsigned long long)r, (unsigned long long)f.rxPos);
			} else MC_CHECK(o.injected > 0, "failed though no call failed");
			mc::eval();
		}
	}, bound);
}
static void waitClose()
{
	for (int len = 0; len <= 2; len++) for (int eof = 0; eof < 2; eof++) {
		mc::Chooser ch;
		ch.run([&] {
			On on;
			cybozu::Socket s; prep(ch, s, seqBytes(len, 1), eof);
			os().fEintr = os().fErr = os().fSock = true;
			bool ok = false; try { s.waitForClose(); ok = true; } catch (std::exception&) { }
			mc::what("waitForClose peer sends %d bytes eof=%d path=%s", len, eof, ch.path().c_str());
			if (ok) { MC_CHECK(os().injected == 0 && len == 0 && eof, "returned though the peer did not just close"); MC_CHECK(theFd().shutWr, "no FIN sent"); }
			else MC_CHECK(os().injected || len || !eof, "threw though the peer closed");
			os().fSock = false;
			mc::eval();
		});
	}
	On on; cybozu::Socket inv; inv.waitForClose(); // nothing to wait for
}
// the same on real loopback connections: binds the model of the kernel to the real one
static void realPair(cybozu::Socket& a, cybozu::Socket& b)
{
	cybozu::Socket srv; srv.bind(0, cybozu::Socket::allowIPv4);
	struct sockaddr_in sa; socklen_t l = sizeof sa; getsockname(os().lastRealBind, (struct sockaddr*)&sa, &l);
	a.connect(cybozu::SocketAddr("127.0.0.1", ntohs(sa.sin_port)));
	srv.accept(b);
}
static void real(size_t n)
{
	os().on = false;
	cybozu::Socket a, b; realPair(a, b);
	a.setSendBufferSize(2048); b.setReceiveBufferSize(2048);
	std::string d = seqBytes(n, 5);
	mc::what("real loopback transfer of %zu bytes", n);
	std::thread t([&] { a.write(d.data(), n); a.close(); });
	Heap h(n); b.read(h.p, n);
	t.join();
	MC_CHECK(h.str() == d, "transferred data differs");
	char c; MC_CHECK(b.readSome(&c, 1) == 0, "extra byte");
	mc::eval();
}
static void deadPeer()
{
	os().on = false;
	cybozu::Socket a, b; realPair(a, b); b.close();
	mc::what("writing to a peer that is gone (real sockets)");
	bool ok = true; char buf[100] = {};
	for (int i = 0; i < 100 && ok; i++) { a.write(&ok, buf, sizeof buf); usleep(1000); }
	MC_CHECK(!ok, "write keeps succeeding");
	mc::eval();
}
void mc_main()
{
	os().on = false; g_addr = new cybozu::SocketAddr("127.0.0.1", 80);
	{ mc::Section s("write"); for (size_t n = 0; n <= (size_t)mc::tier(8, 10); n++) for (int b = 0; b < 2; b++) if (s.pick()) { wr(n, b, 1 << 20); mc::sample(mc::fmt("write of %zu bytes, every split into short writes x <=2 EINTR x an error anywhere", n)); } }
	{ mc::Section s("read"); for (size_t n = 0; n <= (size_t)mc::tier(7, 9); n++) for (size_t l = 0; l <= n + 2; l++) if (s.pick()) { rd(n, l, 1 << 20); mc::sample(mc::fmt("read of %zu bytes from a stream of %zu", n, l)); } }
	{ mc::Section s("errno"); for (size_t e = 0; e < sizeof(g_errs) / sizeof(g_errs[0]); e++) for (size_t n = 0; n <= 4; n++) if (s.pick()) {
		for (int b = 0; b < 2; b++) wr(n, b, 4, g_errs[e]);
		for (size_t l = 0; l <= n + 1; l++) { rd(n, l, 4, g_errs[e]); rd(n, l, 4, g_errs[e], true); } } }
	{ mc::Section s("programs"); int M = mc::tier(8, 10);
		for (size_t l = 0; l <= 5; l++) for (int a = 0; a < M; a++) for (int b = 0; b < M; b++) for (int c = 0; c < M; c++) if (s.pick()) { std::vector<int> v; v.push_back(a); v.push_back(b); v.push_back(c); prog(v, l, mc::tier(3, 5)); } }
	{ mc::Section s("huge"); const uint64_t t[] = { 0x7ffff000ULL, 0x7ffffffeULL, 0x7fffffffULL, 0x80000000ULL, 0x80000001ULL, 0xffffffffULL, 0x100000000ULL, 0x100000001ULL, 0x17fffffffULL, 0x200000003ULL };
		for (size_t i = 0; i < sizeof(t) / sizeof(t[0]); i++) for (int k = 0; k < 3; k++) if (s.pick()) { hugeIo(t[i], k, mc::tier(2, 4)); mc::sample(mc::fmt("transfer of %llu bytes", (unsigned long long)t[i])); } }
	{ mc::Section s("waitForClose"); if (s.pick()) waitClose(); }
	{ mc::Section s("loopback"); const size_t t[] = { 1, 2, 1000, 4096, 20000, 65537 }; for (size_t i = 0; i < 6; i++) if (s.pick()) real(t[i]); if (s.pick()) deadPeer(); }
}
