// C10: File - contents, position, modes, descriptor lifecycle, durability; on a model kernel with faults and on the real file system
#include "fakeos.hpp"
#include <cybozu/file.hpp>
#include <sys/types.h>
#include <dirent.h>
using namespace fos;
typedef cybozu::File F;
struct Heap { char *p; size_t n; Heap(size_t n_) : p((char*)malloc(n_ ? n_ : 1)), n(n_) { memset(p, '#', n); } ~Heap() { free(p); } std::string str() const { return std::string(p, n); } };
enum Op { OPENR, OPENW, OPENA, OPENT, OPENBAD, OPENR2, CTORA, WR0, WR1, WR3, RD0, RD1, RD3, RS2, RS0, SK0, SK2, SKC1, SKCM1, SKE, SKEM2, SZ, CLOSE_, SYNC, FSYNC, DESTROY, NOPS };
static const char *names[] = { "openR", "openW", "open(app)", "open(out)", "open(bad)", "openR(missing)", "ctor(app)", "write0", "write1", "write3", "read0", "read1", "read3", "readSome2", "readSome0", "seek0", "seek2", "seek+1", "seek-1", "seekEnd", "seekEnd-2", "getSize", "close", "sync", "sync(full)", "destroy" };
static bool g_real;
static std::string realRead(const char *n) { std::string s; FILE *fp = fopen(n, "rb"); if (!fp) return "<none>"; int c; while ((c = fgetc(fp)) != EOF) s += (char)c; fclose(fp); return s; }
static int openFdCount() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }

static void seqRun(const std::vector<int>& ops, int bound, bool initial)
{
	mc::Chooser ch;
	ch.run([&] {
		OS& o = os(); o.base = 100; o.reset(&ch); o.on = !g_real;
		const std::string init = "0123";
		std::string cur = initial ? init : ""; bool exists = initial; // specification state
		if (g_real) { unlink("f"); if (initial) { FILE *fp = fopen("f", "wb"); fwrite(init.data(), 1, init.size(), fp); fclose(fp); } }
		else if (initial) { o.files["f"] = std::make_shared<Inode>(); o.files["f"]->data = o.files["f"]->durable = init; }
		int fd0 = g_real ? openFdCount() : 0;
		int mode = 0; uint64_t pos = 0; // 0 closed 1 read 2 write 3 append
		int wcount = 0; bool faulted = false;
		std::string trace;
		F *f = new F;
		for (size_t k = 0; k < ops.size(); k++) {
			int op = ops[k];
			trace += std::string(" ") + names[op];
			mc::setWhat(mc::fmt("%s file, %s:", initial ? "existing" : "no", g_real ? "real" : "model") + trace + " path=" + ch.path());
			if (!g_real) o.fShort = o.fEintr = o.fErr = o.fClose = o.fSync = o.fOpen = o.fMeta = true;
			uint64_t inj = o.injected, full0 = o.fullSyncs; bool threw = false, want = false; std::string out, exp; uint64_t sz = 0;
			std::string before = cur; std::string data;
			try {
				switch (op) {
				case OPENR: f->openR("f"); break;
				case OPENW: f->openW("f"); break;
				case OPENA: f->open("f", std::ios::out | std::ios::app); break;
				case OPENT: f->open("f", std::ios::out); break;
				case OPENBAD: f->open("f", std::ios::in | std::ios::trunc); break;
				case OPENR2: f->openR("missing"); break;
				case CTORA: { F *g = 0; try { g = new F("f", std::ios::out | std::ios::app); } catch (...) { throw; } delete f; f = g; break; }
				case WR0: case WR1: case WR3: { size_t n = op == WR0 ? 0 : op == WR1 ? 1 : 3; for (size_t i = 0; i < n; i++) data += char('a' + (wcount + i) % 26); Heap h(n); memcpy(h.p, data.data(), n); f->write(h.p, n); wcount += n; break; }
				case RD0: case RD1: case RD3: { Heap h(op == RD0 ? 0 : op == RD1 ? 1 : 3); f->read(h.p, h.n); out = h.str(); break; }
				case RS2: case RS0: { Heap h(op == RS2 ? 2 : 0); sz = f->readSome(h.p, h.n); MC_CHECK(sz <= h.n, "readSome returned %zu", (size_t)sz); out = h.str().substr(0, sz); break; }
				case SK0: f->seek(0, std::ios::beg); break;
				case SK2: f->seek(2, std::ios::beg); break;
				case SKC1: f->seek(1, std::ios::cur); break;
				case SKCM1: f->seek(-1, std::ios::cur); break;
				case SKE: f->seek(0, std::ios::end); break;
				case SKEM2: f->seek(-2, std::ios::end); break;
				case SZ: sz = f->getSize(); break;
				case CLOSE_: f->close(); break;
				case SYNC: f->sync(); break;
				case FSYNC: f->sync(true); break;
				case DESTROY: delete f; f = new F; break;
				}
			} catch (std::exception&) { threw = true; }
			bool anyFault = o.injected > inj;
			o.fShort = o.fEintr = o.fErr = o.fClose = o.fSync = o.fOpen = o.fMeta = false;
			MC_CHECK(o.badness.empty(), "%s", o.badness.c_str());
			// descriptor lifecycle, whatever happened
			size_t nfd = g_real ? size_t(openFdCount() - fd0) : o.fds.size();
			MC_CHECK(nfd == (f->isOpen() ? 1u : 0u), "%zu descriptors open, isOpen()=%d", nfd, f->isOpen());
			if (anyFault) {
				if (op != DESTROY) MC_CHECK(threw, "a failing system call was not reported");
				if (op >= WR0 && op <= WR3) { // what arrived is the old content with a prefix of the data at the position
					std::string now = o.files["f"]->data; bool okp = false;
					for (size_t m = 0; m <= data.size(); m++) { std::string t = before; uint64_t p = mode == 3 ? t.size() : pos; if (m && p + m > t.size()) t.resize(p + m); t.replace(m ? p : 0, m ? m : 0, data.substr(0, m)); if (t == now) okp = true; }
					MC_CHECK(okp, "after a failed write the file holds %s", mc::show(now).c_str());
				}
				if (op == OPENR || op == OPENW || op == OPENA || op == OPENT) MC_CHECK(!(mode == 0 && f->isOpen() && false), "?");
				faulted = true;
				break;
			}
			// specification
			bool canOpen = mode == 0;
			switch (op) {
			case OPENR: want = !canOpen || !exists; if (!want) { mode = 1; pos = 0; } break;
			case OPENW: case OPENT: want = !canOpen; if (!want) { mode = 2; pos = 0; cur.clear(); exists = true; } break;
			case OPENA: want = !canOpen; if (!want) { mode = 3; exists = true; pos = cur.size(); } break;
			case OPENBAD: case OPENR2: want = true; break;
			case CTORA: mode = 3; exists = true; pos = cur.size(); break;
			case WR0: break;
			case WR1: case WR3: want = mode < 2; if (!want) { if (mode == 3) pos = cur.size(); if (pos + data.size() > cur.size()) cur.resize(pos + data.size()); cur.replace(pos, data.size(), data); pos += data.size(); } break;
			case RD0: break;
			case RD1: case RD3: { size_t n = op == RD1 ? 1 : 3; want = mode != 1 || pos + n > cur.size(); if (!want) { exp = cur.substr(pos, n); pos += n; MC_CHECK(out == exp, "read %s, expected %s", mc::show(out).c_str(), mc::show(exp).c_str()); } else if (mode == 1 && threw) goto stop; break; }
			case RS2: want = mode != 1; if (!want) { uint64_t av = pos < cur.size() ? cur.size() - pos : 0; MC_CHECK((sz > 0) == (av > 0) && sz <= av, "readSome returned %zu of %zu available bytes", (size_t)sz, (size_t)av); MC_CHECK(sz == 0 || out == cur.substr(pos, sz), "readSome gave %s", mc::show(out).c_str()); pos += sz; } break;
			case RS0: want = mode != 1; MC_CHECK(sz == 0, "readSome(0) returned %zu", (size_t)sz); break;
			case SK0: want = !mode; if (!want) pos = 0; break;
			case SK2: want = !mode; if (!want) pos = 2; break;
			case SKC1: want = !mode; if (!want) pos += 1; break;
			case SKCM1: want = !mode || pos == 0; if (!want) pos -= 1; break;
			case SKE: want = !mode; if (!want) pos = cur.size(); break;
			case SKEM2: want = !mode || cur.size() < 2; if (!want) pos = cur.size() - 2; break;
			case SZ: want = !mode; if (!want) MC_CHECK(sz == cur.size(), "getSize=%zu of %zu", (size_t)sz, cur.size()); break;
			case CLOSE_: mode = 0; break;
			case SYNC: case FSYNC: if (mode >= 2 && !g_real) MC_CHECK(o.files["f"]->durable == cur, "synced but only %s is durable", mc::show(o.files["f"]->durable).c_str()); if (op == FSYNC && mode >= 2 && !g_real) MC_CHECK(o.fullSyncs > full0, "a full sync left the attributes of the file (times, ownership) unsynced"); break;
			case DESTROY: if (mode >= 2 && !g_real) MC_CHECK(o.files["f"]->durable == cur, "destroyed but only %s is durable", mc::show(o.files["f"]->durable).c_str()); mode = 0; break;
			}
			MC_CHECK(threw == want, "%s: %s", names[op], threw ? "threw" : "did not throw");
			MC_CHECK(f->isOpen() == (mode != 0), "isOpen()=%d", f->isOpen());
			std::string now = g_real ? realRead("f") : (o.files.count("f") ? o.files["f"]->data : "<none>");
			MC_CHECK(now == (exists ? cur : "<none>"), "file holds %s, expected %s", mc::show(now).c_str(), mc::show(cur).c_str());
			mc::eval();
		}
	stop:
		{ bool w = mode >= 2 && f->isOpen();
		o.fClose = o.fSync = !g_real; uint64_t inj = o.injected;
		delete f;
		o.fClose = o.fSync = false;
		MC_CHECK((g_real ? openFdCount() - fd0 : (int)o.fds.size()) == 0, "descriptor leaked by destruction");
		if (w && !g_real && o.injected == inj && !faulted) MC_CHECK(o.files["f"]->durable == cur, "destroyed but only %s is durable", mc::show(o.files["f"]->durable).c_str());
		MC_CHECK(o.badness.empty(), "%s", o.badness.c_str()); }
		mc::eval();
		o.on = false;
	}, bound);
}
static void rec(mc::Section& s, std::vector<int>& v, int depth, const std::vector<int>& al, int bound)
{
	if ((int)v.size() == depth) { for (int i = 0; i < 2; i++) if (s.pick()) { seqRun(v, bound, i); mc::sample(mc::g().sh->what); } return; }
	for (size_t i = 0; i < al.size(); i++) { v.push_back(al[i]); rec(s, v, depth, al, bound); v.pop_back(); }
}
// every combination of open mode flags
static void modes()
{
	using std::ios;
	const ios::openmode fl[] = { ios::in, ios::out, ios::app, ios::trunc, ios::binary, ios::ate };
	for (int m = 0; m < 64; m++) for (int ex = 0; ex < 2; ex++) {
		mc::Chooser ch; OS& o = os(); o.base = 0; o.reset(&ch); o.on = true;
		if (ex) { o.files["f"] = std::make_shared<Inode>(); o.files["f"]->data = "xyz"; }
		ios::openmode md = ios::openmode(0); for (int i = 0; i < 6; i++) if (m >> i & 1) md |= fl[i];
		bool in = m & 1, out = m & 2, app = m & 4, tr = m & 8;
		bool ok = in != out && (in ? !app && !tr : !(app && tr));
		mc::what("open mode in=%d out=%d app=%d trunc=%d bits=%d exists=%d", in, out, app, tr, m, ex);
		bool threw = false;
		try { F f("f", md); if (out) { char c = 'q'; f.write(&c, 1); } else { char c; f.readSome(&c, 1); } } catch (std::exception&) { threw = true; }
		MC_CHECK(threw == !(ok && (out || ex)), "threw=%d", threw);
		std::string now = o.files.count("f") ? o.files["f"]->data : "<none>";
		std::string exp = !ok || in ? (ex ? "xyz" : "<none>") : app ? (ex ? "xyzq" : "q") : "q";
		MC_CHECK(now == exp, "file holds %s, expected %s", now.c_str(), exp.c_str());
		MC_CHECK(o.fds.empty() && o.badness.empty(), "descriptor leaked / misused %s", o.badness.c_str());
		mc::eval(); o.on = false;
	}
}
// objects that cannot seek or sync (pipes, terminals): constructor and destructor must not leak
static void special()
{
	for (int sk = 0; sk < 2; sk++) for (int sy = 0; sy < 2; sy++) for (int app = 0; app < 2; app++) {
		mc::Chooser ch; OS& o = os(); o.base = 3; o.reset(&ch); o.on = true;
		o.files["p"] = std::make_shared<Inode>(); o.files["p"]->seekable = sk; o.files["p"]->syncable = sy;
		mc::what("file that is seekable=%d syncable=%d app=%d", sk, sy, app);
		bool threw = false;
		try { F f("p", app ? std::ios::out | std::ios::app : std::ios::out); char c = 'q'; f.write(&c, 1); } catch (std::exception&) { threw = true; }
		if (sk || !app) MC_CHECK(!threw && o.files["p"]->data == "q", "cannot write to it");
		MC_CHECK(o.fds.empty(), "descriptor leaked");
		mc::eval(); o.on = false;
	}
}
// File on a given handle does not own it
static void handle()
{
	mc::Chooser ch;
	ch.run([&] {
		OS& o = os(); o.base = 0; o.reset(&ch); o.on = true;
		int fd = open("f", O_WRONLY | O_CREAT, 0644);
		o.fShort = o.fEintr = true;
		{ F f(fd); MC_CHECK(f.isOpen(), "not open"); f.write("abc", 3); }
		mc::what("File(handle) path=%s", ch.path().c_str());
		MC_CHECK(o.fds.size() == 1 && o.files["f"]->data == "abc", "handle closed or data lost");
		{ F f(fd); bool threw = false; try { f.openR("f"); } catch (std::exception&) { threw = true; } MC_CHECK(threw, "opened twice"); f.close(); }
		MC_CHECK(o.fds.empty(), "close() did not close");
		{ F f(7); }
		{ int h2 = open("f", O_RDONLY); F f(h2); f.close(); f.open("g", std::ios::out); f.write("de", 2); } // what it opens itself it owns
		MC_CHECK(o.fds.empty() && o.files["g"]->data == "de" && o.files["g"]->durable == "de", "a file opened after a given handle was closed was not closed or synced by the destructor");
		MC_CHECK(o.badness.empty(), "%s", o.badness.c_str());
		mc::eval(); o.on = false;
	});
}
// files beyond 2 and 4 GiB (sparse, on the real file system)
static void bigFile(uint64_t n)
{
	os().on = false; mc::what("a file of %llu bytes", (unsigned long long)n); const char *nm = "big"; int fd = open(nm, O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0 || ftruncate64(fd, n)) { if (fd >= 0) close(fd); unlink(nm); return; }
	if (pwrite64(fd, "xyz", 3, n - 3) != 3) { close(fd); unlink(nm); return; } close(fd);
	try {
		{ F f(nm, std::ios::out | std::ios::app); MC_CHECK(f.getSize() == n, "getSize %llu", (unsigned long long)f.getSize()); f.write("Q", 1); MC_CHECK(f.getSize() == n + 1, "size %llu after an appended byte", (unsigned long long)f.getSize()); }
		{ F f; f.openR(nm); char b[4]; MC_CHECK(f.getSize() == n + 1, "size %llu", (unsigned long long)f.getSize());
			f.seek((int64_t)n - 3, std::ios::beg); f.read(b, 4); MC_CHECK(!memcmp(b, "xyzQ", 4) && f.readSome(b, 4) == 0, "the end reads %.4s", b);
			f.seek(-2, std::ios::end); f.read(b, 2); MC_CHECK(!memcmp(b, "zQ", 2), "from the end");
			f.seek(-(int64_t)n, std::ios::cur); f.seek((int64_t)n - 4, std::ios::cur); f.read(b, 3); MC_CHECK(!memcmp(b, "xyz", 3), "relative to the position"); }
		MC_CHECK(cybozu::GetFileSize(nm) == n + 1, "GetFileSize %llu", (unsigned long long)cybozu::GetFileSize(nm));
	} catch (std::exception& e) { mc::fail("refused: %s", e.what()); }
	unlink(nm); mc::eval();
}
static void hugeIo(uint64_t n, int kind, int bound)
{
	mc::Chooser ch;
	ch.run([&] {
		OS& o = os(); o.base = 9; o.reset(&ch); o.on = true;
		{
			o.files["f"] = std::make_shared<Inode>();
			F f("f", kind == 0 ? std::ios::out : std::ios::in);
			o.huge = true; o.hugeBase = (const char*)0x100000000000ULL; o.hugeMax = n; o.fShort = o.fEintr = o.fErr = true;
			bool ok = false; uint64_t r = 0;
			try { if (kind == 0) f.write(o.hugeBase, n); else if (kind == 1) f.read((void*)o.hugeBase, n); else r = f.readSome((void*)o.hugeBase, n); ok = true; } catch (std::exception&) { }
			mc::what("%s of %llu bytes path=%s", kind == 0 ? "write" : kind == 1 ? "read" : "readSome", (unsigned long long)n, ch.path().c_str());
			o.fErr = false;
			Fd& d = o.fds.begin()->second;
			MC_CHECK(o.badness.empty(), "%s", o.badness.c_str());
			if (ok) {
				MC_CHECK(o.injected == 0, "failure swallowed");
				if (kind == 0) MC_CHECK(d.txLen == n, "%llu bytes written", (unsigned long long)d.txLen);
				if (kind == 1) MC_CHECK(d.rxPos == n, "%llu bytes read", (unsigned long long)d.rxPos);
				if (kind == 2) MC_CHECK(r == d.rxPos && r > 0, "returned %llu, consumed %llu", (unsigned long long)r, (unsigned long long)d.rxPos);
			} else MC_CHECK(o.injected > 0, "failed though no call failed");
			mc::eval();
		}
		o.on = false;
	}, bound);
}
void mc_main()
{
	std::vector<int> all, small, v;
	for (int i = 0; i < NOPS; i++) if (i != CTORA) all.push_back(i);
	int sm[] = { OPENR, OPENW, OPENA, WR1, WR3, RD1, RD3, RS2, SK0, SKC1, SKE, SZ, CLOSE_, SYNC, DESTROY };
	for (size_t i = 0; i < sizeof(sm) / sizeof(sm[0]); i++) small.push_back(sm[i]);
	{ mc::Section s("modes"); if (s.pick()) modes(); }
	{ mc::Section s("special"); if (s.pick()) special(); }
	{ mc::Section s("handle"); if (s.pick()) handle(); }
	{ mc::Section s("ctor"); for (int i = 0; i < NOPS; i++) if (i != CTORA) for (int e = 0; e < 2; e++) if (s.pick()) { v.clear(); v.push_back(CTORA); v.push_back(i); seqRun(v, 6, e); } v.clear(); }
	{ mc::Section s("sequences2"); rec(s, v, 2, all, mc::tier(4, 8)); }
	{ mc::Section s("sequences3"); rec(s, v, 3, all, mc::tier(1, 3)); }
	{ mc::Section s("sequences4"); rec(s, v, 4, mc::thorough() ? all : small, mc::tier(1, 1)); }
	if (mc::thorough()) { mc::Section s("sequences5"); rec(s, v, 5, small, 1); }
	g_real = true;
	{ mc::Section s("real3"); rec(s, v, 3, small, 0); }
	if (mc::thorough()) { mc::Section s("real4"); rec(s, v, 4, small, 0); }
	g_real = false;
	{ mc::Section s("big files"); for (uint64_t n : { (uint64_t)0x7fffffff - 2, (uint64_t)0x80000000ull, (uint64_t)0x80000005ull, (uint64_t)0xfffffffeull, (uint64_t)0x100000000ull, (uint64_t)0x100000007ull, (uint64_t)0x280000001ull }) if (s.pick()) bigFile(n); }
	{ mc::Section s("huge"); const uint64_t t[] = { 0x7ffff000ULL, 0x7fffffffULL, 0x80000000ULL, 0x80000001ULL, 0xffffffffULL, 0x100000000ULL, 0x100000001ULL, 0x200000003ULL };
		for (size_t i = 0; i < 8; i++) for (int k = 0; k < 3; k++) if (s.pick()) hugeIo(t[i], k, mc::tier(2, 4)); }
}
