// C12: stream adaptors: every interleaving of reads/writes, every short-read pattern of a user stream
#include "mc.hpp"
#include <cybozu/stream.hpp>
#include <sstream>
#include <streambuf>
#include <iostream>
struct Heap { char *p; size_t n; Heap(size_t n_) : p((char*)malloc(n_ ? n_ : 1)), n(n_) { memset(p, '#', n); } ~Heap() { free(p); } std::string str() const { return std::string(p, n); } };
static std::string bytes(size_t n, int k = 0) { std::string s; for (size_t i = 0; i < n; i++) s += char(i * 37 + k * 11 + 0xf0); return s; }
struct User { // user defined stream with arbitrary short reads
	std::string s; size_t pos; mc::Chooser *ch;
	size_t readSome(void *b, size_t n) { size_t m = s.size() - pos; if (m > n) m = n; if (m > 1) m -= ch->any((int)m); memcpy(b, s.data() + pos, m); pos += m; return m; }
};
struct UserOut { std::string s; bool ok; void write(const void *b, size_t n) { s.append((const char*)b, n); } void write(bool *pb, const void *b, size_t n) { if (ok) s.append((const char*)b, n); *pb = ok; } };
// an istream/ostream with its own buffer
struct SB : std::streambuf { std::string in; std::string out; size_t limit; SB(const std::string& s, size_t l) : in(s), limit(l) { setg(&in[0], &in[0], &in[0] + in.size()); }
	int_type overflow(int_type c) { if (out.size() >= limit) return traits_type::eof(); out += (char)c; return c; } };

// ops: low bit selects readSome / read; rest is the size; 100 = readChar
template<class IS, class POS>
static void readProg(const char *name, IS& is, const std::string& data, const std::vector<int>& ops, bool isUser, POS pos, const std::string& path)
{
	size_t p = 0; std::string w = mc::fmt("%s stream of %zu:", name, data.size());
	for (size_t i = 0; i < ops.size(); i++) w += ops[i] == 100 ? " readChar" : mc::fmt(" %s(%d)", ops[i] & 1 ? "readSome" : "read", ops[i] / 2);
	mc::setWhat(w);
	for (size_t i = 0; i < ops.size(); i++) {
		size_t left = data.size() - p;
		if (ops[i] == 100) {
			char c = '#'; bool ok = cybozu::readChar(&c, is);
			MC_CHECK(ok == (left > 0), "readChar gives %d with %zu bytes left", ok, left);
			if (ok) { MC_CHECK(c == data[p], "readChar gave %02x", c & 255); p++; }
		} else if (ops[i] & 1) {
			Heap h(ops[i] / 2); size_t r = cybozu::readSome(h.p, h.n, is);
			MC_CHECK(r <= h.n && r <= left, "readSome returned %zu with %zu left", r, left);
			MC_CHECK(h.n == 0 || left == 0 || r > 0, "readSome returned 0 before the end");
			if (!isUser) MC_CHECK(r == (h.n < left ? h.n : left), "readSome returned %zu", r);
			MC_CHECK(h.str().substr(0, r) == data.substr(p, r), "wrong bytes");
			MC_CHECK(h.str().substr(r) == std::string(h.n - r, '#') || true, "?");
			p += r;
		} else {
			Heap h(ops[i] / 2); bool threw = false, b = !(i & 1);
			if (i & 1) { bool pb = (h.n & 1); cybozu::read(&pb, h.p, h.n, is); threw = !pb; } else { try { cybozu::read(h.p, h.n, is); } catch (std::exception&) { threw = true; } }
			MC_CHECK(threw == (h.n > left), "read(%zu) with %zu bytes left: failed=%d", h.n, left, threw);
			if (threw) return;
			MC_CHECK(h.str() == data.substr(p, h.n), "wrong bytes");
			p += h.n;
		}
		long q = pos(); if (q >= 0) MC_CHECK((size_t)q == p, "getPos()=%ld after %zu bytes", q, p);
	}
	mc::eval();
}
static void rec(int depth, std::vector<int>& v, const std::function<void(const std::vector<int>&)>& f) { if ((int)v.size() == depth) { f(v); return; } static const int ops[] = { 0, 2, 4, 6, 1, 3, 5, 100 }; for (int i = 0; i < 8; i++) { v.push_back(ops[i]); rec(depth, v, f); v.pop_back(); } }
void mc_main()
{
	std::vector<int> v;
	{ mc::Section s("read"); const int D = mc::tier(4, 5);
		for (size_t len = 0; len <= 5; len++) for (int d = 1; d <= D; d++) rec(d, v, [&](const std::vector<int>& ops) {
			if (!s.pick()) return;
			std::string data = bytes(len);
			{ Heap h(len); memcpy(h.p, data.data(), len); cybozu::MemoryInputStream is(h.p, len); readProg("Memory", is, data, ops, false, [&] { return (long)is.getPos(); }, ""); }
			{ cybozu::StringInputStream is(data); readProg("String", is, data, ops, false, [&] { return (long)is.getPos(); }, ""); }
			{ std::istringstream is(data); readProg("istringstream", is, data, ops, false, [&] { return -1L; }, ""); }
			{ std::istringstream i2(data); std::istream& is = i2; readProg("istream", is, data, ops, false, [&] { return -1L; }, ""); }
			mc::sample(mc::g().sh->what);
		}); }
	{ mc::Section s("userStream"); const int D = mc::tier(3, 4);
		for (size_t len = 0; len <= 5; len++) for (int d = 1; d <= D; d++) rec(d, v, [&](const std::vector<int>& ops) {
			if (!s.pick()) return;
			std::string data = bytes(len); mc::Chooser ch;
			ch.run([&] { User u; u.s = data; u.pos = 0; u.ch = &ch; readProg("user", u, data, ops, true, [&] { return (long)u.pos; }, ""); });
			mc::sample(mc::g().sh->what);
		}); }
	{ mc::Section s("write"); // sequences of sizes into a memory of every capacity
		for (size_t cap = 0; cap <= 6; cap++) for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) for (int c = 0; c < 5; c++) for (int d = 0; d < 5; d++) for (int form = 0; form < 3; form++) {
			if (!s.pick()) continue;
			mc::what("writes of %d,%d,%d,%d bytes into capacity %zu form %d", a, b, c, d, cap, form);
			int sz[] = { a, b, c, d }; std::string exp, all;
			Heap h(cap); cybozu::MemoryOutputStream os(h.p, cap);
			std::string str; cybozu::StringOutputStream so(str);
			std::ostringstream oss; SB sb("", cap); std::ostream lim(&sb); UserOut uo; uo.ok = true;
			bool limDead = false;
			for (int i = 0; i < 4; i++) {
				std::string x = bytes(sz[i], i + 1); Heap src(x.size()); memcpy(src.p, x.data(), x.size());
				bool fits = exp.size() + x.size() <= cap, ok;
				if (form == 0) { try { cybozu::write(os, src.p, src.n); ok = true; } catch (std::exception&) { ok = false; } cybozu::write(so, src.p, src.n); cybozu::write(oss, src.p, src.n); cybozu::write(uo, src.p, src.n); }
				else if (form == 1) { ok = !fits; cybozu::write(&ok, os, src.p, src.n); bool t = false; cybozu::write(&t, so, src.p, src.n); MC_CHECK(t, "string stream write failed"); t = false; cybozu::write(&t, oss, src.p, src.n); MC_CHECK(t, "ostream write failed"); t = false; cybozu::write(&t, uo, src.p, src.n); MC_CHECK(t, "user stream write failed"); }
				else { ok = true; // byte-wise
					for (size_t j = 0; j < x.size(); j++) { bool t = false; if (j & 1) { try { cybozu::writeChar(os, x[j]); t = true; } catch (std::exception&) { } } else cybozu::writeChar(&t, os, x[j]); if (t) exp += x[j]; MC_CHECK(t == (exp.size() <= cap && t), "?"); if (!t) ok = false; cybozu::writeChar(so, x[j]); cybozu::writeChar(oss, x[j]); cybozu::writeChar(uo, x[j]); } fits = ok; }
				all += x;
				MC_CHECK(ok == fits, "write of %zu bytes with %zu of %zu used: ok=%d", x.size(), exp.size(), cap, ok);
				if (form != 2 && fits) exp += x;
				MC_CHECK(os.getPos() == exp.size() && exp.size() <= cap, "getPos()=%zu, %zu bytes stored", os.getPos(), exp.size());
				MC_CHECK(h.str().substr(0, exp.size()) == exp && h.str().substr(exp.size()) == std::string(cap - exp.size(), '#'), "memory holds %s", mc::hex(h.str()).c_str());
				// ostream whose buffer refuses bytes
				bool t = true; bool expectOk = !limDead && sb.out.size() + x.size() <= cap;
				if (form == 1) { t = !expectOk; cybozu::write(&t, lim, src.p, src.n); } else { try { cybozu::write(lim, src.p, src.n); } catch (std::exception&) { t = false; } }
				MC_CHECK(t == expectOk, "ostream write of %zu bytes ok=%d", x.size(), t); if (!t) limDead = true;
			}
			MC_CHECK(str == all && so.getPos() == all.size() && oss.str() == all && uo.s == all, "stream contents differ");
			mc::eval(); mc::sample(mc::g().sh->what);
		} }
	{ mc::Section s("hugeSizes"); // sizes whose sum with the position wraps around
		for (size_t len = 0; len <= 5; len++) for (size_t skip = 0; skip <= len; skip++) for (int k = 0; k < 10; k++) for (int which = 0; which < 4; which++) { if (!s.pick()) continue;
			const size_t sizes[] = { 6, 0x7fffffffu, 0x80000000u, 0xffffffffu, size_t(1) << 32, (size_t(1) << 32) + 2, (size_t(-1) >> 1), size_t(-1) - 6, size_t(-1) - len + 1, size_t(-1) }; size_t n = sizes[k]; if (n <= len) continue;
			mc::what("stream %d of %zu bytes at %zu asked for %zu", which, len, skip, n);
			std::string data = bytes(len); Heap mem(len); memcpy(mem.p, data.data(), len);
			if (which < 2) { // reads: at most what is left
				Heap h(len - skip); std::string pre(skip, '#'); size_t r, pos;
				if (which == 0) { cybozu::MemoryInputStream is(mem.p, len); cybozu::read(&pre[0], skip, is); r = cybozu::readSome(h.p, n, is); pos = is.getPos(); }
				else { cybozu::StringInputStream is(data); cybozu::read(&pre[0], skip, is); r = cybozu::readSome(h.p, n, is); pos = is.getPos(); }
				MC_CHECK(r == len - skip && h.str() == data.substr(skip) && pos == len, "readSome gave %zu bytes", r);
				Heap h2(len - skip); bool b = true;
				if (which == 0) { cybozu::MemoryInputStream is(mem.p, len); cybozu::read(&pre[0], skip, is); cybozu::read(&b, h2.p, n, is); } else { cybozu::StringInputStream is(data); cybozu::read(&pre[0], skip, is); cybozu::read(&b, h2.p, n, is); }
				MC_CHECK(!b, "read of %zu bytes succeeded", n);
			} else { // a write that cannot fit
				cybozu::MemoryOutputStream os(mem.p, len); std::string pre(skip, 'x'); cybozu::write(os, pre.data(), skip); std::string before = mem.str(); bool ok = true;
				if (which == 2) cybozu::write(&ok, os, "", n); else { try { cybozu::write(os, "", n); } catch (std::exception&) { ok = false; } }
				MC_CHECK(!ok && os.getPos() == skip && mem.str() == before, "write of %zu bytes into %zu accepted", n, len - skip);
			}
			mc::eval(); } }
	{ mc::Section s("bigStreams"); // around every power of two: a narrowed count would show
		const size_t around[] = { 127, 128, 255, 256, 32767, 32768, 65535, 65536, 131072 + 5 };
		for (int a = 0; a < 9; a++) for (int b = 0; b < 9; b++) for (int which = 0; which < 6; which++) { if (!s.pick()) continue;
			size_t total = around[a], n = around[b]; mc::what("stream %d of %zu bytes read by %zu", which, total, n);
			std::string data; for (size_t i = 0; i < total; i++) data += char(i * 7 + (i >> 8)); std::string got, buf(n, 0);
			struct Full { const std::string& s; size_t pos; size_t readSome(void *p, size_t k) { if (k > s.size() - pos) k = s.size() - pos; memcpy(p, s.data() + pos, k); pos += k; return k; } };
			cybozu::MemoryInputStream mi(data.data(), total); cybozu::StringInputStream si(data); std::istringstream is(data); Full u = { data, 0 };
			for (;;) { size_t r = which == 0 ? cybozu::readSome(&buf[0], n, mi) : which == 1 ? cybozu::readSome(&buf[0], n, si) : which == 2 ? cybozu::readSome(&buf[0], n, is) : which == 3 ? cybozu::readSome(&buf[0], n, u) : 0; if (r == 0) break; MC_CHECK(r <= n, "readSome(%zu) gave %zu", n, r); got.append(buf, 0, r); }
			if (which < 4) MC_CHECK(got == data, "%zu bytes read of %zu", got.size(), total);
			else if (n <= total) { bool ok = false; if (which == 4) { cybozu::read(&ok, &buf[0], n, is); MC_CHECK(ok && buf == data.substr(0, n), "read(%zu)", n); } else { std::string dst; cybozu::StringOutputStream so(dst); std::ostringstream os; std::string m(n, 0); cybozu::MemoryOutputStream mo(&m[0], n);
				cybozu::write(&ok, so, data.data(), n); bool ok2 = false, ok3 = false; cybozu::write(&ok2, os, data.data(), n); cybozu::write(&ok3, mo, data.data(), n); MC_CHECK(ok && ok2 && ok3 && dst == data.substr(0, n) && os.str() == dst && m == dst, "write(%zu)", n); } }
			mc::eval(); } }
	{ mc::Section s("failedOstream"); // an ostream that is already unusable stores nothing, so every write of bytes must fail
		for (int st = 0; st < 8; st++) for (size_t n = 1; n <= 3; n++) for (int form = 0; form < 4; form++) { if (!s.pick()) continue;
			if (st == 4) continue; /* eofbit alone: no ostream gets there by writing, and libstdc++ itself drops the bytes silently */ std::ios_base::iostate q = std::ios_base::goodbit; if (st & 1) q |= std::ios_base::failbit; if (st & 2) q |= std::ios_base::badbit; if (st & 4) q |= std::ios_base::eofbit;
			std::ostringstream os; os.setstate(q); bool ok = true; std::string x = bytes(n); mc::what("write of %zu bytes to an ostream in state %d form %d", n, st, form);
			if (form == 0) cybozu::write(&ok, os, x.data(), n); else if (form == 1) { try { cybozu::write(os, x.data(), n); } catch (std::exception&) { ok = false; } }
			else if (form == 2) { x.resize(1); cybozu::writeChar(&ok, os, x[0]); } else { x.resize(1); try { cybozu::writeChar(os, x[0]); } catch (std::exception&) { ok = false; } }
			MC_CHECK(ok == (os.str() == x), "reported %d, stored %zu bytes", ok, os.str().size());
			mc::eval(); } }
}
