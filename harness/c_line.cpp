// C11: LineStreamT over every byte string, every chunking of the reader, every line limit
#include "mc.hpp"
#include <cybozu/line_stream.hpp>
#include <stdexcept>
struct Rd {
	const std::string& s; size_t pos; unsigned cuts; int failAt, calls; bool overrun;
	Rd(const std::string& s_, unsigned c, int f) : s(s_), pos(0), cuts(c), failAt(f), calls(0), overrun(false) { }
	size_t readSome(void *b, size_t n)
	{
		if (calls++ == failAt) throw std::runtime_error("reader");
		if (pos == s.size()) return 0;
		size_t k = 1; while (pos + k < s.size() && !(cuts >> (pos + k - 1) & 1)) k++;
		if (k > n) k = n;
		memcpy(b, s.data() + pos, k); pos += k; return k;
	}
};
struct Line { std::string s; bool tooLong; size_t endPos; bool unterminated; };
static std::vector<Line> spec(const std::string& s, size_t max)
{
	std::vector<Line> r; size_t p = 0;
	while (p < s.size()) {
		size_t e = s.find('\n', p); Line l; l.unterminated = e == std::string::npos;
		if (l.unterminated) { l.s = s.substr(p); l.endPos = s.size(); p = s.size(); }
		else { size_t q = e; if (q > p && s[q - 1] == '\r') q--; l.s = s.substr(p, q - p); p = e + 1; l.endPos = p; }
		l.tooLong = l.s.size() > max; r.push_back(l);
	}
	return r;
}
static void one(const std::string& s, unsigned cuts, size_t max, int failAt, bool ptrForm)
{
	mc::what("text %s cuts=%x maxLineSize=%zu readerFailsAt=%d", mc::show(s).c_str(), cuts, max, failAt);
	std::vector<Line> e = spec(s, max);
	Rd rd(s, cuts, failAt);
	cybozu::LineStreamT<Rd> ls(rd, max);
	size_t i = 0, endPos = 0; int retries = 0;
	for (;;) {
		std::string line = "?"; bool ok = false;
		try {
			if (ptrForm) { const char *b, *en; ok = ls.next(&b, &en); if (ok) line.assign(b, en); } else ok = ls.next(line);
		} catch (std::runtime_error&) { if (retries++ > 0) { mc::fail("the reader failed once only"); break; }
			MC_CHECK(ls.getRemain() == s.substr(endPos, rd.pos - endPos), "getRemain %s after the reader failed, it delivered %s beyond the last line", mc::show(ls.getRemain()).c_str(), mc::show(s.substr(endPos, rd.pos - endPos)).c_str());
			continue; // the reader recovers: nothing may be lost
		} catch (std::exception&) {
			MC_CHECK(i < e.size() && e[i].tooLong, "line %zu refused as too long", i);
			rd.failAt = -1; // a refused line is not skipped: nothing of it or behind it is delivered afterwards
			for (int k = 0; k < 3; k++) { bool got = false; try { got = ls.next(line); } catch (std::exception&) { } MC_CHECK(!got, "%s delivered after line %zu was refused", mc::show(line).c_str(), i); }
			break;
		}
		if (!ok) { MC_CHECK(i == e.size(), "end reported after %zu of %zu lines", i, e.size()); { std::string dirty = "dirty"; ls.getRemain(dirty); MC_CHECK(ls.getRemain().empty() && dirty.empty(), "data remains after the end"); } bool again = ls.next(line); MC_CHECK(!again, "line after the end"); break; }
		MC_CHECK(i < e.size(), "extra line %s", mc::show(line).c_str());
		MC_CHECK(!e[i].tooLong, "line of %zu bytes returned", line.size());
		MC_CHECK(line == e[i].s, "line %zu is %s, expected %s", i, mc::show(line).c_str(), mc::show(e[i].s).c_str());
		endPos = e[i].endPos;
		std::string rem = "dirty"; ls.getRemain(rem); MC_CHECK(rem == ls.getRemain(), "two forms of getRemain differ");
		std::string rest = s.substr(endPos, rd.pos - endPos);
		MC_CHECK(rem == rest, "getRemain %s, the reader delivered %s beyond the last line", mc::show(rem).c_str(), mc::show(rest).c_str());
		i++;
	}
	mc::eval(!s.empty());
}
void mc_main()
{
	const char al[] = { 'a', '\r', '\n' };
	{ mc::Section sec("texts"); const int L = mc::tier(7, 9);
		for (int n = 0; n <= L; n++) { size_t tot = 1; for (int i = 0; i < n; i++) tot *= 3;
			for (size_t c = 0; c < tot; c++) { if (!sec.pick()) continue;
				std::string s; size_t x = c; for (int i = 0; i < n; i++) { s += al[x % 3]; x /= 3; }
				for (unsigned cuts = 0; cuts < (n > 1 ? 1u << (n - 1) : 1u); cuts++) for (size_t max = 0; max <= 4; max++) one(s, cuts, max, -1, c & 1);
				mc::sample(mc::g().sh->what); } } }
	{ mc::Section sec("failingReader"); const int L = mc::tier(5, 7);
		for (int n = 1; n <= L; n++) { size_t tot = 1; for (int i = 0; i < n; i++) tot *= 3;
			for (size_t c = 0; c < tot; c++) { if (!sec.pick()) continue;
				std::string s; size_t x = c; for (int i = 0; i < n; i++) { s += al[x % 3]; x /= 3; }
				for (unsigned cuts = 0; cuts < (1u << (n - 1)); cuts++) for (size_t max = 0; max <= 4; max++) for (int f = 0; f <= n; f++) one(s, cuts, max, f, c & 1); } } }
	{ mc::Section sec("long"); // around the default limit and the internal buffer
		const size_t mx[] = { 1, 2, 3, 7, 16, 2048 };
		for (size_t m = 0; m < 6; m++) for (int d = -2; d <= 2; d++) for (int k = 0; k < 3; k++) for (int crlf = 0; crlf < 3; crlf++) for (int ch = 0; ch < 4; ch++) { if (!sec.pick()) continue;
			size_t max = mx[m]; std::string s;
			for (int i = 0; i < 3; i++) { size_t n = i == k ? max + d : max; if (i == k && d < 0 && max < 2) n = 0; s += std::string(n, 'a' + i); s += crlf == 0 ? "\n" : crlf == 1 ? "\r\n" : i == 2 ? "" : "\r\n"; }
			// chunk sizes: everything, 1 byte, max, max+1
			struct R2 { const std::string& s; size_t p, k; R2(const std::string& s_, size_t k_) : s(s_), p(0), k(k_) { } size_t readSome(void *b, size_t n) { size_t m = s.size() - p; if (m > k) m = k; if (m > n) m = n; memcpy(b, s.data() + p, m); p += m; return m; } };
			size_t cs = ch == 0 ? 1u << 30 : ch == 1 ? 1 : ch == 2 ? max : max + 1;
			mc::what("three lines around maxLineSize=%zu, line %d is %+d, ending=%d chunk=%zu", max, k, d, crlf, cs);
			for (int dflt = 0; dflt <= (max == 2048); dflt++) { R2 r(s, cs); cybozu::LineStreamT<R2> *pls = dflt ? new cybozu::LineStreamT<R2>(r) : new cybozu::LineStreamT<R2>(r, max); cybozu::LineStreamT<R2>& ls = *pls; std::vector<Line> e = spec(s, max); size_t i = 0;
			for (;;) { std::string l; bool ok; try { ok = ls.next(l); } catch (std::exception&) { MC_CHECK(i < e.size() && e[i].tooLong, "line %zu refused", i); break; }
				if (!ok) { MC_CHECK(i == e.size(), "ended after %zu lines", i); break; }
				MC_CHECK(i < e.size() && !e[i].tooLong && l == e[i].s, "line %zu wrong (%zu bytes)", i, l.size()); i++; } delete pls; }
			mc::eval(); } }
}
