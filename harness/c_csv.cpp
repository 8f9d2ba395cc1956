// CSV: reader against a reference grammar, writer/reader round trip
#include "mc.hpp"
#include <cybozu/csv.hpp>
#include <sstream>
#include <algorithm>
typedef std::vector<std::string> Row; typedef std::vector<Row> Rows;
struct In { // delivers pieces
	const std::string& s; size_t pos, piece; In(const std::string& s, size_t piece) : s(s), pos(0), piece(piece) {}
	size_t readSome(void *p, size_t n) { size_t r = std::min(std::min(n, piece), s.size() - pos); memcpy(p, s.data() + pos, r); pos += r; return r; }
};
struct Out { std::string s; void write(const void *p, size_t n) { s.append((const char*)p, n); } };
static std::string showRows(const Rows& r) { std::string s; for (size_t i = 0; i < r.size(); i++) { s += "["; for (size_t j = 0; j < r[i].size(); j++) { if (j) s += "|"; s += mc::show(r[i][j]); } s += "]"; } return s; }
/* reference: CR removed everywhere; rows end with LF (the last may lack it); a field is quoted if it starts with a quote ("" inside means one quote);
   an unquoted empty field at the end of a row is not counted. ret: rows before the end or before the error */
static bool ref(const std::string& in, char sep, Rows& rows)
{
	std::string t; for (size_t i = 0; i < in.size(); i++) if (in[i] != '\r') t += in[i];
	size_t p = 0;
	while (p < t.size()) {
		Row r;
		for (;;) { // one field
			if (p < t.size() && t[p] == '"') {
				std::string f; p++;
				for (;;) {
					if (p >= t.size()) return false;
					if (t[p] != '"') { f += t[p++]; continue; }
					p++;
					if (p < t.size() && t[p] == '"') { f += '"'; p++; continue; }
					break;
				}
				r.push_back(f);
				if (p >= t.size()) break;
				if (t[p] == sep) { p++; if (p >= t.size() || t[p] == '\n') { break; } continue; }
				if (t[p] == '\n') break;
				return false;
			}
			size_t e = p; while (e < t.size() && t[e] != sep && t[e] != '\n') e++;
			bool more = e < t.size() && t[e] == sep;
			if (more || e > p) r.push_back(t.substr(p, e - p));
			p = e;
			if (!more) break;
			p++;
		}
		if (p < t.size()) p++; // LF
		rows.push_back(r);
	}
	return true;
}
template<class Rd> static bool readAll(Rd& rd, Rows& rows)
{
	try {
		for (int i = 0; i < 100000; i++) { Row r(1, "stale"); if (!rd.read(r)) { Row q; return !rd.read(q) && !rd.read(q); } rows.push_back(r); }
	} catch (std::exception&) { return false; }
	return false;
}
static void judge(const std::string& t, char sep, size_t piece)
{
	Rows a, b; In is(t, piece); cybozu::CsvReaderT<In> rd(is, sep);
	bool ok = readAll(rd, a), eok = ref(t, sep, b);
	MC_CHECK(ok == eok && a == b, "reading gives %s %s, expected %s %s", showRows(a).c_str(), ok ? "end" : "error", showRows(b).c_str(), eok ? "end" : "error");
	mc::eval(!t.empty());
}
static void round(const Rows& rows, char sep, size_t piece)
{
	Out os; { cybozu::CsvWriterT<Out> w(os, sep); for (size_t i = 0; i < rows.size(); i++) w.write(rows[i].begin(), rows[i].end()); }
	// the text: every field quoted, quotes doubled, CRLF
	std::string e; for (size_t i = 0; i < rows.size(); i++) { for (size_t j = 0; j < rows[i].size(); j++) { if (j) e += sep; e += '"'; for (size_t k = 0; k < rows[i][j].size(); k++) { if (rows[i][j][k] == '"') e += '"'; e += rows[i][j][k]; } e += '"'; } e += "\r\n"; }
	MC_CHECK(os.s == e, "written as %s", mc::show(os.s).c_str());
	for (int v = 0; v < 2; v++) { std::string t = os.s; if (v) { if (rows.empty() || rows.back().empty()) continue; t.resize(t.size() - 2); }
		Rows a; In is(t, piece); cybozu::CsvReaderT<In> rd(is, sep); bool ok = readAll(rd, a);
		Rows x = rows; for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < x[i].size(); j++) { std::string f; for (size_t k = 0; k < x[i][j].size(); k++) if (x[i][j][k] != '\r') f += x[i][j][k]; x[i][j] = f; }
		MC_CHECK(ok && a == x, "read back as %s instead of %s", showRows(a).c_str(), showRows(x).c_str()); }
	mc::eval(!rows.empty());
}
template<size_t M> static void limit(size_t len, int shape)
{
	// a row whose fields hold len characters in total: refused iff len >= M, independent of earlier rows
	Row r; if (shape == 0) r.push_back(std::string(len, 'x')); else { size_t h = len / 2; r.push_back(std::string(h, 'y')); r.push_back(std::string(len - h, 'z')); }
	std::string line = shape == 2 ? "\"" + r[0] + "\",\"" + r[1] + "\"\n" : r.size() == 1 ? r[0] + "\n" : r[0] + "," + r[1] + "\n";
	std::string t = line + line + line; In is(t, 1000); cybozu::CsvReaderT<In, M> rd(is);
	mc::what("limit %zu, three rows with %zu characters, shape %d", M, len, shape);
	for (int i = 0; i < 3; i++) { Row q; bool ok = false, thr = false; try { ok = rd.read(q); } catch (std::exception&) { thr = true; }
		MC_CHECK(thr == (len >= M), "row %d %s", i, thr ? "refused" : "accepted"); if (thr) break; size_t tot = 0; for (size_t k = 0; k < q.size(); k++) tot += q[k].size(); MC_CHECK(ok && tot == len, "row %d: %zu characters", i, tot); }
	mc::eval(len > 0);
}
void mc_main()
{
	const char seps[] = { ',', '\t', ';', ' ' };
	{ mc::Section s("texts"); const std::string al("a,\"\n\r", 5); const int L = mc::tier(7, 8);
		for (int n = 0; n <= L; n++) { size_t tot = 1; for (int i = 0; i < n; i++) tot *= al.size();
			for (size_t c = 0; c < tot; c++) { if (!s.pick()) continue; std::string t; size_t x = c; for (int i = 0; i < n; i++) { t += al[x % al.size()]; x /= al.size(); } mc::what("text %s", mc::show(t).c_str()); judge(t, ',', 1000); if (n <= 6) judge(t, ',', 1); if (n <= 4) { judge(t, ';', 1000); judge(t, ',', 2); } mc::sample(mc::g().sh->what); } } }
	{ mc::Section s("separators"); const std::string al("b,\t; \"\n", 7); const int L = mc::tier(5, 6);
		for (int n = 0; n <= L; n++) { size_t tot = 1; for (int i = 0; i < n; i++) tot *= al.size();
			for (size_t c = 0; c < tot; c++) { if (!s.pick()) continue; std::string t; size_t x = c; for (int i = 0; i < n; i++) { t += al[x % al.size()]; x /= al.size(); } for (int k = 0; k < 4; k++) { mc::what("text %s, separator %02x", mc::show(t).c_str(), seps[k]); judge(t, seps[k], 1000); } } } }
	{ mc::Section s("bytes"); for (int b = 0; b < 256; b++) for (int k = 0; k < 8; k++) { if (!s.pick()) continue; const char *f[] = { "%c", "x%cy,z%c", "\"%c\",\"q%c\"\n", "%c%c\n%c\n", "\"x\"%c,y\n", "\"x\"%c\"", "\"\"%c\n", "a%c\"b\"\nc" }; std::string t; for (const char *p = f[k]; *p; p++) if (*p == '%') { t += (char)b; p++; } else t += *p; mc::what("text %s", mc::show(t).c_str()); judge(t, ',', 1000);
			Rows r(2); r[0].push_back(std::string(1, (char)b)); r[0].push_back(std::string("a") + (char)b + "b"); r[1].push_back(std::string(3, (char)b)); round(r, ',', 1000); } }
	{ mc::Section s("roundTrip"); // all rows of <=3 fields over a set of fields; two rows
		const char *F[] = { "", "a", "\"", ",", "\n", "\r\n", "\"\"", "a,b", "\"a", "a\"", ",\"\n\"", " ", "\t;", "\xe3\x81\x82", "a\"\"b" }; const int K = 15;
		for (int n = 0; n <= 3; n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= K;
			for (int c = 0; c < tot; c++) for (int q = 0; q < 4; q++) { if (!s.pick()) continue; Row r; int x = c; for (int i = 0; i < n; i++) { r.push_back(F[x % K]); x /= K; } Rows rs; if (q & 1) { Row z; z.push_back(F[(c * 7) % K]); rs.push_back(z); } rs.push_back(r); if (q & 2) { Row z; z.push_back(""); rs.push_back(z); rs.push_back(Row()); rs.push_back(r); }
				mc::what("rows %s", showRows(rs).c_str()); for (int k = 0; k < 4; k++) round(rs, seps[k], k & 1 ? 1 : 1000); mc::sample(mc::g().sh->what); } } }
	{ mc::Section s("buffer"); // every construct placed at every position around the 2048 byte input buffer
		const char *C[] = { "a,b\n", "\"x\"\"y\",z\n", "\"\",\"\"\n", "\"\"\"\"\n", "a\r\nb", ",,\n", "\"\r\n\",q\r\n", "a,", "\"q", "\"q\"x" };
		for (int b = 2048; b <= 4096; b += 2048) for (int k = 0; k < 10; k++) for (int d = -12; d <= 3; d++) { if (!s.pick()) continue; std::string t(b + d - 1, 'p'); t += k & 1 ? "\n" : ","; t += C[k]; mc::what("%d bytes, then %s", b + d, mc::show(C[k]).c_str()); judge(t, ',', 100000); judge(t, ',', 2047); } }
	{ mc::Section s("limit"); for (size_t len = 0; len <= 24; len++) for (int sh = 0; sh < 3; sh++) if (s.pick()) { limit<1>(len, sh); limit<2>(len, sh); limit<5>(len, sh); limit<20>(len, sh); } }
	{ mc::Section s("default limit"); const size_t M = 10 * 1024 * 1024; for (int d = -1; d <= 0; d++) { if (!s.pick()) continue; mc::what("default limit, row of %zu characters", M + d); std::string t = std::string(M / 2, 'u') + "," + std::string(M / 2 + d, 'v') + "\nw\n"; In is(t, 100000); cybozu::CsvReaderT<In> rd(is); Row q; bool thr = false, ok = false; try { ok = rd.read(q); } catch (std::exception&) { thr = true; } MC_CHECK(thr == (d == 0), "%s", thr ? "refused" : "accepted"); if (!thr) MC_CHECK(ok && q.size() == 2 && q[1].size() == M / 2 + d && rd.read(q) && q == Row(1, "w"), "contents"); mc::eval(); } }
	{ mc::Section s("badSeparator"); for (int c = 0; c < 256; c++) { if (!s.pick()) continue; mc::what("separator %02x", c); std::string e; In is(e, 10); Out os; bool t1 = false, t2 = false, v = c == ',' || c == '\t' || c == ';' || c == ' '; try { cybozu::CsvReaderT<In> r(is, (char)c); } catch (std::exception&) { t1 = true; } try { cybozu::CsvWriterT<Out> w(os, (char)c); } catch (std::exception&) { t2 = true; } MC_CHECK(t1 == !v && t2 == !v, "reader %d writer %d", t1, t2); mc::eval(); } }
	{ mc::Section s("files"); for (int k = 0; k < 27; k++) { if (!s.pick()) continue; mc::what("file %d", k); const char *F[] = { "", "x\"", "p\nq" }; Row r; r.push_back(F[k % 3]); r.push_back(F[k / 3 % 3]); r.push_back(F[k / 9]); std::string name = mc::fmt("f%d.csv", k); { cybozu::CsvWriter w(name); w.write(r.begin(), r.end()); w.write(r.begin(), r.begin() + 1); } Rows a; { cybozu::CsvReader rd(name); MC_CHECK(readAll(rd, a), "file not read"); } MC_CHECK(a.size() == 2 && a[0] == r && a[1] == Row(1, r[0]), "file read as %s", showRows(a).c_str()); mc::eval(); } }
}
