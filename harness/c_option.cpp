// Option: every command line up to the bound against a reference parser; integers with suffixes
#include "util.hpp"
#include <memory>
#include <cybozu/option.hpp>
static const char DELIM[] = "---";
static bool isOpt(const std::string& s) { return s[0] == '-' && !(s.size() > 1 && s[1] >= '0' && s[1] <= '9'); }
static bool dec(const std::string& s, __int128& x) { size_t i = 0; bool neg = false; if (s.empty()) return false; if (s[0] == '-') { neg = true; i = 1; } if (i == s.size()) return false; x = 0; for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; x = x * 10 + (s[i] - '0'); if (x > ((__int128)1 << 100)) x = (__int128)1 << 100; } if (neg) x = -x; return true; }
static bool conv(const std::string& s, __int128& x, bool uns, __int128 mn, __int128 mx)
{
	if (s.size() >= 2 && s[0] == '0' && s[1] == 'x') { if (s.size() == 2) return false; x = 0; for (size_t i = 2; i < s.size(); i++) { int d; char c = s[i]; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (c >= 'A' && c <= 'F') d = c - 'A' + 10; else return false; x = x * 16 + d; if (x > ((__int128)1 << 100)) x = (__int128)1 << 100; } return x <= mx; }
	__int128 f = 1; std::string t = s; if (t.size() > 1) { char c = t.back(); f = c == 'k' ? 1000 : c == 'm' ? 1000000 : c == 'g' ? 1000000000 : c == 'K' ? 1024 : c == 'M' ? 1048576 : c == 'G' ? 1073741824 : 1; if (f > 1) t.pop_back(); }
	if (!dec(t, x)) return false; if (uns && t[0] == '-') return false; x *= f; return x >= mn && x <= mx;
}
struct Vals { bool b; int n; std::string s; std::vector<int> v; int must; std::string p1; int p2; std::vector<std::string> rem; std::vector<int> remi; bool sb, sn, ss, sv, sm, s1, s2, sr; std::vector<std::string> after; int next; bool ok; Vals() : b(false), n(7), s("def"), must(0), p2(-5), sb(false), sn(false), ss(false), sv(false), sm(false), s1(false), s2(false), sr(false), next(-1), ok(false) {} };
// cfg bits: 0 must option, 1 param1, 2 optional param, 3 variable params (strings), 4 variable params (int), 5 delimiter
static Vals reference(const std::vector<std::string>& a, int cfg)
{
	Vals r; int n = (int)a.size(); r.next = n + 1; const __int128 mn = -2147483648LL, mx = 2147483647LL; __int128 x;
	for (int i = 0; i < n; i++) {
		if ((cfg & 32) && a[i] == DELIM) { r.next = i + 2; r.after.assign(a.begin() + i + 1, a.end()); break; }
		if (isOpt(a[i])) {
			std::string o = a[i].substr(1);
			if (o == "b") { r.b = r.sb = true; }
			else if (o == "n" || (o == "must" && (cfg & 1))) { i++; if (i == n) return r; bool& set = o == "n" ? r.sn : r.sm; set = true; if (!conv(a[i], x, false, mn, mx)) return r; (o == "n" ? r.n : r.must) = (int)x; }
			else if (o == "s") { i++; if (i == n) return r; r.ss = true; r.s = a[i]; }
			else if (o == "v") { int c = 0; while (i + 1 < n && !isOpt(a[i + 1])) { i++; c++; r.sv = true; if (!conv(a[i], x, false, mn, mx)) return r; r.v.push_back((int)x); } if (!c) return r; }
			else return r;
		} else if ((cfg & 2) && !r.s1) { r.s1 = true; r.p1 = a[i]; }
		else if ((cfg & 4) && !r.s2) { r.s2 = true; if (!conv(a[i], x, false, mn, mx)) return r; r.p2 = (int)x; }
		else if (cfg & 8) { r.sr = true; r.rem.push_back(a[i]); }
		else if (cfg & 16) { r.sr = true; if (!conv(a[i], x, false, mn, mx)) return r; r.remi.push_back((int)x); }
		else return r;
	}
	if ((cfg & 1) && !r.sm) return r; if ((cfg & 2) && !r.s1) return r;
	r.ok = true; return r;
}
static void judge(const std::vector<std::string>& a, int cfg, int startPos)
{
	std::string w; for (auto& x : a) w += " '" + x + "'"; mc::what("configuration %d, start %d:%s", cfg, startPos, w.c_str());
	Vals e = reference(a, cfg), g; cybozu::Option o; bool b = true; int n = 1, must = 9, p2 = 1; std::string s, p1; std::vector<int> v, remi; std::vector<std::string> rem, after;
	o.appendBoolOpt(&b, "b", ": bool"); o.appendOpt(&n, 7, "n"); o.appendOpt(&s, "def", "s"); o.appendVec(&v, "v"); if (cfg & 1) o.appendMust(&must, "must"); if (cfg & 2) o.appendParam(&p1, "p1"); if (cfg & 4) o.appendParamOpt(&p2, -5, "p2"); if (cfg & 8) o.appendParamVec(&rem, "rem"); if (cfg & 16) o.appendParamVec(&remi, "rem"); if (cfg & 32) o.setDelimiter(DELIM, &after);
	std::vector<const char*> av; for (int i = 0; i < startPos; i++) av.push_back(i + 1 == startPos ? "/x/prog" : "-zzz"); std::vector<std::unique_ptr<char[]> > mem; for (auto& x : a) { mem.emplace_back(new char[x.size() + 1]); memcpy(mem.back().get(), x.c_str(), x.size() + 1); av.push_back(mem.back().get()); }
	bool ok = o.parse((int)av.size(), av.data(), startPos);
	MC_CHECK(ok == e.ok, "%s", ok ? "accepted" : "refused"); if (!ok || !e.ok) { mc::eval(); return; }
	MC_CHECK(b == e.b && o.isSet(&b) == e.sb, "-b %d", b); MC_CHECK(n == e.n && o.isSet(&n) == e.sn, "-n %d", n); MC_CHECK(s == e.s && o.isSet(&s) == e.ss, "-s %s", s.c_str()); MC_CHECK(v == e.v && o.isSet(&v) == e.sv, "-v has %zu values", v.size());
	if (cfg & 1) MC_CHECK(must == e.must && o.isSet(&must) == e.sm, "-must %d", must); if (cfg & 2) MC_CHECK(p1 == e.p1 && o.isSet(&p1) == e.s1, "p1 %s", p1.c_str()); if (cfg & 4) MC_CHECK(p2 == e.p2 && o.isSet(&p2) == e.s2, "p2 %d", p2);
	if (cfg & 8) MC_CHECK(rem == e.rem && o.isSet(&rem) == e.sr, "%zu remaining", rem.size()); if (cfg & 16) MC_CHECK(remi == e.remi && o.isSet(&remi) == e.sr, "%zu remaining", remi.size());
	MC_CHECK(after == e.after, "%zu after the delimiter", after.size()); MC_CHECK(o.getNextPositionOfDelimiter() == e.next - 1 + startPos, "next position %d, expected %d", o.getNextPositionOfDelimiter(), e.next - 1 + startPos);
	mc::eval(!a.empty());
}
template<class T> static void ints(const std::string& t)
{
	__int128 x = 0; bool e = conv(t, x, !std::numeric_limits<T>::is_signed, (__int128)std::numeric_limits<T>::min(), (__int128)std::numeric_limits<T>::max());
	T v = 77; cybozu::Option o; o.appendOpt(&v, T(42), "x"); MC_CHECK(v == 42, "default"); const char *av[] = { "p", "-x", t.c_str() }; bool ok = o.parse(3, av); MC_CHECK(ok == e && (!ok || v == (T)x), "%zu byte %s: %s %lld", sizeof(T), std::numeric_limits<T>::is_signed ? "signed" : "unsigned", ok ? "accepted as" : "refused", (long long)v);
	std::vector<T> q; cybozu::Option o2; o2.appendParamVec(&q, "q"); const char *av2[] = { "p", "1", t.c_str() }; if (t[0] == '-' && !(t.size() > 1 && t[1] >= '0' && t[1] <= '9')) return; ok = o2.parse(3, av2); MC_CHECK(ok == e && (!ok || (q.size() == 2 && q[0] == 1 && q[1] == (T)x)), "%zu byte %s parameter: %s", sizeof(T), std::numeric_limits<T>::is_signed ? "signed" : "unsigned", ok ? "accepted" : "refused");
}

void mc_main()
{
	if (!freopen("/dev/null", "w", stdout)) return;
	const char *A[] = { "-b", "-n", "-s", "-v", "-must", "3", "-4", "x", "-q", DELIM, "2k", "-" };
	{ mc::Section s("commands"); mc::forSeqUpTo(12, mc::tier(4, 5), [&](const std::vector<int>& v) { if (!s.pick()) return; std::vector<std::string> a; for (int i : v) a.push_back(A[i]); static const int C[] = { 0, 1, 2, 3, 4, 6, 8, 16, 9, 10, 18, 32, 33, 34, 40, 48, 42, 55 - 8 - 1 }; for (int c = 0; c < 17; c++) judge(a, C[c], 1); if (v.size() <= 2) { judge(a, 2, 2); judge(a, 40, 3); } mc::sample(mc::g().sh->what); }); }
	{ mc::Section s("longer"); const char *B[] = { "-v", "1", "-n", "y", "-must" }; mc::forSeq(5, mc::tier(6, 8), [&](const std::vector<int>& v) { if (!s.pick()) return; std::vector<std::string> a; for (int i : v) a.push_back(B[i]); judge(a, 1, 1); judge(a, 9, 1); judge(a, 6, 1); judge(a, 11, 1); }); }
	{ mc::Section s("integers"); std::set<std::string> V; const char *suf[] = { "", "k", "m", "g", "K", "M", "G" }; const __int128 F[] = { 1, 1000, 1000000, 1000000000, 1024, 1048576, 1073741824 };
		for (int k = 0; k < 7; k++) { for (int i = -130; i <= 260; i++) V.insert(mc::fmt("%d%s", i, suf[k])); for (int b = 6; b <= 65; b++) for (int d = -2; d <= 2; d++) { __int128 x = (((__int128)1 << b) / F[k]) + d; if (x < 0) continue; std::string t = x ? "" : "0"; while (x) { t = char('0' + (int)(x % 10)) + t; x /= 10; } V.insert(t + suf[k]); V.insert("-" + t + suf[k]); } }
		const char *X[] = { "", "-", "k", "G", "-k", "1kk", "1kK", " 1", "1 ", "+1", "0x", "0xg", "0x1k", "0X1", "1x", "-0x1", "00", "01k", "--1", "1-", "1.5", "1.5k", "0x00000000000000001", "x" }; for (auto x : X) V.insert(x); for (int b = 0; b <= 65; b++) for (int d = -1; d <= 1; d++) { unsigned __int128 x = ((unsigned __int128)1 << b) + d; std::string t, u; while (x) { t = "0123456789abcdef"[(int)(x % 16)] + t; u = "0123456789ABCDEF"[(int)(x % 16)] + u; x /= 16; } V.insert("0x" + t); V.insert("0x" + u); }
		for (auto& t : V) { if (!s.pick()) continue; mc::setWhat("value " + mc::show(t)); ints<int8_t>(t); ints<uint8_t>(t); ints<int16_t>(t); ints<uint16_t>(t); ints<int>(t); ints<unsigned>(t); ints<long>(t); ints<unsigned long>(t); ints<long long>(t); ints<unsigned long long>(t); mc::eval(); } }
	{ mc::Section s("registration"); const char *N[] = { "a", "b", "ab", "3x", "-long", "" }; mc::forSeq(6, 3, [&](const std::vector<int>& v) { if (!s.pick()) return; mc::what("options %s %s %s", N[v[0]], N[v[1]], N[v[2]]); cybozu::Option o; std::set<std::string> have; int x[3]; for (int i = 0; i < 3; i++) { bool thr = false; std::string nm = N[v[i]]; try { o.appendOpt(&x[i], i, nm.c_str()); } catch (std::exception&) { thr = true; } bool bad = (nm[0] >= '0' && nm[0] <= '9') || have.count(nm); MC_CHECK(thr == bad, "'%s' %s", nm.c_str(), thr ? "refused" : "accepted"); have.insert(nm); } mc::eval(); });
		for (int i = 0; i < 9; i++) { if (!s.pick()) continue; mc::what("parameter kinds %d", i); cybozu::Option o; int p, q; std::vector<int> z; int f = i / 3, t = i % 3; if (f == 0) o.appendParam(&p, "p"); else if (f == 1) o.appendParamOpt(&p, 1, "p"); else o.appendParamVec(&z, "p"); bool thr = false; std::vector<int> y; try { if (t == 0) o.appendParam(&q, "q"); else if (t == 1) o.appendParamOpt(&q, 1, "q"); else o.appendParamVec(&y, "q"); } catch (std::exception&) { thr = true; } MC_CHECK(thr == (f != 0), "second parameter %s", thr ? "refused" : "accepted"); mc::eval(); } }
	{ mc::Section s("argc"); for (int argc = 0; argc < 4; argc++) for (int st = 1; st <= 5; st++) { if (!s.pick()) continue; mc::what("argc %d start %d", argc, st); const char *av[] = { "p", "-b", "-b", "-b" }; cybozu::Option o; bool b; o.appendBoolOpt(&b, "b"); bool ok = o.parse(argc, av, st); MC_CHECK(ok == !(argc < 1 || st > argc) && b == (ok && st < argc), "result %d", ok); mc::eval(); } }
	{ mc::Section s("many"); // many options, parameters and delimiters on one Option, given in every rotation and reversed
		for (int n = 1; n <= 20; n++) for (int np = 0; np <= 6; np++) for (int kind = 0; kind < 3; kind++) for (int rev = 0; rev < 2; rev++) { if (!s.pick()) continue; mc::what("%d options, %d parameters, kind %d, reversed %d", n, np, kind, rev);
			for (int skip = -1; skip < n; skip++) for (int have = 0; have <= np + 1; have++) { cybozu::Option o; std::vector<int> x(n, -1), y(np, -1); int opt = -1; std::vector<std::string> rem; for (int i = 0; i < n; i++) { std::string nm = mc::fmt("opt%d", i * 7 % 23); if (i % 3 == 2) o.appendMust(&x[i], nm.c_str()); else o.appendOpt(&x[i], 1000 + i, nm.c_str()); } for (int i = 0; i < np; i++) o.appendParam(&y[i], mc::fmt("p%d", i).c_str()); if (kind == 1) o.appendParamOpt(&opt, 555, "o"); if (kind == 2) o.appendParamVec(&rem, "r");
				std::vector<std::string> a; a.push_back("prog"); for (int i = 0; i < n; i++) { int k = rev ? n - 1 - i : i; if (k == skip) continue; a.push_back(mc::fmt("-opt%d", k * 7 % 23)); a.push_back(mc::fmt("%d", 2000 + k)); if (i == n / 2) for (int q = 0; q < have / 2; q++) a.push_back(mc::fmt("%d", 3000 + q)); } bool placed = (rev ? n - 1 - n / 2 : n / 2) != skip; for (int q = placed ? have / 2 : 0; q < have; q++) a.push_back(mc::fmt("%d", 3000 + q));
				std::vector<const char*> av; for (auto& t : a) av.push_back(t.c_str()); bool ok = o.parse((int)av.size(), av.data()); bool e = have >= np && (have == np || kind != 0) && !(skip >= 0 && skip % 3 == 2); MC_CHECK(ok == e, "option %d left out, %d parameters: %s", skip, have, ok ? "accepted" : "refused"); if (!ok || !e) continue;
				for (int i = 0; i < n; i++) MC_CHECK(x[i] == (i == skip ? 1000 + i : 2000 + i) && o.isSet(&x[i]) == (i != skip), "option %d is %d", i, x[i]); for (int i = 0; i < np; i++) MC_CHECK(y[i] == 3000 + i && o.isSet(&y[i]), "parameter %d is %d", i, y[i]); if (kind == 1) MC_CHECK(opt == (have > np ? 3000 + np : 555) && o.isSet(&opt) == (have > np), "optional parameter %d", opt); if (kind == 2) { MC_CHECK((int)rem.size() == have - np && o.isSet(&rem) == (have > np), "%zu remaining", rem.size()); for (size_t q = 0; q < rem.size(); q++) MC_CHECK(rem[q] == mc::fmt("%d", 3000 + np + (int)q), "remaining %zu is %s", q, rem[q].c_str()); } mc::state(); }
			mc::eval(); } }
	{ mc::Section s("option or not"); for (int c = 1; c < 256; c++) for (int tail = 0; tail < 3; tail++) { if (!s.pick()) continue; std::string t = std::string("-") + (char)c + (tail == 0 ? "" : tail == 1 ? "x" : "7"); mc::setWhat("argument " + mc::show(t)); std::vector<std::string> r; cybozu::Option o; o.appendParamVec(&r, "r"); const char *av[] = { "p", t.c_str() }; bool num = c >= '0' && c <= '9'; bool ok = o.parse(2, av); MC_CHECK(ok == num && r.size() == (num ? 1u : 0u) && (!num || r[0] == t), "%s", ok ? "taken as a parameter" : "refused");
			std::vector<std::string> v; bool b = false; cybozu::Option q; q.appendVec(&v, "v"); bool thr = false; try { q.appendBoolOpt(&b, t.c_str() + 1); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr == (num || t == "-v"), "registration"); const char *bv[] = { "p", "-v", "1", t.c_str() }; if (t != "-v") { ok = q.parse(4, bv); MC_CHECK(ok && (num ? v.size() == 2 && v[1] == t && !b : v.size() == 1 && b), "after -v: %zu values", v.size()); } mc::eval(); } }
	{ mc::Section s("texts"); const char *T[] = { "", " ", "a b", " a", "a ", "\t", "a\nb", "\x80\xff", "0x1", "1k", "=", "a=b", "--" }; for (auto t : T) { if (!s.pick()) continue; mc::setWhat("text " + mc::show(t)); std::string x, y; std::vector<std::string> v, r; cybozu::Option o; o.appendOpt(&x, "d", "x"); o.appendParam(&y, "y"); o.appendVec(&v, "v"); o.appendParamVec(&r, "r"); bool opt = t[0] == '-'; const char *av[] = { "p", "-x", t, opt ? "q" : t, "-v", opt ? "q" : t, opt ? "q" : t, "-x", t, opt ? "q" : t }; std::string e = opt ? "q" : t; bool ok = o.parse(10, av); MC_CHECK(ok && x == t && y == e && v == std::vector<std::string>(2, e) && r == std::vector<std::string>(1, e), "ok %d x '%s' y '%s' %zu %zu", ok, x.c_str(), y.c_str(), v.size(), r.size()); mc::eval(); } }
	{ mc::Section s("delimiters"); const char *A2[] = { "a", "--", "==", "-b", "stop" }; mc::forSeqUpTo(5, 4, [&](const std::vector<int>& v) { if (!s.pick()) return; for (int cfg = 0; cfg < 6; cfg++) { std::string w; for (int i : v) w += std::string(" ") + A2[i]; mc::what("delimiters %d:%s", cfg, w.c_str()); std::set<std::string> D; cybozu::Option o; bool b = false; std::vector<std::string> r, after; bool keep = false; o.appendBoolOpt(&b, "b"); o.appendParamVec(&r, "r"); if (cfg & 1) { o.setDelimiter("--", &after); D.insert("--"); keep = true; } if (cfg & 2) { o.appendDelimiter("=="); D.insert("=="); } if (cfg >= 4) { o.clearDelimiterList(); D.clear(); o.appendDelimiter("stop"); D.insert("stop"); }
			// the same object is used for several command lines; each gets its own position
			for (int round = 0; round < 2; round++) { std::vector<const char*> av; av.push_back("p"); size_t from = round ? v.size() / 2 : 0; for (size_t i = from; i < v.size(); i++) av.push_back(A2[v[i]]); r.clear(); after.clear(); b = false; bool e = true, eb = false; std::vector<std::string> er, ea; int next = (int)av.size(); for (int i = 1; i < (int)av.size(); i++) { std::string t = av[i]; if (D.count(t)) { next = i + 1; if (keep) ea.assign(av.begin() + i + 1, av.end()); break; } if (t[0] == '-') { if (t != "-b") { e = false; break; } eb = true; } else er.push_back(t); } bool ok = o.parse((int)av.size(), av.data()); MC_CHECK(ok == e, "round %d: %s", round, ok ? "accepted" : "refused"); if (ok && e) MC_CHECK(r == er && b == eb && after == ea && o.getNextPositionOfDelimiter() == next, "round %d: %zu parameters, %zu after, next %d (expected %d)", round, r.size(), after.size(), o.getNextPositionOfDelimiter(), next); } mc::eval(); } }); }
}
