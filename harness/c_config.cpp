// Config: grammar, merging, round trip, conversions
#include "util.hpp"
#include <sstream>
#include <string.h>
#include <cybozu/config.hpp>
typedef std::map<std::string, std::string> KV; typedef std::map<std::string, KV> Ref;
static bool name(const std::string& s) { if (s.empty()) return false; for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if (!(c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))) return false; } return true; }
// 1 ok, 0 error, -1 not specified (CR inside a value, CR at the end of a file)
static int ref(const std::string& t, Ref& r)
{
	std::string sec; r[sec]; size_t p = 0;
	while (p < t.size()) {
		size_t e = t.find('\n', p); bool last = e == std::string::npos; if (last) e = t.size();
		std::string l = t.substr(p, e - p); p = e + 1;
		if (!l.empty() && l.back() == '\r') { if (last) return -1; l.pop_back(); }
		if (l.empty()) continue;
		if (l[0] == ';' || l[0] == '#') { continue; }
		if (l[0] == '[') { if (l.size() < 2 || l.back() != ']' || !name(l.substr(1, l.size() - 2))) return 0; sec = l.substr(1, l.size() - 2); r[sec]; continue; }
		size_t q = l.find('='); if (q == std::string::npos) return 0;
		std::string k = l.substr(0, q), v = l.substr(q + 1); while (!k.empty() && (k.back() == ' ' || k.back() == '\t')) k.pop_back();
		if (!name(k)) return 0;
		if (v.find('\r') != std::string::npos) return -1;
		if (r[sec].count(k)) return 0;
		r[sec][k] = v;
	}
	return 1;
}
static Ref get(const cybozu::Config& c) { Ref r; for (cybozu::Config::Map::const_iterator i = c.getMap().begin(); i != c.getMap().end(); ++i) { KV& kv = r[i->first]; for (cybozu::Config::Section::Map::const_iterator j = i->second.getMap().begin(); j != i->second.getMap().end(); ++j) kv[j->first] = j->second; } return r; }
static std::string str(const Ref& r) { std::string s; for (auto& i : r) { s += "[" + i.first + "]{"; for (auto& j : i.second) s += j.first + "=" + mc::show(j.second) + ";"; s += "}"; } return s; }
static void queries(const cybozu::Config& c, const Ref& e)
{
	const char *S[] = { "", "a", "b", "ab", "none" };
	for (int i = 0; i < 5; i++) {
		const cybozu::Config::Section *s = c.querySection(S[i]); bool has = e.count(S[i]); MC_CHECK(!!s == has, "querySection(%s)", S[i]);
		bool thr = false; try { const cybozu::Config::Section& z = c.getSection(S[i]); MC_CHECK(&z == s, "getSection(%s)", S[i]); } catch (std::exception&) { thr = true; } MC_CHECK(thr == !has, "getSection(%s) throws %d", S[i], thr);
		if (!s || !has) continue;
		const KV& kv = e.find(S[i])->second; const char *K[] = { "", "a", "b", "ab", "none" };
		for (int k = 0; k < 5; k++) { const std::string *v = s->queryValue(K[k]); KV::const_iterator x = kv.find(K[k]); MC_CHECK(v ? x != kv.end() && x->second == *v : x == kv.end(), "queryValue(%s)", K[k]);
			thr = false; std::string g; try { const std::string& q = s->getValue(K[k]); g = q; } catch (std::exception&) { thr = true; } MC_CHECK(thr == (x == kv.end()) && (thr || g == x->second), "getValue(%s)", K[k]);
			std::string d = s->getValue(K[k], std::string("dflt")); MC_CHECK(d == (x == kv.end() ? "dflt" : x->second), "getValue(%s,default)", K[k]); }
	}
}
static void judge(const std::string& t, bool deep)
{
	Ref e; int st = ref(t, e); if (st < 0) return;
	cybozu::Config c; bool ok = true; try { std::istringstream is(t); c.load(is); } catch (std::exception&) { ok = false; }
	MC_CHECK(ok == (st == 1), "%s", ok ? "accepted" : "refused"); if (!ok || st != 1) { mc::eval(); return; }
	Ref r = get(c); MC_CHECK(r == e, "loaded %s, expected %s", str(r).c_str(), str(e).c_str());
	std::string w = c.toString(); cybozu::Config d; try { std::istringstream is(w); d.load(is); } catch (std::exception& x) { MC_CHECK(false, "toString is refused: %s", mc::show(w).c_str()); }
	MC_CHECK(get(d) == e && d.toString() == w, "toString reloads as %s", str(get(d)).c_str());
	if (deep) queries(c, e);
	mc::eval(!t.empty());
}
template<class T> static void conv(const std::string& v, bool valid, __int128 x)
{
	cybozu::Config::Section s; s.append("k", v);
	bool in = valid && x >= (__int128)std::numeric_limits<T>::min() && x <= (__int128)std::numeric_limits<T>::max() && !(v[0] == '-' && !std::numeric_limits<T>::is_signed);
	for (int m = 0; m < 2; m++) { bool thr = false; T g = 77; try { if (m) g = s.getValue("k", T(5)); else { T q = s.getValue("k"); g = q; } } catch (std::exception&) { thr = true; }
		MC_CHECK(thr == !in && (thr || g == (T)x), "%zu byte %s, form %d: %s %lld", sizeof(T), std::numeric_limits<T>::is_signed ? "signed" : "unsigned", m, thr ? "throws" : "gives", (long long)g); }
	MC_CHECK(s.getValue("z", T(5)) == 5, "default not returned"); bool thr = false; try { T q = s.getValue("z"); (void)q; } catch (std::exception&) { thr = true; } MC_CHECK(thr, "missing key gives a value");
}
void mc_main()
{
	{ mc::Section s("texts"); mc::forStr("a=[]\n ;", mc::tier(6, 7), [&](const std::string& t) { if (!s.pick()) return; mc::setWhat("text " + mc::show(t)); judge(t, t.size() <= 5); if (t.size() <= 4) mc::sample(mc::show(t)); }); }
	{ mc::Section s("crlf"); mc::forStr("b=\r\n[]#", mc::tier(6, 7), [&](const std::string& t) { if (!s.pick()) return; mc::setWhat("text " + mc::show(t)); judge(t, false); }); }
	{ mc::Section s("bytes"); for (int c = 0; c < 256; c++) for (int k = 0; k < 8; k++) { if (!s.pick()) continue; const char *f[] = { "%", "%=v", "k%=v", "k=%v", "[%]\nk=v", "[a%]", "k=v%", "%k=v\nq=" }; std::string t; for (const char *p = f[k]; *p; p++) t += *p == '%' ? (char)c : *p; mc::setWhat("text " + mc::show(t)); judge(t, true); judge(t + "\r\nx=y\n", true); } }
	{ mc::Section s("lines"); const char *L[] = { "a=1", "b= x = y ", "ab=", "[a]", "[b]", "[ab]", "", ";c", "#[a]", "a \t=2", "=", "[]", "[a] ", "x" }; const int K = 14;
		mc::forSeqUpTo(K, mc::tier(4, 5), [&](const std::vector<int>& v) { for (int eol = 0; eol < 3; eol++) { if (!s.pick()) continue; std::string t; for (size_t i = 0; i < v.size(); i++) { t += L[v[i]]; if (eol == 2 && i + 1 == v.size()) break; t += (eol == 1 || (eol == 2 && i % 2)) ? "\r\n" : "\n"; } mc::setWhat("text " + mc::show(t)); judge(t, true); mc::sample(mc::show(t)); } }); }
	{ mc::Section s("build"); // built by append/appendSection, then toString/load
		const char *N[] = { "a", "b", "ab", "", "x y", "_0Z" }; const char *Vv[] = { "", " ", "=", "[a]", ";", "v" };
		mc::forSeq(6, 4, [&](const std::vector<int>& v) { for (int z = 0; z < 6; z++) { if (!s.pick()) continue; mc::what("section %s keys %s,%s value %s, section %s", N[v[0]], N[v[1]], N[v[2]], Vv[v[3]], N[z]);
			cybozu::Config c; Ref e; int bad = 0, thr = 0;
			for (int k = 0; k < 2; k++) { std::string sec = N[k ? z : v[0]]; bool good = sec.empty() || name(sec); cybozu::Config::Section *p = 0; try { p = c.appendSection(sec); } catch (std::exception&) { thr++; } if (!good) bad++; else e[sec]; if (!p) continue;
				for (int q = 1; q <= 2; q++) { std::string key = N[v[q]]; bool g2 = name(key) && !e[sec].count(key); try { p->append(key, Vv[v[3]]); } catch (std::exception&) { thr++; } if (g2) e[sec][key] = Vv[v[3]]; else bad++; } }
			MC_CHECK(bad == thr, "%d refused, expected %d", thr, bad); MC_CHECK(get(c) == e, "contents %s", str(get(c)).c_str());
			cybozu::Config d; std::istringstream is(c.toString()); try { d.load(is); } catch (std::exception&) { MC_CHECK(false, "toString refused %s", mc::show(c.toString()).c_str()); } e[""]; MC_CHECK(get(d) == e, "reloaded %s from %s", str(get(d)).c_str(), mc::show(c.toString()).c_str()); mc::eval(); } }); }
	{ mc::Section s("integers"); std::set<std::string> V; for (int i = -300; i <= 300; i++) V.insert(mc::fmt("%d", i));
		for (int b = 7; b <= 64; b++) for (int d = -2; d <= 2; d++) { __int128 x = ((__int128)1 << b) + d; std::string t; while (x) { t = char('0' + (int)(x % 10)) + t; x /= 10; } V.insert(t); V.insert("-" + t); V.insert("0" + t); V.insert(t + " "); V.insert(t + "0"); }
		const char *X[] = { "", "-", " 1", "+1", "1a", "0x1", "--1", "1-", "99999999999999999999999", "-99999999999999999999999" }; for (int i = 0; i < 10; i++) V.insert(X[i]);
		for (auto& v : V) { if (!s.pick()) continue; mc::setWhat("value " + mc::show(v)); std::string d = v; bool neg = !d.empty() && d[0] == '-'; if (neg) d = d.substr(1); bool ok = !d.empty(); __int128 x = 0; for (char c : d) { if (c < '0' || c > '9') { ok = false; break; } x = x * 10 + (c - '0'); } if (neg) x = -x;
			conv<short>(v, ok, x); conv<unsigned short>(v, ok, x); conv<int>(v, ok, x); conv<unsigned int>(v, ok, x); conv<int64_t>(v, ok, x); conv<uint64_t>(v, ok, x); mc::eval(); } }
	{ mc::Section s("files"); for (int k = 0; k < 3; k++) { if (!s.pick()) continue; mc::what("file %d", k); std::string n = mc::fmt("c%d.ini", k), t = k == 0 ? "" : k == 1 ? "a=1\r\n[a]\r\nb=2" : "[a]\na=\n[b]\n[a]\nb=x\n"; { std::ofstream o(n.c_str()); o << t; } Ref e; ref(t, e); cybozu::Config c(n); MC_CHECK(get(c) == e, "file loads as %s", str(get(c)).c_str()); bool thr = false; try { cybozu::Config d("no_such_file"); } catch (std::exception&) { thr = true; } MC_CHECK(thr, "missing file accepted"); mc::eval(); } }
	{ mc::Section s("loadTwice"); // a further load adds to what is there, starting in the global section
		const char *L[] = { "a=1", "b=2", "[a]", "[b]", "x" }; std::vector<std::string> T; mc::forSeqUpTo(5, 3, [&](const std::vector<int>& v) { std::string t; for (int i : v) t += std::string(L[i]) + "\n"; T.push_back(t); });
		for (auto& a : T) for (auto& b : T) { if (!s.pick()) continue; mc::setWhat("texts " + mc::show(a) + " and " + mc::show(b));
			Ref e; if (ref(a, e) != 1) continue; int st = ref(b, e); cybozu::Config c; { std::istringstream is(a); c.load(is); } bool ok = true; try { std::istringstream is(b); c.load(is); } catch (std::exception&) { ok = false; }
			MC_CHECK(ok == (st == 1), "the second text is %s", ok ? "accepted" : "refused"); if (ok && st == 1) { Ref r = get(c); MC_CHECK(r == e, "loaded %s, expected %s", str(r).c_str(), str(e).c_str()); } mc::eval(); } }
}
