// cybozu::regex against a backtracking matcher: all small patterns x all small texts
#include "util.hpp"
#include <memory>
#include <cybozu/regex.hpp>
typedef std::u32string T;
typedef cybozu::String S;
namespace rc = cybozu::regex_constants;
struct Node; typedef std::shared_ptr<Node> N;
struct Node { enum K { Set, Bol, Eol, Group, Seq, Alt, Rep } k; T set; bool neg; int cap, lo, hi; bool lazy; std::vector<N> c; Node(K k) : k(k), neg(false), cap(0), lo(0), hi(0), lazy(false) { } };
static const char32_t X = 0x1F600, Y = 0x3042;
static char32_t lowc(char32_t c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
struct M { // leftmost, priority order, captures
	const T& t; bool icase; size_t origin; std::vector<std::pair<long, long> > cap;
	M(const T& t, bool icase, int caps) : t(t), icase(icase), origin(0), cap(caps + 1, std::make_pair(-1L, -1L)) { }
	typedef std::function<bool(size_t)> C;
	bool one(const Node& n, char32_t c) const { bool in = false; for (char32_t d : n.set) if (d == c || (icase && lowc(d) == lowc(c))) in = true; return n.neg ? !in : in; }
	bool go(const N& n, size_t p, const C& k)
	{
		switch (n->k) {
		case Node::Set: return p < t.size() && one(*n, t[p]) && k(p + 1);
		case Node::Bol: return p == 0 && k(p);
		case Node::Eol: return p == t.size() && k(p);
		case Node::Group: { auto old = cap[n->cap]; if (go(n->c[0], p, [&](size_t q) { auto o2 = cap[n->cap]; cap[n->cap] = std::make_pair((long)p, (long)q); if (k(q)) return true; cap[n->cap] = o2; return false; })) return true; cap[n->cap] = old; return false; }
		case Node::Seq: return seq(n, 0, p, k);
		case Node::Alt: for (auto& c : n->c) if (go(c, p, k)) return true; return false;
		case Node::Rep: return rep(n, 0, p, k);
		}
		return false;
	}
	bool seq(const N& n, size_t i, size_t p, const C& k) { if (i == n->c.size()) return k(p); return go(n->c[i], p, [&, i](size_t q) { return seq(n, i + 1, q, k); }); }
	bool rep(const N& n, int done, size_t p, const C& k)
	{
		if (n->lazy && done >= n->lo && k(p)) return true;
		if (n->hi < 0 || done < n->hi) if (go(n->c[0], p, [&, done](size_t q) { return rep(n, done + 1, q, k); })) return true;
		return !n->lazy && done >= n->lo && k(p);
	}
	bool at(const N& n, size_t p, bool full, bool notEmpty) { for (auto& c : cap) c = std::make_pair(-1L, -1L); return go(n, p, [&](size_t q) { if ((full && q != t.size()) || (notEmpty && q == p)) return false; cap[0] = std::make_pair((long)p, (long)q); return true; }); }
	bool search(const N& n, size_t from, bool notEmptyAtFrom) { for (size_t p = from; p <= t.size(); p++) if (at(n, p, false, notEmptyAtFrom && p == from)) return true; return false; }
};
typedef std::vector<std::pair<long, long> > Cap;
struct Pat { N n; std::string s; int caps; bool nullable; };
static std::string chr(char32_t c) { return c == X ? "\xf0\x9f\x98\x80" : c == Y ? "\xe3\x81\x82" : std::string(1, (char)c); }
static N setn(const T& s, bool neg = false) { N n(new Node(Node::Set)); n->set = s; n->neg = neg; return n; }
static std::vector<Pat> atoms()
{
	std::vector<Pat> v; for (char32_t c : { (char32_t)'a', (char32_t)'b', X, (char32_t)0 }) v.push_back(Pat{ setn(T(1, c)), chr(c), 0, false });
	{ N n = setn(T()); n->neg = true; v.push_back(Pat{ n, ".", 0, false }); }
	v.push_back(Pat{ setn(T{ 'a', X }), "[a" + chr(X) + "]", 0, false }); v.push_back(Pat{ setn(T{ 'a', X }, true), "[^a" + chr(X) + "]", 0, false });
	return v;
}
static Pat rep(const Pat& p, int lo, int hi, bool lazy, const char *q) { N n(new Node(Node::Rep)); n->c.push_back(p.n); n->lo = lo; n->hi = hi; n->lazy = lazy; return Pat{ n, p.s + q, p.caps, lo == 0 || p.nullable }; }
static std::vector<Pat> reps(const std::vector<Pat>& a) { std::vector<Pat> v; for (auto& p : a) { v.push_back(p); if (p.nullable) continue; v.push_back(rep(p, 0, -1, false, "*")); v.push_back(rep(p, 1, -1, false, "+")); v.push_back(rep(p, 0, 1, false, "?")); v.push_back(rep(p, 0, -1, true, "*?")); v.push_back(rep(p, 1, 2, false, "{1,2}")); } return v; }
static N renum(const N& n, int by) { N m(new Node(*n)); if (m->k == Node::Group) m->cap += by; for (auto& c : m->c) c = renum(c, by); return m; }
static Pat join(Node::K k, const Pat& a, const Pat& b) { N n(new Node(k)); n->c.push_back(a.n); n->c.push_back(renum(b.n, a.caps)); return Pat{ n, a.s + (k == Node::Alt ? "|" : "") + b.s, a.caps + b.caps, k == Node::Alt ? a.nullable || b.nullable : a.nullable && b.nullable }; }
static Pat group(const Pat& a) { N n(new Node(Node::Group)); n->cap = 1; n->c.push_back(renum(a.n, 1)); return Pat{ n, "(" + a.s + ")", a.caps + 1, a.nullable }; }
static Pat anch(bool b, const Pat& a, bool e) { N n(new Node(Node::Seq)); if (b) n->c.push_back(N(new Node(Node::Bol))); n->c.push_back(a.n); if (e) n->c.push_back(N(new Node(Node::Eol))); return Pat{ n, (b ? "^" : "") + a.s + (e ? "$" : ""), a.caps, a.nullable }; }
static S str(const T& t) { S s; for (char32_t c : t) s += (cybozu::Char)c; return s; }
static T sub(const T& t, std::pair<long, long> c) { return c.first < 0 ? T() : t.substr(c.first, c.second - c.first); }
static std::string show(const T& t) { std::string r; for (char32_t c : t) r += c >= 0x20 && c < 0x7f ? std::string(1, (char)c) : mc::fmt("<%x>", (unsigned)c); return r; }
static void judge(const cybozu::smatch& m, const Cap& c, const T& t, size_t base, const char *how)
{
	MC_CHECK(m.size() == c.size(), "%s: %zu groups", how, (size_t)m.size()); if (m.size() != c.size()) return;
	for (size_t i = 0; i < c.size(); i++) { MC_CHECK(m[(int)i].matched == (c[i].first >= 0), "%s: group %zu matched %d", how, i, (int)m[(int)i].matched); MC_CHECK(m.str((int)i) == str(sub(t, c[i])), "%s: group %zu is another text", how, i); if (c[i].first >= 0) MC_CHECK(m.position((int)i) == c[i].first - (long)base && m.length((int)i) == c[i].second - c[i].first, "%s: group %zu at %ld, expected %ld", how, i, (long)m.position((int)i), c[i].first - (long)base); }
	MC_CHECK(m.str() == str(sub(t, c[0])), "%s: match", how);
}
static std::vector<Cap> all(const N& n, const T& t, bool icase, int caps) { std::vector<Cap> v; M m(t, icase, caps); size_t from = 0; bool ne = false; while (m.search(n, from, ne)) { v.push_back(m.cap); from = (size_t)m.cap[0].second; ne = m.cap[0].first == m.cap[0].second; } return v; }
static void check(const Pat& p, const cybozu::regex& re, const T& t, bool icase)
{
	const S s = str(t), pad = str(U"b") + s + str(U"a"); const S::const_iterator b = pad.begin() + 1, e = pad.begin() + 1 + s.size(); M m(t, icase, p.caps);
	bool f = m.search(p.n, 0, false); { cybozu::smatch r; MC_CHECK(cybozu::regex_search(s, r, re) == f && cybozu::regex_search(s, re) == f && cybozu::regex_search(b, e, re) == f, "search should say %d", f); if (f && r.size()) { judge(r, m.cap, t, 0, "search"); MC_CHECK(r.prefix().str() == str(t.substr(0, m.cap[0].first)) && r.suffix().str() == str(t.substr(m.cap[0].second)), "prefix or suffix"); S as = r.prefix(); MC_CHECK(as == str(t.substr(0, m.cap[0].first)), "prefix as String"); } cybozu::smatch r2; bool f2 = cybozu::regex_search(b, e, r2, re); MC_CHECK(f2 == f, "search of a range"); if (f && f2) judge(r2, m.cap, t, 0, "search of a range"); }
	f = m.at(p.n, 0, true, false); { cybozu::smatch r; MC_CHECK(cybozu::regex_match(s, r, re) == f && cybozu::regex_match(s, re) == f && cybozu::regex_match(b, e, re) == f, "match should say %d", f); if (f && r.size()) judge(r, m.cap, t, 0, "match"); cybozu::smatch r2; bool f2 = cybozu::regex_match(b, e, r2, re); MC_CHECK(f2 == f, "match of a range"); if (f && f2) judge(r2, m.cap, t, 0, "match of a range"); }
	std::vector<Cap> v = all(p.n, t, icase, p.caps);
	{ cybozu::sregex_iterator i(s.begin(), s.end(), re), end; size_t n = 0; for (; i != end && n <= v.size(); ++i, n++) { if (n < v.size()) { judge(*i, v[n], t, 0, "iterator"); cybozu::sregex_iterator c(i); MC_CHECK(c->str() == str(sub(t, v[n][0])) && c == i, "copy of the iterator"); } } MC_CHECK(n == v.size(), "%zu or more matches, expected %zu", n, v.size()); }
	{ int both[2] = { -1, p.caps ? 1 : 0 }; std::vector<int> bv(both, both + 2); std::vector<T> want[4]; size_t last = 0; for (auto& c : v) { T gap = t.substr(last, c[0].first - last); last = c[0].second; want[0].push_back(sub(t, c[0])); want[1].push_back(sub(t, c[p.caps ? 1 : 0])); want[2].push_back(gap); want[3].push_back(gap); want[3].push_back(sub(t, c[p.caps ? 1 : 0])); } if (last < t.size()) { want[2].push_back(t.substr(last)); want[3].push_back(t.substr(last)); }
		for (int k = 0; k < 5; k++) { cybozu::sregex_token_iterator i = k == 0 ? cybozu::sregex_token_iterator(s.begin(), s.end(), re) : k == 1 ? cybozu::sregex_token_iterator(s.begin(), s.end(), re, p.caps ? 1 : 0) : k == 2 ? cybozu::sregex_token_iterator(s.begin(), s.end(), re, -1) : k == 3 ? cybozu::sregex_token_iterator(s.begin(), s.end(), re, bv) : cybozu::sregex_token_iterator(s.begin(), s.end(), re, both), end; const std::vector<T>& w = want[k == 4 ? 3 : k]; size_t n = 0; for (; i != end && n <= w.size(); n++) { S got = n & 1 ? (*i).str() : S(*i); if (n < w.size()) MC_CHECK(got == str(w[n]), "token %zu of kind %d", n, k); if (n & 1) ++i; else { cybozu::sregex_token_iterator o = i++; MC_CHECK((*o).str() == got, "i++ must give the old token"); } } MC_CHECK(n == w.size(), "%zu or more tokens of kind %d, expected %zu", n, k, w.size()); } }
	for (int fl = 0; fl < 3; fl++) for (int k = 0; k < 5; k++) { if (k == 3 && fl) continue; if (k == 4 && (fl || p.caps < 3)) continue; rc::match_flag_type flags = fl == 0 ? rc::match_default : fl == 1 ? rc::format_first_only : rc::format_no_copy; S fm = k == 0 ? str(U"<$&>") : k == 1 ? str(U"$1$$") : k == 2 ? str(U"\x3042") : k == 3 ? str(T{ 'x', 0, 'y' }) : str(U"$4-$2"); auto cp = [&](const Cap& c, size_t i) { return i < c.size() ? sub(t, c[i]) : T(); }; T w; size_t last = 0; for (auto& c : v) { if (fl != 2) w += t.substr(last, c[0].first - last); last = c[0].second; w += k == 0 ? T(U"<") + sub(t, c[0]) + T(U">") : k == 1 ? (p.caps ? sub(t, c[1]) : T()) + T(U"$") : k == 2 ? T(1, Y) : k == 3 ? T{ 'x', 0, 'y' } : cp(c, 4) + T(1, '-') + cp(c, 2); if (fl == 1) break; } if (fl != 2) w += t.substr(last); S got = cybozu::regex_replace(s, re, fm, flags); MC_CHECK(got == str(w), "replace %d %d expected %s", fl, k, show(w).c_str()); MC_CHECK(cybozu::regex_replace(b, e, re, fm, flags) == str(w), "replace of a range %d %d", fl, k); if (fl == 0) MC_CHECK(cybozu::regex_replace(s, re, fm) == got, "replace with default flags"); }
	mc::eval(!v.empty()); mc::state(v.size());
}
void mc_main()
{
	std::vector<Pat> at = atoms(), r1 = reps(at), pats; const bool th = mc::tier(0, 1);
	for (auto& p : r1) pats.push_back(p);
	std::vector<Pat> small(r1.begin(), r1.begin() + 12); // a and b with all repetitions
	for (auto& p : reps(std::vector<Pat>(at.begin() + 2, at.begin() + 3))) small.push_back(p); small.push_back(at[4]); small.push_back(at[6]);
	std::vector<Pat> two; for (auto& a : small) for (auto& b : small) { two.push_back(join(Node::Seq, a, b)); two.push_back(join(Node::Alt, a, b)); }
	for (auto& p : two) pats.push_back(p);
	std::vector<Pat> g; for (size_t i = 0; i < two.size(); i += th ? 1 : 4) g.push_back(group(two[i])); for (auto& p : small) g.push_back(group(p));
	for (auto& p : reps(g)) { pats.push_back(p); pats.push_back(join(Node::Seq, p, at[0])); pats.push_back(join(Node::Seq, at[1], p)); if (p.caps) pats.push_back(join(Node::Alt, p, at[2])); }
	for (size_t i = 0; i < g.size(); i += th ? 2 : 7) for (size_t j = 0; j < g.size(); j += th ? 3 : 11) { pats.push_back(join(Node::Seq, g[i], g[j])); pats.push_back(join(Node::Alt, g[i], g[j])); }
	std::vector<Pat> an; for (size_t i = 0; i < pats.size(); i += 5) { if (pats[i].n->k == Node::Alt) continue; an.push_back(anch(true, pats[i], false)); an.push_back(anch(false, pats[i], true)); an.push_back(anch(true, pats[i], true)); } pats.insert(pats.end(), an.begin(), an.end());
	std::vector<T> texts; { const char32_t al[] = { 'a', 'b', X, 0 }; mc::forSeqUpTo(3, mc::tier(4, 5), [&](const std::vector<int>& v) { T t; for (int i : v) t += al[i]; texts.push_back(t); }); mc::forSeqUpTo(4, 3, [&](const std::vector<int>& v) { T t; bool z = false; for (int i : v) { t += al[i]; z |= i == 3; } if (z) texts.push_back(t); }); }
	{ mc::Section s("patterns"); for (auto& p : pats) { if (!s.pick()) continue; std::string nm = p.s; for (char& c : nm) if (!c) c = '0'; mc::what("pattern %s", nm.c_str()); cybozu::regex re{ S(p.s) }; for (auto& t : texts) { mc::what("pattern %s text %s", nm.c_str(), show(t).c_str()); check(p, re, t, false); } } }
	// more groups than one digit counts, side by side, nested and optional
	{ mc::Section s("many groups"); std::vector<T> lt; { const char32_t al[] = { 'a', 'b', X }; mc::forSeqUpTo(2, mc::tier(6, 8), [&](const std::vector<int>& v) { T t; for (int i : v) t += al[i]; lt.push_back(t); }); lt.push_back(T(14, 'a')); lt.push_back(T(12, X)); T m; for (int i = 0; i < 14; i++) m += al[i % 3]; lt.push_back(m); }
		for (int n = 3; n <= 13; n++) for (int form = 0; form < 6; form++) { if (!s.pick()) continue;
			Pat p; for (int i = 0; i < n; i++) { const Pat& c = form == 2 ? at[i & 1] : form == 3 ? at[i % 3] : at[4]; Pat q = form == 4 ? group(i ? join(Node::Seq, at[4], p) : at[0]) : group(form == 1 || form == 5 ? rep(c, 0, 1, form == 5, form == 5 ? "??" : "?") : c); p = i == 0 || form == 4 ? q : join(form == 2 ? Node::Alt : Node::Seq, p, q); }
			cybozu::regex re{ S(p.s) }; for (auto& t : lt) { mc::what("pattern %s text %s", p.s.c_str(), show(t).c_str()); check(p, re, t, false); } } }
	{ mc::Section s("constructors"); for (size_t i = 0; i < pats.size(); i += 3) { if (!s.pick()) continue; const Pat& p = pats[i]; std::string nm = p.s; bool nul = nm.find('\0') != std::string::npos; for (char& c : nm) if (!c) c = '0'; mc::what("pattern %s", nm.c_str()); S ps(p.s); std::vector<cybozu::Char> raw(ps.begin(), ps.end()); std::vector<cybozu::regex> v; v.push_back(cybozu::regex(ps)); v.push_back(cybozu::regex(raw.data(), raw.data() + raw.size())); v.push_back(cybozu::regex(raw.data(), raw.size(), rc::ECMAScript)); if (!nul) { v.push_back(cybozu::regex(ps.c_str())); cybozu::String16 p16 = ps.toUtf16(); v.push_back(cybozu::regex(p16.c_str())); } { cybozu::regex a(v[0]); cybozu::regex d; d = a; v.push_back(a); v.push_back(d); }
			for (size_t j = 0; j < v.size(); j++) for (size_t k = 0; k < texts.size(); k += 7) { mc::what("pattern %s made in way %zu, text %s", nm.c_str(), j, show(texts[k]).c_str()); check(p, v[j], texts[k], false); } } }
	{ mc::Section s("icase"); const char32_t al[] = { 'A', 'b', Y }; for (size_t i = 0; i < pats.size(); i += 2) { if (!s.pick()) continue; const Pat& p = pats[i]; std::string nm = p.s; bool nul = nm.find('\0') != std::string::npos; for (char& c : nm) if (!c) c = '0'; S ps(p.s); std::vector<cybozu::Char> raw(ps.begin(), ps.end()); std::vector<cybozu::regex> v; mc::what("icase %s", nm.c_str()); v.push_back(cybozu::regex(ps, rc::icase)); v.push_back(cybozu::regex(raw.data(), raw.data() + raw.size(), rc::icase)); v.push_back(cybozu::regex(raw.data(), raw.size(), rc::icase)); if (!nul) { v.push_back(cybozu::regex(ps.c_str(), rc::icase)); cybozu::String16 p16 = ps.toUtf16(); v.push_back(cybozu::regex(p16.c_str(), rc::icase)); } mc::forSeqUpTo(3, 3, [&](const std::vector<int>& q) { T t; for (int x : q) t += al[x]; for (size_t j = 0; j < v.size(); j++) { mc::what("icase %s made in way %zu, text %s", nm.c_str(), j, show(t).c_str()); check(p, v[j], t, true); } }); } }
	// match flags reach the matcher
	{ mc::Section s("flags"); for (auto& p : an) { if (!s.pick()) continue; std::string nm = p.s; bool bol = nm[0] == '^', eol = nm[nm.size() - 1] == '$'; for (char& c : nm) if (!c) c = '0'; cybozu::regex re{ S(p.s) }; for (size_t k = 0; k < texts.size(); k += 3) { const T& t = texts[k]; S x = str(t); mc::what("flags, pattern %s text %s", nm.c_str(), show(t).c_str()); for (int f = 0; f < 2; f++) { rc::match_flag_type fl = f ? rc::match_not_eol : rc::match_not_bol; bool cut = f ? eol : bol; cybozu::smatch r; if (cut) { MC_CHECK(!cybozu::regex_search(x, r, re, fl) && !cybozu::regex_search(x, re, fl) && !cybozu::regex_search(x.begin(), x.end(), r, re, fl) && !cybozu::regex_search(x.begin(), x.end(), re, fl), "found although flag %d forbids the anchor", f); MC_CHECK(!cybozu::regex_match(x, r, re, fl) && !cybozu::regex_match(x, re, fl) && !cybozu::regex_match(x.begin(), x.end(), r, re, fl) && !cybozu::regex_match(x.begin(), x.end(), re, fl), "matched although flag %d forbids the anchor", f); MC_CHECK(cybozu::regex_replace(x, re, str(U"z"), fl) == x, "replaced although flag %d forbids the anchor", f); MC_CHECK(cybozu::sregex_iterator(x.begin(), x.end(), re, fl) == cybozu::sregex_iterator(), "iterated although flag %d forbids the anchor", f); int two[2] = { 0, 0 }; MC_CHECK(cybozu::sregex_token_iterator(x.begin(), x.end(), re, 0, fl) == cybozu::sregex_token_iterator() && cybozu::sregex_token_iterator(x.begin(), x.end(), re, std::vector<int>(1, 0), fl) == cybozu::sregex_token_iterator() && cybozu::sregex_token_iterator(x.begin(), x.end(), re, two, fl) == cybozu::sregex_token_iterator(), "token although flag %d forbids the anchor", f); } mc::eval(cut); } } } }
}
