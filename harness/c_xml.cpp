// MiniXml: every generated document is parsed into its tree, every prefix and corruption is refused, nothing leaks
#define MC_COUNT_NEW
#include "util.hpp"
#include <sstream>
#include <cybozu/minixml.hpp>
using namespace cybozu::minixml;
struct T { std::string name; std::map<std::string, std::string> attr; std::string content; std::vector<T> ch; };
static bool same(const T& t, const Node *n, const Node *parent, std::string& why)
{
	if (n->name != t.name) { why = "name " + n->name + " instead of " + t.name; return false; }
	if (n->parent != parent) { why = "parent of " + t.name; return false; }
	if (n->content != t.content) { why = "content of " + t.name + " is " + mc::show(n->content); return false; }
	std::ostringstream os; os << n->attr; std::string e; for (auto& a : t.attr) e += " " + a.first + "=\"" + a.second + "\"";
	if (os.str() != e) { why = "attributes of " + t.name + ":" + os.str(); return false; }
	for (auto& a : t.attr) { const std::string *p = n->attr.query(a.first); if (!p || *p != a.second) { why = "attribute " + a.first; return false; } }
	if (n->attr.query("nokey")) { why = "attribute nokey"; return false; }
	if (n->child.size() != t.ch.size()) { why = mc::fmt("%zu children of %s instead of %zu", n->child.size(), t.name.c_str(), t.ch.size()); return false; }
	size_t i = 0; for (NodeList::const_iterator c = n->child.begin(); c != n->child.end(); ++c, ++i) if (!same(t.ch[i], *c, n, why)) return false;
	return true;
}
// writes the tree; style bit 0: short form for empty elements, 1: quotes ', 2: white space wherever allowed, 3: space before />
static void wr(const T& t, int st, std::string& o)
{
	const char *sp = st & 4 ? " \n" : ""; char q = st & 2 ? '\'' : '"';
	o += "<" + t.name; for (auto& a : t.attr) { o += std::string(st & 4 ? "\t " : " ") + a.first + sp + "=" + sp + q + a.second + q; } o += st & 4 ? "\r\n" : "";
	bool empty = t.content.empty() && t.ch.empty();
	if (empty && (st & 1)) { o += st & 8 ? " />" : "/>"; return; }
	o += ">"; if (st & 4) o += "\n ";
	// content is the text before the last child (or the end tag)
	for (size_t i = 0; i < t.ch.size(); i++) { if (i == 0 && !t.content.empty()) o += t.content; wr(t.ch[i], st, o); if (st & 4) o += "\t"; }
	if (t.ch.empty()) o += t.content;
	o += "</" + t.name + ">";
}
static std::string doc(const T& t, int st) { std::string o = st & 4 ? " \n<?xml version = '1.0'\n encoding=\"UTF-8\" ?>\n" : st & 2 ? "<?xml ?>" : "<?xml version=\"1.0\" encoding=\"UTF-8\"?>"; wr(t, st, o); return o; }
static int depthFirst(const Node *n, const std::string& v, const Node **r) { if (n->name == v) { *r = n; return 1; } for (NodeList::const_iterator c = n->child.begin(); c != n->child.end(); ++c) if (depthFirst(*c, v, r)) return 1; return 0; }
static bool tryParse(const std::string& d) // false if refused
{
	mc::Exact x(d); bool ok = true; long l0 = liveBlocks();
	try { cybozu::MiniXml m(x.b(), x.e()); } catch (std::exception&) { ok = false; }
	MC_CHECK(liveBlocks() == l0, "%ld blocks leaked for %s", liveBlocks() - l0, mc::show(d).c_str());
	return ok;
}
static void judge(const T& t, int st, bool prefixes)
{
	std::string d = doc(t, st), why; mc::setWhat("document " + mc::show(d));
	{ mc::Exact x(d); long l0 = liveBlocks();
		try { cybozu::MiniXml m(x.b(), x.e()); bool ok = same(t, &m.get(), 0, why); if (!ok) { std::string w = why; why.clear(); MC_CHECK(false, "%s", w.c_str()); }
			const char *N[] = { "a", "b", "cc", "zz" }; for (int i = 0; i < 4; i++) { const Node *e = 0; depthFirst(&m.get(), N[i], &e); MC_CHECK(m.get().getFirstTagByName(N[i]) == e, "getFirstTagByName(%s)", N[i]); }
			{ std::ostringstream os; os << m; std::string w = os.str(); cybozu::MiniXml m2(w.data(), w.data() + w.size()); T u = t; struct Z { static void z(T& t) { t.content.clear(); for (auto& c : t.ch) z(c); } }; Z::z(u); bool ok2 = same(u, &m2.get(), 0, why); std::string w2; w2.swap(why); MC_CHECK(ok2, "printed document reads back differently: %s in %s", w2.c_str(), mc::show(w).c_str()); }
			m.parse(x.b(), x.e()); ok = same(t, &m.get(), 0, why); { std::string w; w.swap(why); MC_CHECK(ok, "parsed again: %s", w.c_str()); }
		} catch (std::exception& e) { MC_CHECK(false, "refused: %s", std::string(e.what()).c_str()); }
		why = std::string(); MC_CHECK(liveBlocks() == l0, "%ld blocks leaked", liveBlocks() - l0); }
	MC_CHECK(tryParse(d + " \n") , "trailing space refused");
	if (prefixes) for (size_t i = 0; i < d.size(); i++) MC_CHECK(!tryParse(d.substr(0, i)), "prefix of %zu bytes accepted", i);
	mc::eval(!t.ch.empty());
}
void mc_main()
{
	// all trees with up to 4 elements: shapes x names x contents x attributes
	std::vector<std::vector<T> > forest; // trees by size
	const char *names[] = { "a", "b", "cc" };
	{ mc::Section s("trees"); const int N = mc::tier(3, 4);
		// tree shape = parent array; names and decorations enumerated
		for (int n = 1; n <= N; n++) { std::vector<std::vector<int> > par; mc::forSeq(n, n, [&](const std::vector<int>& p) { if (p[0] != 0) return; for (int i = 1; i < n; i++) if (p[i] >= i || p[i] < p[i - 1]) return; par.push_back(p); });
			for (auto& p : par) mc::forSeq(3, n, [&](const std::vector<int>& nm) { mc::forSeq(5, n, [&](const std::vector<int>& dec) { if (!s.pick()) return;
				std::vector<T> e(n); for (int i = 0; i < n; i++) { e[i].name = names[nm[i]]; switch (dec[i]) { case 1: e[i].content = "text with space "; break; case 2: e[i].attr["k"] = "v"; break; case 3: e[i].attr["x"] = ""; e[i].attr["y:z"] = "a > /b"; break; case 4: e[i].content = "&amp;/>'\""; e[i].attr["q"] = "&lt;"; break; } }
				for (int i = n - 1; i > 0; i--) { e[p[i]].ch.insert(e[p[i]].ch.begin(), e[i]); }
				for (int st = 0; st < 16; st++) { if (n == 3 && st > 7) break; judge(e[0], st, n <= 2); } mc::sample(doc(e[0], 0)); }); }); } }
	{ mc::Section s("shapes"); // larger trees, names only; one object parses them all in turn, with a refused document in between
		cybozu::MiniXml used; const int N = mc::tier(6, 7);
		for (int n = 4; n <= N; n++) { std::vector<std::vector<int> > par; mc::forSeq(n, n, [&](const std::vector<int>& p) { if (p[0] != 0) return; for (int i = 1; i < n; i++) if (p[i] >= i || p[i] < p[i - 1]) return; par.push_back(p); });
			for (auto& p : par) mc::forSeq(n < 6 ? 3 : 2, n, [&](const std::vector<int>& nm) { if (!s.pick()) return; std::vector<T> e(n); for (int i = 0; i < n; i++) { e[i].name = names[nm[i]]; if (i % 3 == 2) e[i].attr["k"] = mc::fmt("%d", i); } for (int i = n - 1; i > 0; i--) e[p[i]].ch.insert(e[p[i]].ch.begin(), e[i]);
				judge(e[0], nm[0], false); std::string d = doc(e[0], 0), why; mc::setWhat("document " + mc::show(d) + " parsed by a used object"); if (nm[0]) { std::string bad = d.substr(0, d.size() - 2); try { used.parse(bad.data(), bad.data() + bad.size()); MC_CHECK(false, "prefix accepted"); } catch (std::exception&) { } }
				used.parse(d.data(), d.data() + d.size()); bool ok = same(e[0], &used.get(), 0, why); MC_CHECK(ok, "%s", why.c_str()); mc::eval(); }); } }
	{ mc::Section s("deep"); for (int d = 1; d <= 40; d++) { if (!s.pick()) continue; T t; t.name = "n"; for (int i = 0; i < d; i++) { T u; u.name = mc::fmt("l%d", i); u.ch.push_back(t); if (i & 1) { T w; w.name = "w"; w.content = "c"; u.ch.push_back(w); } t = u; } judge(t, d & 7, true); } }
	{ mc::Section s("corrupt"); // documents with one defect
		const char *B[] = { "<?xml?><a></b>", "<?xml ?><a></b>", "<?xml ?></a>", "<?xml ?><a", "<?xml ?><>", "<?xml ?><a><b></a></b>", "<?xml ?><a x></a>", "<?xml ?><a x=1></a>", "<?xml ?><a x=\"1></a>", "<?xml ?><a x='1\"></a>", "<?xml ?><a =\"1\"></a>", "<?xml ?><a / ></a>", "<?xml ?><a></a", "<?xml ?><a>", "<?xml ?><a>text", "<?xml ?>", "<?xml", "<xml?><a></a>", "<a></a>", "", "<?xml ?><a></ a>", "<?xml ?><a></a b>", "<?xml ?><a></>", "<?xml ?></>", "<?xml ?><a x=\"1\"", "<?xml ?>x<a></a>", "<?xml ?><a></A>", "<?xml ?><a></aa>" };
		for (size_t i = 0; i < sizeof(B) / sizeof(*B); i++) { if (!s.pick()) continue; mc::setWhat(std::string("document ") + mc::show(B[i])); MC_CHECK(!tryParse(B[i]), "accepted"); mc::eval(); } }
	{ mc::Section s("anyText"); // memory and leak safety on arbitrary short texts, and equality of refused/accepted for both iterator types
		mc::forStr("<>/a\"= ", mc::tier(6, 7), [&](const std::string& t) { if (!s.pick()) return; std::string d = "<?xml ?>" + t; mc::setWhat("document " + mc::show(d)); bool a = tryParse(d); bool b = true; long l0 = liveBlocks(); { try { cybozu::MiniXml m; cybozu::minixml::InputStream<std::string::const_iterator> is(d.begin(), d.end()); m.parse(is); } catch (std::exception&) { b = false; } } MC_CHECK(liveBlocks() == l0, "leak"); MC_CHECK(a == b, "pointer and iterator input differ"); mc::eval(a); }); }
	{ mc::Section s("escape"); mc::forStr("&<>'\"aml;", mc::tier(5, 6), [&](const std::string& t) { if (!s.pick()) return; mc::setWhat("text " + mc::show(t)); std::string e; for (char c : t) e += c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '\'' ? "&apos;" : c == '"' ? "&quot;" : std::string(1, c); std::string g = escape(t); MC_CHECK(g == e, "escape gives %s", mc::show(g).c_str()); std::string u; try { u = unescape(g); } catch (std::exception&) { MC_CHECK(false, "unescape(escape) refused"); } MC_CHECK(u == t, "unescape(escape) gives %s", mc::show(u).c_str()); mc::eval(); }); }
	{ mc::Section s("unescape"); const char *P[] = { "&", "amp;", "lt;", "gt;", "apos;", "quot;", "a", "&amp;", "am", ";", "&#38;", "x" }; mc::forSeqUpTo(12, mc::tier(3, 4), [&](const std::vector<int>& v) { if (!s.pick()) return; std::string t; for (int i : v) t += P[i]; mc::setWhat("text " + mc::show(t));
			std::string e; bool ok = true; for (size_t i = 0; i < t.size() && ok; ) { if (t[i] != '&') { e += t[i++]; continue; } const char *E[] = { "&amp;", "&lt;", "&gt;", "&apos;", "&quot;" }; const char C[] = "&<>'\""; int k = 0; for (; k < 5; k++) if (t.compare(i, strlen(E[k]), E[k]) == 0) break; if (k == 5) ok = false; else { e += C[k]; i += strlen(E[k]); } }
			bool g = true; std::string r; mc::Exact x(t); try { r = unescape(t); } catch (std::exception&) { g = false; } MC_CHECK(g == ok && (!ok || r == e), "unescape gives %s %s", g ? "" : "an error", mc::show(r).c_str()); mc::eval(); }); }
	{ mc::Section s("bytes"); for (int c = 0; c < 256; c++) { if (!s.pick()) continue; mc::what("byte %d", c); std::string t(2, (char)c); MC_CHECK(unescape(escape(t)) == t, "escape/unescape"); if (c != '<' && c != '"') { T r; r.name = "a"; r.attr["k"] = t; r.ch.resize(1); r.ch[0].name = "b"; r.ch[0].content = "x" + t + "y"; judge(r, 0, true); } if (!strchr(" \t\r\n=\"'><?/", c) && c) { T r; r.name = std::string("t") + (char)c; r.attr[std::string("k") + (char)c] = "v"; judge(r, 0, true); judge(r, 1, true); } } }
}
