// TF-IDF: all small corpora against plain counting
#include "util.hpp"
#include <string>
#include <vector>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <math.h>
#include <cybozu/nlp/tfidf.hpp>
using namespace cybozu::nlp;
typedef std::vector<std::vector<int> > Docs;
static const char *W[] = { "a", "B", "A", "b", "cc", "Cc" };
static std::string low(const std::string& s) { std::string r; for (char c : s) r += c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; return r; }
static void corpora(int nw, int maxTotal, std::function<void(const Docs&)> f)
{
	// 0..nw-1 a word, nw the end of the document
	mc::forSeqUpTo(nw + 1, maxTotal, [&](const std::vector<int>& q) { Docs d(1); for (int i : q) { if (i == nw) d.push_back(std::vector<int>()); else d.back().push_back(i); } f(d); });
}
static std::string show(const Docs& d) { std::string s; for (auto& x : d) { for (int i : x) s += std::string(W[i]) + " "; s += "|"; } return s; }
static std::string g_key;
struct Mute { int fd; Mute() { fflush(stderr); fd = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); } ~Mute() { fflush(stderr); dup2(fd, 2); close(fd); } };
void mc_main()
{
	char t[] = "/tmp/mctfidfXXXXXX"; int fd = mkstemp(t); close(fd); g_key = t; const int n = mc::tier(5, 6);
	{ mc::Section s("Df"); corpora(6, n, [&](const Docs& d) { if (!s.pick()) return; mc::what("documents %s", show(d).c_str()); Df f; std::vector<std::string> order; std::map<std::string, int> df; for (auto& x : d) { std::set<std::string> seen; for (int i : x) { f.append(W[i]); std::string l = low(W[i]); if (!df.count(l)) order.push_back(l); if (seen.insert(l).second) df[l]++; } f.endDoc(); }
			MC_CHECK(f.docNum_ == (int)d.size(), "docNum %d", f.docNum_); MC_CHECK(f.id2word_.size() == order.size() && f.df_.size() == order.size() && f.word2id_.size() == order.size(), "%zu words", f.id2word_.size()); for (size_t i = 0; i < order.size() && i < f.id2word_.size(); i++) MC_CHECK(f.id2word_[i] == order[i] && f.word2id_[order[i]] == (int)i && f.df_[i] == df[order[i]], "word %zu %s frequency %d, expected %s %d", i, f.id2word_[i].c_str(), f.df_[i], order[i].c_str(), df[order[i]]);
			for (int lower = 0; lower <= 2; lower++) for (double rate : { 0.0, 0.5, 1.0 }) { Df g(f); { Mute m; g.term(lower, rate); } std::vector<int> all; for (auto& x : df) if (x.second > lower) all.push_back(x.second); std::sort(all.begin(), all.end()); size_t keep = (size_t)(all.size() * rate); all.resize(keep); MC_CHECK(g.pv_.size() == keep, "%zu words kept, expected %zu", g.pv_.size(), keep); std::set<int> ids; for (size_t i = 0; i < keep && i < g.pv_.size(); i++) { MC_CHECK(g.pv_[i].freq == all[i] && g.df_[g.pv_[i].id] == all[i] && ids.insert(g.pv_[i].id).second, "place %zu: word %d frequency %d, expected frequency %d", i, g.pv_[i].id, g.pv_[i].freq, all[i]); } std::ostringstream os, ex; os << g; for (auto& p : g.pv_) ex << order[p.id] << '\t' << p.freq << '\t' << log(double(d.size())) - log(double(p.freq)) << '\n'; MC_CHECK(os.str() == ex.str(), "output %s", os.str().c_str()); mc::state(); } mc::eval(!order.empty()); }); }
	// keyword lists: known words only
	{ mc::Section s("TfIdf"); const std::vector<std::vector<std::string> > keys = { { "a", "b", "cc" }, { "b" }, {}, { "cc", "a", "cc", "b" }, { "A", "b" } };
		for (size_t ki = 0; ki < keys.size(); ki++) { std::string text; std::vector<std::string> id; for (auto& k : keys[ki]) { text += k + "\t3\t0.5\n"; if (std::find(id.begin(), id.end(), k) == id.end()) id.push_back(k); } bool first = true;
			corpora(6, mc::tier(5, 6), [&](const Docs& d) { if (!s.pick()) return; mc::what("keywords %zu, documents %s", ki, show(d).c_str()); std::ofstream(g_key.c_str(), std::ios::binary) << text; TfIdf f; { Mute m; MC_CHECK(f.loadKeywordFile(g_key), "keyword file refused"); MC_CHECK(!f.loadKeywordFile(g_key + "/nothing"), "missing file accepted"); } MC_CHECK(f.id2word_.size() == id.size() && std::equal(id.begin(), id.end(), f.id2word_.begin()), "keywords");
				std::vector<std::map<int, int> > tf; std::vector<int> df(id.size()); for (auto& x : d) { std::map<int, int> m; for (int i : x) { f.append(W[i]); size_t k = std::find(id.begin(), id.end(), low(W[i])) - id.begin(); if (k < id.size()) { if (!m[(int)k]++) df[k]++; } } f.endDoc(); if (!m.empty()) tf.push_back(m); }
				f.term(); MC_CHECK(f.tf_.size() == tf.size() && f.sv_.size() == tf.size(), "%zu vectors for %zu documents", f.sv_.size(), tf.size()); for (size_t i = 0; i < df.size() && i < f.df_.size(); i++) MC_CHECK(f.df_[i] == df[i], "document frequency of %zu: %d, expected %d", i, f.df_[i], df[i]); for (size_t i = 0; i < tf.size() && i < f.sv_.size(); i++) { DoubleSvec::const_iterator p = f.sv_[i].begin(), e = f.sv_[i].end(); std::map<int, int>::iterator q = tf[i].begin(); for (; p != e && q != tf[i].end(); ++p, ++q) { double want = q->second * (log(double(tf.size())) - log(double(df[q->first]))); MC_CHECK((int)p->pos() == q->first && fabs(p->val() - want) < 1e-12, "document %zu: %d:%g, expected %d:%g", i, (int)p->pos(), p->val(), q->first, want); } MC_CHECK(p == e && q == tf[i].end(), "document %zu: vector of %zu entries, expected %zu", i, f.sv_[i].size(), tf[i].size()); } mc::eval(!tf.empty()); mc::state(); }); (void)first; } }
	unlink(g_key.c_str());
}
