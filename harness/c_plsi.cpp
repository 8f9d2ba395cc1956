// pLSI: all small item x user matrices; the answers must be one consistent probability model that EM only improves
#include "util.hpp"
#include <algorithm>
#include <math.h>
#include <cybozu/nlp/plsi.hpp>
using cybozu::nlp::Plsi;
typedef cybozu::nlp::TopScore<size_t>::Table Tb;
static const double EPS = 1e-9;
static std::vector<double> byId(const Tb& t, size_t n, const char *how) { std::vector<double> v(n, -1); MC_CHECK(t.size() == n, "%s: %zu items, expected %zu", how, t.size(), n); double last = 1e300; for (auto& p : t) { MC_CHECK(p.score >= -EPS && p.score <= 1 + EPS && p.score <= last + EPS, "%s: score %g after %g", how, p.score, last); last = p.score; MC_CHECK(p.idx < n && v[p.idx < n ? p.idx : 0] < 0, "%s: item %zu", how, (size_t)p.idx); if (p.idx < n) v[p.idx] = p.score; } return v; }
static double sum(const std::vector<double>& v) { double s = 0; for (double x : v) s += x; return s; }
void mc_main()
{
	mc::Section s("models"); const int sz[][2] = { { 1, 1 }, { 1, 2 }, { 2, 1 }, { 2, 2 }, { 3, 2 }, { 2, 3 }, { 3, 3 }, { 4, 3 }, { 3, mc::tier(2, 4) } };
	for (auto& z : sz) { int N = z[0], M = z[1]; for (int bits = 1; bits < 1 << (N * M); bits++) { bool full = true; for (int i = 0; i < N; i++) { bool a = false; for (int u = 0; u < M; u++) a |= bits >> (i * M + u) & 1; full &= a; } for (int u = 0; u < M; u++) { bool a = false; for (int i = 0; i < N; i++) a |= bits >> (i * M + u) & 1; full &= a; } if (!full) continue;
		for (int K = 1; K <= 3; K++) for (int again = 0; again < 2; again++) { if (!s.pick()) continue; mc::what("%d items %d users matrix %x, %d topics%s", N, M, bits, K, again ? ", second learning" : "");
			Plsi p; const int ik[] = { 70, -3, 5, 900 }, uk[] = { 8, 1000, -7, 0 }; std::map<int, int> user; std::vector<std::vector<int> > has(N); int total = 0; std::vector<int> deg(M);
			for (int i = 0; i < N; i++) { std::map<size_t, bool> m; for (int u = 0; u < M; u++) if (bits >> (i * M + u) & 1) { m[p.get_user_id(uk[u])] = true; has[i].push_back(u); total++; deg[u]++; } p.getItem(ik[i]).set(m); } for (int u = 0; u < M; u++) { std::set<size_t> ids; MC_CHECK(p.get_user_id(uk[u]) < (size_t)M && p.get_user_id(uk[u]) == p.get_user_id(uk[u]), "user id"); } for (int i = 0; i < N; i++) MC_CHECK(p.get_item_id(ik[i]) == (size_t)i && p.get_item_key(i) == ik[i], "item id %d", i);
			if (again) { p.startLearning(3 - K + 1); p.step(); p.step(0.7); } p.startLearning(K); double prev = -1e300; bool tempered = false;
			for (int step = 0; step < mc::tier(6, 20); step++) { double beta = step == 4 ? 0.8 : 1; double L = p.step(beta); if (!tempered && beta == 1) MC_CHECK(L >= prev - EPS * (1 + fabs(prev)), "step %d: likelihood fell from %.12g to %.12g", step, prev, L); tempered = beta != 1; prev = tempered ? -1e300 : L; if (step == 4) tempered = false;
				std::vector<std::vector<double> > J(N), C(N), P(N); double all = 0; for (int t = 0; t < N; t++) { J[t] = byId(p.similar_items(ik[t], Plsi::JOINT, N), N, "joint"); C[t] = byId(p.similar_items(ik[t], Plsi::CONDITIONAL, N + 3), N, "conditional"); P[t] = byId(p.similar_items(ik[t], Plsi::POSTERIOR, N), N, "posterior"); all += sum(J[t]); MC_CHECK(fabs(sum(C[t]) - 1) < EPS, "conditional probabilities sum up to %.12g", sum(C[t])); }
				MC_CHECK(fabs(all - 1) < EPS, "joint probabilities sum up to %.12g", all); for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) { MC_CHECK(fabs(J[a][b] - J[b][a]) < EPS, "joint probability is not symmetric"); MC_CHECK(fabs(C[a][b] * sum(J[a]) - J[a][b]) < EPS, "conditional and joint disagree"); MC_CHECK(fabs(P[a][b] - C[b][a]) < EPS, "posterior and conditional disagree"); }
				double lp = 0; std::vector<std::vector<double> > Y(M); for (int u = 0; u < M; u++) { Y[u] = byId(p.search_items(uk[u], N), N, "search"); MC_CHECK(fabs(sum(Y[u]) - 1) < EPS, "p(item|user) sums up to %.12g", sum(Y[u])); } for (int i = 0; i < N; i++) for (int u : has[i]) lp += log(Y[u][i]); double pp = p.perplexity(); MC_CHECK(fabs(pp - exp(-lp / total)) < 1e-7 * pp, "perplexity %.12g, expected %.12g", pp, exp(-lp / total)); MC_CHECK(pp >= 1 - EPS && pp <= N + EPS, "perplexity %g of %d items", pp, N);
				// marginals of an EM step are those of the data
				if (beta == 1) { std::vector<double> want(N); for (int i = 0; i < N; i++) want[i] = double(has[i].size()) / total; for (int i = 0; i < N; i++) MC_CHECK(fabs(sum(J[i]) - want[i]) < EPS, "p(item %d) is %g, expected %g", i, sum(J[i]), want[i]); for (int i = 0; i < N; i++) { double x = 0; for (int u = 0; u < M; u++) x += Y[u][i] * deg[u] / total; MC_CHECK(fabs(x - want[i]) < EPS, "sum of p(item %d|user)p(user) is %g, expected %g", i, x, want[i]); } }
				if (K == 1) for (int u = 0; u < M; u++) for (int i = 0; i < N; i++) MC_CHECK(fabs(Y[u][i] - double(has[i].size()) / total) < EPS, "one topic: p(item %d) %g", i, Y[u][i]);
				if (K == 1 && beta == 1 && step > 0 && step != 5) { double want = 0; for (int i = 0; i < N; i++) for (int u : has[i]) want += log(double(has[i].size()) / total) + log(double(deg[u]) / total); MC_CHECK(fabs(L - want) < 1e-7, "one topic: likelihood %.12g, expected %.12g", L, want); }
				if (N > 1) { Tb one = p.search_items(uk[0], 1); double mx = *std::max_element(Y[0].begin(), Y[0].end()); MC_CHECK(one.size() == 1 && one[0].score == mx, "best item"); }
				MC_CHECK(p.search_items(424242).empty() && p.similar_items(424242, Plsi::JOINT).empty() && p.similar_items(424242, Plsi::CONDITIONAL).empty() && p.similar_items(424242, Plsi::POSTERIOR).empty(), "an unknown user or item has an answer"); mc::eval(); mc::state(); }
		} } }
}
