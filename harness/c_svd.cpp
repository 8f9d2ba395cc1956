// nlp/svd.hpp: building blocks, decomposition and text format
#include "util.hpp"
#include <algorithm>
#include <math.h>
#include <cybozu/nlp/svd.hpp>
namespace sv = cybozu::nlp::svd;
typedef Eigen::MatrixXd D; typedef Eigen::MatrixXf Fl; typedef Eigen::SparseMatrix<double, Eigen::RowMajor> Sp;
static std::string g_file;
struct Mute { int fd; Mute() { fflush(stderr); fd = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); } ~Mute() { fflush(stderr); dup2(fd, 2); close(fd); } };
template<class Mx> static std::string show(const Mx& m) { std::string s; for (int i = 0; i < m.rows(); i++) { for (int j = 0; j < m.cols(); j++) s += mc::fmt("%g ", (double)m(i, j)); s += "/"; } return s; }
template<class Mx> static void ortho(const Mx& A, double eps)
{
	Mx Q = A; sv::OrthonormalizeMatrix(Q); MC_CHECK(Q.rows() == A.rows() && Q.cols() == A.cols(), "size changed"); for (int i = 0; i < Q.cols(); i++) { double n = Q.col(i).norm(); MC_CHECK(n == 0 || fabs(n - 1) < eps, "column %d has length %g", i, n); for (int j = 0; j < i; j++) MC_CHECK(fabs(Q.col(i).dot(Q.col(j))) < eps, "columns %d and %d are not orthogonal", i, j); Eigen::VectorXd r(A.rows()); for (int k = 0; k < A.rows(); k++) r(k) = A(k, i); for (int j = 0; j <= i; j++) { double x = 0; for (int k = 0; k < A.rows(); k++) x += r(k) * Q(k, j); for (int k = 0; k < A.rows(); k++) r(k) -= x * Q(k, j); } MC_CHECK(r.norm() < eps * 10, "column %d is not spanned by the first %d results, rest %g", i, i + 1, r.norm()); }
}
template<class Mx, class Vec, class A_> static void decomp(const A_& A, const D& dense, int rank, double eps)
{
	Mx U, V; Vec S; const int m = (int)dense.rows(), n = (int)dense.cols(), r = std::min(std::min(m, n), rank); bool ok = cybozu::nlp::ComputeSVD(U, S, V, A, rank); MC_CHECK(ok == (r > 0), "returned %d", ok); if (!ok || r <= 0) return;
	MC_CHECK(U.rows() == m && U.cols() == r && S.rows() == r && V.rows() == n && V.cols() == r, "sizes"); if (U.rows() != m || U.cols() != r || S.rows() != r || V.rows() != n || V.cols() != r) return;
	D u = U.template cast<double>(), v = V.template cast<double>(), x = u.transpose() * dense * v; for (int i = 0; i < r; i++) { double si = S(i); MC_CHECK(si >= 0 && (i == 0 || si <= S(i - 1)), "singular value %d is %g", i, si); for (int j = 0; j < r; j++) MC_CHECK(fabs(x(i, j) - (i == j ? si : 0)) < eps, "t(U) A V is not diag(S) at %d %d: %g", i, j, x(i, j)); if (si < 1e-3) continue; for (int j = 0; j <= i; j++) { MC_CHECK(fabs(u.col(i).dot(u.col(j)) - (i == j)) < eps && fabs(v.col(i).dot(v.col(j)) - (i == j)) < eps, "vectors %d and %d are not orthonormal", i, j); } }
	if (r == m) { D back = u * S.template cast<double>().asDiagonal() * v.transpose(); MC_CHECK((back - dense).norm() < eps * 10, "U S t(V) differs from A by %g", (back - dense).norm()); }
}
// one line of the text format
static bool num(const std::string& t, double *v) { char *e; if (t.empty()) return false; *v = strtod(t.c_str(), &e); return *e == 0; }
static void put(const std::string& s) { FILE *f = fopen(g_file.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::vector<std::string> words(const std::string& s) { std::vector<std::string> v; std::string c; for (char x : s + " ") { if (x == ' ' || x == '\t' || x == '\r' || x == '\n') { if (!c.empty()) v.push_back(c); c.clear(); } else c += x; } return v; }
void mc_main()
{
	char t[] = "/tmp/mcsvdXXXXXX"; int fd = mkstemp(t); close(fd); g_file = t;
	{ mc::Section s("unit"); for (int row = 1; row <= mc::tier(40, 120); row++) for (int col = 1; col <= row; col++) { if (!s.pick()) continue; mc::what("InitUnitMatrix %d x %d", row, col); D M(row, col); M.setConstant(7); sv::InitUnitMatrix(M); int last = 0, lo = row, hi = 0; std::vector<int> cnt(col); for (int i = 0; i < row; i++) { int at = -1; for (int j = 0; j < col; j++) { MC_CHECK(M(i, j) == 0 || (M(i, j) == 1 && at < 0), "row %d: %g in column %d", i, M(i, j), j); if (M(i, j) == 1) at = j; } MC_CHECK(at >= last && at <= last + 1, "row %d has its 1 in column %d", i, at); if (at < 0) return; last = at; cnt[at]++; } for (int c : cnt) { lo = std::min(lo, c); hi = std::max(hi, c); } MC_CHECK(lo >= 1 && hi - lo <= 1, "column sizes %d..%d", lo, hi); mc::eval(); } }
	{ mc::Section s("compress"); for (int col = 1; col <= mc::tier(30, 50); col++) for (int r = 1; r <= col; r++) { if (!s.pick()) continue; mc::what("CompressCol %d to %d", col, r); D m(2, col), o; for (int j = 0; j < col; j++) { m(0, j) = ldexp(1.0, j); m(1, j) = -j; } sv::CompressCol(o, m, r); MC_CHECK(o.rows() == 2 && o.cols() == r, "size"); int at = 0, lo = col, hi = 0; for (int j = 0; j < r; j++) { uint64_t x = (uint64_t)o(0, j), w = 0; double y = 0; int n = 0; while (at < col && (x >> at & 1)) { w |= 1ULL << at; y -= at; at++; n++; } lo = std::min(lo, n); hi = std::max(hi, n); MC_CHECK(x == w && y == o(1, j), "column %d is not a sum of the next columns", j); } MC_CHECK(at == col && lo >= 1 && hi - lo <= 1, "groups of %d..%d columns, %d used", lo, hi, at); mc::eval(); } }
	{ mc::Section s("decomposition"); const double val[] = { 0, 1, -1, 2, 5 }; const int sz[][3] = { { 1, 1, 5 }, { 1, 2, 5 }, { 2, 1, 5 }, { 1, 3, 5 }, { 3, 1, 5 }, { 2, 2, 5 }, { 2, 3, mc::tier(4, 5) }, { 3, 2, mc::tier(4, 5) }, { 3, 3, mc::tier(3, 4) }, { 4, 2, 3 }, { 2, 4, 3 } };
		for (auto& z : sz) mc::forSeq(z[2], z[0] * z[1], [&](const std::vector<int>& q) { if (!s.pick()) return; D A(z[0], z[1]); for (int i = 0; i < z[0]; i++) for (int j = 0; j < z[1]; j++) A(i, j) = val[q[i * z[1] + j]]; mc::what("matrix %s", show(A).c_str()); Fl F = A.cast<float>(); ortho(A, 1e-9); ortho(D(A / 256), 1e-9); ortho(D(A * 4096), 1e-9); ortho(F, 1e-3); Sp sp(z[0], z[1]); for (int i = 0; i < z[0]; i++) for (int j = 0; j < z[1]; j++) if (A(i, j) != 0) sp.insert(i, j) = A(i, j); sp.makeCompressed();
			for (int r = 0; r <= std::max(z[0], z[1]) + 1; r++) { mc::what("matrix %s rank %d", show(A).c_str(), r); decomp<D, Eigen::VectorXd>(A, A, r, 1e-8); decomp<Fl, Eigen::VectorXf>(F, A, r, 1e-3); decomp<D, Eigen::VectorXd>(sp, A, r, 1e-8); mc::eval(); } }); }
	{ mc::Section s("saveload"); const double val[] = { 0, 1, -1, 0.5, 1234567.5, 1e-7, -3.25e10, 123456789012.0 }; const int sz[][2] = { { 1, 1 }, { 1, 2 }, { 2, 1 }, { 2, 2 } };
		for (auto& z : sz) mc::forSeq(8, z[0] * z[1], [&](const std::vector<int>& q) { if (!s.pick()) return; D A(z[0], z[1]); for (int i = 0; i < z[0]; i++) for (int j = 0; j < z[1]; j++) A(i, j) = val[q[i * z[1] + j]]; mc::what("saved matrix %s", show(A).c_str()); Mute m; auto near = [](double a, double b) { return fabs(a - b) <= fabs(a) * 1e-7; };
			D B(5, 5); B.setConstant(3); MC_CHECK(sv::SaveMatrix(g_file, A) && sv::LoadMatrix(B, g_file) && B.rows() == z[0] && B.cols() == z[1], "dense refused"); for (int i = 0; i < z[0] && B.rows() == z[0] && B.cols() == z[1]; i++) for (int j = 0; j < z[1]; j++) MC_CHECK(near(A(i, j), B(i, j)), "dense (%d,%d) is %g", i, j, B(i, j)); Sp sp(z[0], z[1]), sq; for (int i = 0; i < z[0]; i++) for (int j = 0; j < z[1]; j++) if (A(i, j) != 0) sp.insert(i, j) = A(i, j); sp.makeCompressed();
			{ Sp x; MC_CHECK(!sv::LoadSparseMatrix(x, g_file), "dense file accepted as sparse"); Eigen::VectorXd v; MC_CHECK(!sv::LoadVector(v, g_file), "matrix accepted as vector"); } MC_CHECK(sv::SaveSparseMatrix(g_file, sp) && sv::LoadSparseMatrix(sq, g_file) && sq.rows() == z[0] && sq.cols() == z[1] && sq.nonZeros() == sp.nonZeros(), "sparse refused"); D C; MC_CHECK(sv::LoadMatrix(C, g_file) && C.rows() == z[0] && C.cols() == z[1], "sparse file refused as dense matrix"); if (sq.rows() == z[0] && sq.cols() == z[1] && C.rows() == z[0] && C.cols() == z[1]) for (int i = 0; i < z[0]; i++) for (int j = 0; j < z[1]; j++) MC_CHECK(near(A(i, j), sq.coeff(i, j)) && near(A(i, j), C(i, j)), "sparse (%d,%d) is %g and %g", i, j, sq.coeff(i, j), C(i, j));
			if (z[1] == 1) { Eigen::VectorXd v = A.col(0), w; MC_CHECK(sv::SaveVector(g_file, v) && sv::LoadVector(w, g_file) && w.rows() == z[0], "vector refused"); for (int i = 0; i < z[0] && w.rows() == z[0]; i++) MC_CHECK(near(v(i), w(i)), "vector %d is %g", i, w(i)); D x; MC_CHECK(!sv::LoadMatrix(x, g_file), "vector accepted as matrix"); }
			MC_CHECK(!sv::SaveMatrix("/dev/full", A) && !sv::SaveSparseMatrix("/dev/full", sp) && !sv::SaveMatrix(g_file + "/none", A), "failing write reported as success"); D x; Sp y; Eigen::VectorXd w; MC_CHECK(!sv::SaveVector("/dev/full", Eigen::VectorXd(A.col(0))) && !sv::LoadMatrix(x, g_file + "/none") && !sv::LoadSparseMatrix(y, g_file + "/none") && !sv::LoadVector(w, g_file + "/none"), "failure reported as success"); mc::eval(); }); }
	{ mc::Section s("text"); const char *hd[] = { "# M D 2 2", "# M S 2 2", "# V D 2", "# M S 1 3", "# M D 1 1", "# X D 2 2", "# M X 2 2", "M D 2 2", "# M D 0 2", "# M S 2 0", "# M D -1 2", "# M S 2", "", "# M", "#MS2 2" }; const char *tk[] = { "0:1", "1:2.5", "2:3", "-1:1", "7", "x", "0;1", "1:", ":2", "\n", "-2.5" };
		for (const char *h : hd) mc::forSeqUpTo(11, mc::tier(4, 5), [&](const std::vector<int>& q) { if (!s.pick()) return; std::string body; for (size_t i = 0; i < q.size(); i++) { if (i && q[i] != 9 && q[i - 1] != 9) body += ' '; body += tk[q[i]]; } std::string text = std::string(h) + "\n" + body; mc::what("text %s", mc::show(text).c_str()); put(text);
			std::vector<std::string> w = words(h); if (std::string(h) == "#MS2 2") w = words("# M S 2 2"); bool hdr = w.size() >= 4 && w[0] == "#" && (w[1] == "M" || w[1] == "V") && (w[2] == "S" || w[2] == "D"); int row = hdr ? atoi(w[3].c_str()) : 0, col = hdr && w[1] == "V" ? 1 : hdr && w.size() > 4 ? atoi(w[4].c_str()) : 0; hdr = hdr && row > 0 && col > 0; bool isM = hdr && w[1] == "M", isS = hdr && w[2] == "S"; std::vector<std::string> lines(1); for (char c : body) if (c == '\n') lines.push_back(""); else lines.back() += c; if (lines.back().empty()) lines.pop_back();
			bool okDense = hdr, okSparse = hdr && isM && isS, okVec = hdr && !isM; D want = D::Zero(std::max(row, 1), std::max(col, 1)); bool ordered = true; if (hdr && isS && isM) { okDense = (int)lines.size() >= row; for (int i = 0; i < row && okDense; i++) { int last = -1; std::vector<std::string> ws; for (auto& x : words(lines[i])) if (!ws.empty() && ws.back()[ws.back().size() - 1] == ':') ws.back() += x; else ws.push_back(x); for (auto& x : ws) { size_t c = x.find(':'); double v; int idx = c == std::string::npos ? -1 : atoi(x.substr(0, c).c_str()); if (c == std::string::npos || c == 0 || idx < 0 || idx >= col || !num(x.substr(c + 1), &v)) { okDense = false; break; } if (idx <= last) ordered = false; last = idx; want(i, idx) = v; } } okSparse = okDense && ordered; } else if (hdr) { std::vector<std::string> n = words(body); for (int i = 0; i < row * col; i++) { double v; if (i >= (int)n.size() || !num(n[i], &v)) { // a number directly followed by something else is taken up to there
						if (i < (int)n.size() && i == row * col - 1) { char *e; v = strtod(n[i].c_str(), &e); if (e != n[i].c_str()) { want(i / col, i % col) = v; continue; } } okDense = false; break; } want(i / col, i % col) = v; } okVec = !isM && okDense; }
			Mute m; D A; Sp B; Eigen::VectorXd V; bool a = sv::LoadMatrix(A, g_file), b = sv::LoadSparseMatrix(B, g_file), c = (!isM && isS) ? false : sv::LoadVector(V, g_file); MC_CHECK(a == (isM && okDense), "LoadMatrix returned %d", a); MC_CHECK(b == okSparse, "LoadSparseMatrix returned %d", b); if (!isS) MC_CHECK(c == okVec, "LoadVector returned %d", c);
			if (a && isM && okDense) MC_CHECK(A.rows() == row && A.cols() == col && (A - want).norm() == 0, "matrix %s", show(A).c_str()); if (b && okSparse) { D x(B); MC_CHECK(x.rows() == row && x.cols() == col && (x - want).norm() == 0, "sparse matrix %s", show(x).c_str()); } if (c && okVec) MC_CHECK(V.rows() == row && (V - want.col(0)).norm() == 0, "vector"); mc::eval(a || b || c); }); }
	unlink(g_file.c_str());
}
