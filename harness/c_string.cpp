// cybozu::String behaves like std::basic_string under every operation sequence
#include "mc.hpp"
#include <cybozu/string.hpp>
#include <cybozu/serializer.hpp>
#include <cybozu/stream.hpp>
#include <algorithm>
#include <stdexcept>
typedef cybozu::String S; typedef std::basic_string<cybozu::Char> B; typedef cybozu::Char C;
static const size_t NP = size_t(-1);
struct St { S a, b; B x, y; };
static std::string sh(const B& b) { std::string r; for (size_t i = 0; i < b.size(); i++) r += mc::fmt("%x.", (int)b[i]); return r; }
// run the same operation on String and on the reference; compare outcome
template<class F, class G> static void both(St& s, const char *name, F f, G g)
{
	int ef = 0, eg = 0; long rf = 0, rg = 0;
	try { rf = f(s.a, s.b); } catch (std::out_of_range&) { ef = 1; } catch (std::exception&) { ef = 2; }
	try { rg = g(s.x, s.y); } catch (std::out_of_range&) { eg = 1; } catch (std::exception&) { eg = 2; }
	MC_CHECK(ef == eg && (ef || rf == rg), "%s: outcome %d/%ld, std::basic_string %d/%ld", name, ef, rf, eg, rg);
	MC_CHECK(s.a.get() == s.x && s.b.get() == s.y, "%s: contents %s / %s, expected %s / %s", name, sh(s.a.get()).c_str(), sh(s.b.get()).c_str(), sh(s.x).c_str(), sh(s.y).c_str());
	MC_CHECK(s.a.size() == s.x.size() && s.a.length() == s.x.size() && s.a.empty() == s.x.empty() && s.a.c_str()[s.a.size()] == 0, "%s: size/terminator", name);
}
struct Op { const char *name; std::function<void(St&)> run; };
#define OP(text) ops.push_back(Op{ #text, [](St& s) { both(s, #text, [](S& a, S& b) -> long { (void)b; text; return 0; }, [](B& a, B& b) -> long { (void)b; text; return 0; }); } });
#define OP2(t1, t2) ops.push_back(Op{ #t1, [](St& s) { both(s, #t1, [](S& a, S& b) -> long { (void)b; t1; return 0; }, [](B& a, B& b) -> long { (void)b; t2; return 0; }); } });
#define OPR(text) ops.push_back(Op{ #text, [](St& s) { both(s, #text, [](S& a, S& b) -> long { (void)b; return (long)(text); }, [](B& a, B& b) -> long { (void)b; return (long)(text); }); } });
static const C W[] = { 'k', 0x3042, 0x1f600, 0 }; static const C L20[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 0 };
static std::vector<Op> makeOps()
{
	std::vector<Op> ops;
	OP(a = a) OP(a = b) OP(b = a) OP(a += a) OP(a += b) OP(a.append(b)) OP(a.append(a)) OP(a.append(a.data(), a.size())) OP(a.append(a.c_str())) OP(a.append(a, 1, NP)) OP(a.append(b, 0, 1)) OP(a.append(W, 2)) OP(a.append(W)) OP(a.append(2, 'z')) OP(a += C('q')) OP(a += L20) OP(a.append(L20, 20)) OP(a.append(W, W + 3)) OP(a.append(b.begin(), b.end()))
	OP(a.assign(b)) OP(a.assign(a)) OP(a.assign(a, 1, 1)) OP(a.assign(a, 0, 2)) OP(a.assign(b, 1, NP)) OP(a.assign(a.c_str())) OP(a.assign(a.data() + a.size() / 2, a.size() - a.size() / 2)) OP(a.assign(W, 3)) OP(a.assign(W)) OP(a.assign(3, 'w')) OP(a = W) OP(a = C('e')) OP(a.assign(W, W + 2)) OP(a.assign(b.begin(), b.end())) OP(a.assign(L20)) OP(a.assign(size_t(0), C('w'))) OP(a.append(size_t(0), C('w'))) OP(a.assign(W, size_t(0))) OP(a.append(W, size_t(0))) OP(a.assign(b, b.size() / 2, 0)) OP(a.assign(b.begin(), b.begin())) OP(a.replace(0, NP, size_t(0), C('w'))) OP(a.insert(0, size_t(0), C('w'))) OP(a.replace(a.begin(), a.end(), b.begin(), b.begin())) OP(a.assign(W + 3, W + 3)) OP(a.replace(a.size() / 2, NP, W, 0)) OP(a.resize(0)) OP2(a = "", a.clear()) OP2(a.assign(""), a.clear()) OP2(a.assign(std::string()), a.clear()) OP2(a = std::string(), a.clear()) OP2(a.assign("qq", 0), a.clear()) OP2(a.append("qq", 0), a.size())
	OP(a.append(a.begin(), a.end())) OP(a.append(a.begin() + a.size() / 2, a.end())) OP(a.append(a.rbegin(), a.rend())) OP(a.append(a.data(), a.data() + a.size())) OP(a.assign(a.begin(), a.end())) OP(a.assign(a.begin() + a.size() / 2, a.end())) OP(a.assign(a.rbegin(), a.rend())) OP(a.assign(a.data(), a.data() + a.size() / 2)) OP(a.insert(a.begin(), a.begin(), a.end())) OP(a.replace(a.begin(), a.end(), a.begin() + a.size() / 2, a.end()))
	OP(a.insert(0, b)) OP(a.insert(1, a)) OP(a.insert(a.size(), b)) OP(a.insert(a.size() + 1, b)) OP(a.insert(1, b, 1, 2)) OP(a.insert(0, W, 2)) OP(a.insert(1, W)) OP(a.insert(0, 2, 'i')) OP(a.insert(a.begin(), 'h')) OP(a.insert(a.end(), size_t(2), 'j')) OP(a.insert(a.begin(), W, W + 3)) OP(a.insert(a.end(), b.begin(), b.end())) OPR(*a.insert(a.begin(), C('r')))
	OP(a.erase()) OP(a.erase(1)) OP(a.erase(1, 1)) OP(a.erase(a.size() + 1)) OP(if (!a.empty()) a.erase(a.begin())) OP(a.erase(a.begin(), a.begin() + a.size() / 2)) OP(a.clear()) OPR(a.empty() ? -1 : a.erase(a.begin()) - a.begin())
	OP(a.replace(0, 1, b)) OP(a.replace(1, NP, b)) OP(a.replace(0, 2, a)) OP(a.replace(1, 1, b, 1, 1)) OP(a.replace(0, 1, W, 3)) OP(a.replace(1, 2, W)) OP(a.replace(0, 3, 2, 'p')) OP(a.replace(a.size() + 1, 0, b)) OP(a.replace(a.begin(), a.end(), b)) OP(a.replace(a.begin(), a.begin() + a.size() / 2, W, 2)) OP(a.replace(a.begin(), a.end(), W)) OP(a.replace(a.begin() + a.size() / 2, a.end(), size_t(3), 'u')) OP(a.replace(a.begin(), a.begin() + a.size() / 2, W, W + 3)) OP(a.replace(a.begin(), a.end(), b.begin(), b.end()))
	OP(a.push_back('y')) OP(if (!a.empty()) a.pop_back()) OP(a.resize(2)) OP(a.resize(6, 'm')) OP(a.resize(0)) OP(a.reserve(100)) OP(a.shrink_to_fit()) OP(a.swap(b)) OP2(cybozu::swap(a, b), a.swap(b)) OP(if (!a.empty()) a.front() = 'F') OP(if (!a.empty()) a.back() = 'G') OP(if (!a.empty()) a[a.size() / 2] = 'H') OP(a.at(1) = 'I') OP(std::reverse(a.begin(), a.end())) OP(std::sort(a.begin(), a.end()))
	OP(a = a + b) OP(a = b + a + b) OP(a = a + W) OP2(a = S(b), a = B(b)) OP2(a = S(b, 1), a = B(b, 1)) OP2(a = S(b, 0, 2), a = B(b, 0, 2)) OP2(a = S(W), a = B(W)) OP2(a = S(W, 2), a = B(W, 2)) OP2(a = S(3, 'c'), a = B(3, 'c')) OP2(a = S(b.begin(), b.end()), a = B(b.begin(), b.end())) OP2(a = S(W, W + 3), a = B(W, W + 3)) OP2(a = S(b.get()), a = B(b)) OP2(a = S(), a = B())
	OP2({ S t(a); a = std::move(t); }, { B t(a); a = std::move(t); }) OP2({ S t(std::move(a)); a = t; }, { B t(std::move(a)); a = t; }) OP2({ S t(b); a.assign(std::move(t)); }, a = b) OP(a = a.substr(1)) OP(a = a.substr(0, 2)) OP(a = b.substr(b.size() / 2, 1))
	OPR(a.at(0)) OPR(a.at(a.size())) OPR(a.find(b)) OPR(a.rfind(b)) OPR(a.compare(b) < 0) OPR(a == b) OPR(a < b) OPR(a != b) OPR(a <= b) OPR(a >= b) OPR(a > b)
	OP2({ a = "ab\xe3\x81\x82"; }, { a.clear(); a += C('a'); a += C('b'); a += C(0x3042); }) OP2(a.append(std::string("\xf0\x9f\x98\x80")), a += C(0x1f600)) OP2(a += S("x"), a += C('x')) OP2(a = std::string("p\0q", 3), { a.assign(3, 'p'); a[1] = 0; a[2] = 'q'; })
	OP2({ std::string t; cybozu::StringOutputStream os(t); cybozu::save(os, a); cybozu::StringInputStream is(t); b = "zz"; cybozu::load(b, is); }, b = a)
	return ops;
}
static void init(St& s, int k)
{
	static const C I[][8] = { { 0 }, { 'a', 0 }, { 'a', 'b', 0 }, { 0x3042, 'a', 0x10ffff, 'b', 0 } };
	s.x = I[k & 3]; s.y = I[k >> 2 & 3]; if (k & 16) { s.x += L20; s.y += L20; }
	s.a = S(s.x); s.b = S(s.y);
}
#define Q(text) MC_CHECK((size_t)(a.text) == (size_t)(x.text), #text " with off %zd n %zd: %zd, expected %zd", (ssize_t)o, (ssize_t)n, (ssize_t)(a.text), (ssize_t)(x.text));
#define QB(text) { const S& r = sb; size_t g; { g = a.text; } { const B& r = y; size_t e = x.text; MC_CHECK(g == e, #text " off %zd: %zd, expected %zd", (ssize_t)o, (ssize_t)g, (ssize_t)e); } }
static int sgn(int v) { return v < 0 ? -1 : v > 0; }
void mc_main()
{
	std::vector<Op> ops = makeOps(); const size_t N = ops.size(); mc::g().notes["operations"] = N;
	{ mc::Section s("seq2"); for (int k = 0; k < 32; k++) for (size_t i = 0; i < N; i++) { if (!s.pick()) continue; for (size_t j = 0; j < N; j++) { St t; init(t, k); mc::what("start %d: %s; %s", k, ops[i].name, ops[j].name); ops[i].run(t); ops[j].run(t); mc::eval(); } mc::trans(2 * N); mc::sample(mc::g().sh->what); } }
	{ mc::Section s("seq3"); for (int k = 0; k < 16; k += mc::tier(5, 1)) for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) { if (!s.pick()) continue; for (size_t l = 0; l < N; l++) { St t; init(t, k); mc::what("start %d: %s; %s; %s", k, ops[i].name, ops[j].name, ops[l].name); ops[i].run(t); ops[j].run(t); ops[l].run(t); mc::eval(); } mc::trans(3 * N); } }
	{ mc::Section s("queries"); // the search family: all texts, patterns and offsets
		std::vector<B> T; const C al[] = { 'a', 0x3042, 0x1f600 }; T.push_back(B()); size_t b0 = 0; for (int n = 0; n < 4; n++) { size_t e = T.size(); for (size_t i = b0; i < e; i++) for (int c = 0; c < 3; c++) T.push_back(T[i] + al[c]); b0 = e; }
		for (size_t i = 0; i < T.size(); i++) for (size_t j = 0; j < T.size() && T[j].size() <= 2; j++) { if (!s.pick()) continue; const B &x = T[i], &y = T[j]; S a(x), sb(y); mc::what("text %s pattern %s", sh(x).c_str(), sh(y).c_str());
			for (int oi = -1; oi <= 6; oi++) { size_t o = (size_t)oi, n = 0; const C c = y.empty() ? 'a' : y[0]; const C *p = y.c_str();
				QB(find(r, o)) QB(rfind(r, o)) QB(find_first_of(r, o)) QB(find_last_of(r, o)) QB(find_first_not_of(r, o)) QB(find_last_not_of(r, o))
				Q(find(p, o)) Q(rfind(p, o)) Q(find_first_of(p, o)) Q(find_last_of(p, o)) Q(find_first_not_of(p, o)) Q(find_last_not_of(p, o)) Q(find(c, o)) Q(rfind(c, o)) Q(find_first_of(c, o)) Q(find_last_of(c, o)) Q(find_first_not_of(c, o)) Q(find_last_not_of(c, o))
				for (n = 0; n <= y.size(); n++) { Q(find(p, o, n)) Q(rfind(p, o, n)) Q(find_first_of(p, o, n)) Q(find_last_of(p, o, n)) Q(find_first_not_of(p, o, n)) Q(find_last_not_of(p, o, n)) } 
				if (oi >= 0 && o <= x.size()) for (n = 0; n <= 4; n++) { MC_CHECK(a.substr(o, n).get() == x.substr(o, n), "substr"); C d1[8] = { 9, 9, 9, 9, 9, 9, 9, 9 }, d2[8] = { 9, 9, 9, 9, 9, 9, 9, 9 }; MC_CHECK(a.copy(d1, n, o) == x.copy(d2, n, o) && !memcmp(d1, d2, sizeof d1), "copy");
					MC_CHECK(sgn(a.compare(o, n, sb)) == sgn(x.compare(o, n, y)) && sgn(a.compare(o, n, p)) == sgn(x.compare(o, n, p)), "compare(off, n, rhs)"); for (size_t q = 0; q <= y.size(); q++) for (size_t m = 0; m <= 2; m++) MC_CHECK(sgn(a.compare(o, n, sb, q, m)) == sgn(x.compare(o, n, y, q, m)) && (m > y.size() || sgn(a.compare(o, n, p, m)) == sgn(x.compare(o, n, p, m))), "compare(off, n, rhs, off, count)"); } }
			{ size_t o = 0, n = 0; QB(find(r)) QB(rfind(r)) QB(find_first_of(r)) QB(find_last_of(r)) QB(find_first_not_of(r)) QB(find_last_not_of(r)) }
			mc::eval(!x.empty()); } }
	{ mc::Section s("order"); std::vector<B> T; const C al[] = { 'a', 'b', 0x3042, 0x1f600 }; T.push_back(B()); size_t b0 = 0; for (int n = 0; n < 3; n++) { size_t e = T.size(); for (size_t i = b0; i < e; i++) for (int c = 0; c < 4; c++) T.push_back(T[i] + al[c]); b0 = e; }
		for (size_t i = 0; i < T.size(); i++) { if (!s.pick()) continue; for (size_t j = 0; j < T.size(); j++) { const B &x = T[i], &y = T[j]; S a(x), b(y); const C *p = y.c_str(); const int c = x.compare(y); mc::what("%s against %s", sh(x).c_str(), sh(y).c_str());
			MC_CHECK(sgn(a.compare(b)) == sgn(c) && sgn(a.compare(p)) == sgn(c), "compare");
			MC_CHECK((a == b) == (c == 0) && (a != b) == (c != 0) && (a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0), "operators with String");
			MC_CHECK((a == p) == (c == 0) && (a != p) == (c != 0) && (a < p) == (c < 0) && (a > p) == (c > 0) && (a <= p) == (c <= 0) && (a >= p) == (c >= 0), "operators with Char*");
			MC_CHECK((p == a) == (c == 0) && (p != a) == (c != 0) && (p < a) == (c > 0) && (p > a) == (c < 0) && (p <= a) == (c >= 0) && (p >= a) == (c <= 0), "operators with Char* on the left");
			MC_CHECK((y == a) == (c == 0) && (y != a) == (c != 0) && (y < a) == (c > 0) && (y > a) == (c < 0) && (y <= a) == (c >= 0) && (y >= a) == (c <= 0), "operators with basic_string on the left");
			std::string u = b.toUtf8(); MC_CHECK((u == a) == (c == 0) && (u != a) == (c != 0) && (u < a) == (c > 0) && (u > a) == (c < 0) && (u <= a) == (c >= 0) && (u >= a) == (c <= 0), "operators with std::string on the left");
			MC_CHECK((a == u) == (c == 0) && (a < u) == (c < 0), "operators with std::string");
			cybozu::String16 w = b.toUtf16(); const cybozu::Char16 *q = w.c_str(); MC_CHECK((q == a) == (c == 0) && (q != a) == (c != 0) && (q < a) == (c > 0) && (q > a) == (c < 0) && (q <= a) == (c >= 0) && (q >= a) == (c <= 0), "operators with Char16* on the left");
			if (c == 0) MC_CHECK(std::hash<S>()(a) == std::hash<S>()(b), "hash values of equal strings");
			MC_CHECK((a + b).get() == x + y && (a + p).get() == x + y, "operator+"); mc::eval(); } } }
}
