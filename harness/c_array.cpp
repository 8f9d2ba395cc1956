// AlignedArray and ScopedArray: all short operation histories against std::vector, with every allocation failing in turn
#include "util.hpp"
#include <vector>
static long g_live, g_calls, g_failAt = -1; static size_t g_align, g_size;
extern "C" int __real_posix_memalign(void **, size_t, size_t); extern "C" void __real_free(void *);
static bool g_on; static std::set<void*> *g_ptr;
extern "C" int __wrap_posix_memalign(void **p, size_t a, size_t n) { g_align = a; g_size = n; if (g_on && g_calls++ == g_failAt) return 12; if (n > ((size_t)1 << 40)) return 12; int r = __real_posix_memalign(p, a, n); if (r == 0) { memset(*p, 0xcc, n); g_live++; if (g_ptr) g_ptr->insert(*p); } return r; }
extern "C" void __wrap_free(void *p) { if (p && g_ptr && g_ptr->erase(p)) g_live--; __real_free(p); }
#include <cybozu/array.hpp>
template<class T, size_t N, bool D> struct Run {
	typedef cybozu::AlignedArray<T, N, D> A; typedef std::vector<int> M; // -1 : any value
	static T v(int i) { return (T)(i * 3 + 1); }
	static bool same(const A& a, const M& m) { A& b = const_cast<A&>(a); if (b.begin() != a.begin() || b.end() != a.end() || b.data() != a.data() || (m.size() && &b[0] != a.data())) return false; if (a.size() != m.size() || a.empty() != m.empty() || a.end() - a.begin() != (ptrdiff_t)m.size() || a.cend() - a.cbegin() != (ptrdiff_t)m.size() || a.data() != a.begin() || ((uintptr_t)a.data() % N)) return false; for (size_t i = 0; i < m.size(); i++) if (m[i] >= 0 && a[i] != (m[i] ? v(m[i]) : (T)0)) return false; return true; }
	static void check(A *a[2], M m[2], const char *w) { for (int i = 0; i < 2; i++) MC_CHECK(same(*a[i], m[i]), "%s: array %d (size %zu, expected %zu)", w, i, (size_t)a[i]->size(), m[i].size()); }
	static void rs(M& m, size_t n, bool clear) { size_t o = m.size(); m.resize(n, 0); if (!clear) for (size_t i = o; i < n; i++) m[i] = -1; }
	static void fill(A& a, M& m, int& c) { for (size_t i = 0; i < m.size(); i++) if (m[i] <= 0) { m[i] = ++c; a[i] = v(m[i]); } }
	static void go(const char *nm, int len)
	{
		mc::Section s(nm); mc::forSeqUpTo(12, len, [&](const std::vector<int>& q) { if (!s.pick()) return; std::string w; for (int i : q) w += (char)('a' + i); mc::what("%s ops %s", nm, w.c_str()); long total = 0; std::set<void*> ptr; g_ptr = &ptr;
			for (long f = -1; f < total; f++) { g_live = 0; g_calls = 0; g_failAt = f; g_on = true; int c = 0; A *a[2] = { 0, 0 }; M m[2]; try { a[0] = new A(); a[1] = new A(2); rs(m[1], 2, D); } catch (std::bad_alloc&) { delete a[0]; delete a[1]; MC_CHECK(f >= 0, "bad_alloc without a failure"); MC_CHECK(g_live == 0, "leak"); continue; } check(a, m, "new");
				for (int op : q) { M b[2] = { m[0], m[1] }; bool thr = false; try { switch (op) { case 0: rs(b[0], b[0].size() + 1, D); a[0]->resize(b[0].size()); break; case 1: rs(b[0], b[0].size() + 3, true); a[0]->resize(b[0].size(), true); break; case 2: rs(b[0], b[0].size() + 2, false); a[0]->resize(b[0].size(), false); break; case 3: b[0].resize(b[0].size() / 2); a[0]->resize(b[0].size()); break; case 4: b[0].clear(); a[0]->clear(); break; case 5: b[0] = b[1]; *a[0] = *a[1]; break; case 6: b[1] = b[0]; *a[1] = *a[0]; break; case 7: std::swap(b[0], b[1]); a[0]->swap(*a[1]); break; case 8: { b[0] = b[1]; b[1].clear(); *a[0] = std::move(*a[1]); break; } case 9: { A *n = new A(*a[1]); delete a[0]; a[0] = n; b[0] = b[1]; break; } case 10: { A *n = new A(std::move(*a[0])); MC_CHECK(same(*a[0], M()), "moved-from array of size %zu", (size_t)a[0]->size()); g_on = false; a[0]->resize(3, true); M z(3, 0); MC_CHECK(same(*a[0], z), "moved-from array cannot be used again"); g_on = true; delete a[0]; a[0] = n; break; } default: { A& r = *a[0]; *a[0] = r; fill(*a[0], b[0], c); } } } catch (std::bad_alloc&) { thr = true; } if (!thr) { m[0] = b[0]; m[1] = b[1]; } else MC_CHECK(f >= 0, "bad_alloc without a failure"); check(a, m, thr ? "after bad_alloc" : "after an operation"); fill(*a[0], m[0], c); fill(*a[1], m[1], c); check(a, m, "after writing"); mc::state(); }
				for (size_t big : { ((size_t)-1) / sizeof(T), ((size_t)-1) / sizeof(T) + 1, (size_t)-1, (size_t)-1 / 2, (size_t)1 << 50 }) { bool thr = false; if (big * sizeof(T) / sizeof(T) == big && big <= ((size_t)1 << 40)) continue; g_on = false; try { a[0]->resize(big, false); } catch (std::bad_alloc&) { thr = true; } MC_CHECK(thr, "resize(%zu) accepted", big); if (!thr) _exit(99); thr = false; try { A x(big, false); } catch (std::bad_alloc&) { thr = true; } MC_CHECK(thr, "array of %zu accepted", big); g_on = true; check(a, m, "after a refused resize"); }
				delete a[0]; delete a[1]; MC_CHECK(g_live == 0, "%ld blocks leaked or freed twice", g_live); if (f < 0) total = g_calls; } g_on = false; g_failAt = -1; g_ptr = 0; mc::eval(!q.empty()); });
	}
};
struct Obj { static long live; static long failAt; int x; Obj() : x(5) { if (failAt >= 0 && failAt-- == 0) throw 1; live++; } ~Obj() { live--; } }; long Obj::live; long Obj::failAt = -1;
void mc_main()
{
	{ mc::Section d("defaults"); if (d.pick()) { mc::what("default template arguments"); MC_CHECK((std::is_same<cybozu::AlignedArray<int>, cybozu::AlignedArray<int, 16, true> >::value), "AlignedArray<T> is not 16 byte aligned and cleared"); mc::eval(); } }
	int n = mc::tier(3, 4); Run<int, 16, true>::go("int 16", n); Run<uint8_t, 32, false>::go("uint8_t 32 no clear", n); Run<uint64_t, 64, true>::go("uint64_t 64", n); Run<uint16_t, 8, false>::go("uint16_t 8 no clear", n);
	mc::Section s("scoped"); for (int k = 0; k < 9; k++) for (int f = -1; f < k; f++) { if (!s.pick()) continue; mc::what("ScopedArray of %d, constructor %d fails", k, f); Obj::live = 0; Obj::failAt = f; bool thr = false; try { cybozu::ScopedArray<Obj> a(k); MC_CHECK(Obj::live == k && a.size() == (size_t)k && a.empty() == (k == 0) && a.end() - a.begin() == k && a.data() == a.begin(), "contents"); for (int i = 0; i < k; i++) MC_CHECK(a[i].x == 5 && &a[i] == a.begin() + i, "element"); const cybozu::ScopedArray<Obj>& ca = a; MC_CHECK(ca.begin() == a.begin() && ca.end() == a.end() && ca.data() == a.data() && ca.size() == a.size() && (k == 0 || &ca[0] == &a[0]), "const access"); } catch (int) { thr = true; } MC_CHECK(thr == (f >= 0) && Obj::live == 0, "%ld objects alive", Obj::live); Obj::failAt = -1; mc::eval(k > 0); }
	{ mc::Section s2("sizes"); // every pair and triple of sizes around the powers of two: grown part cleared, kept part unchanged
		std::vector<size_t> z = { 0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 33, 255, 256, 257, 4097, 70000 };
		for (size_t a : z) for (size_t b : z) for (size_t c : z) { if (!s2.pick()) continue; mc::what("sizes %zu, %zu, %zu", a, b, c); g_on = false;
			cybozu::AlignedArray<int> x(a); bool ok = x.size() == a; for (size_t i = 0; i < a; i++) { ok = ok && x[i] == 0; x[i] = (int)i + 1; } x.resize(b); ok = ok && x.size() == b; for (size_t i = 0; i < b; i++) { ok = ok && x[i] == (i < a ? (int)i + 1 : 0); x[i] = -(int)i - 1; } MC_CHECK(ok, "wrong after the first resize");
			x.resize(c); ok = x.size() == c; for (size_t i = 0; i < c; i++) ok = ok && x[i] == (i < b ? -(int)i - 1 : 0); MC_CHECK(ok, "wrong after the second resize"); cybozu::AlignedArray<int> y(b), w(x); for (size_t i = 0; i < b; i++) y[i] = 77; y = x; ok = y.size() == c && w.size() == c; for (size_t i = 0; i < c; i++) ok = ok && y[i] == x[i] && w[i] == x[i]; MC_CHECK(ok, "copies differ");
			w = std::move(y); ok = w.size() == c && y.size() == 0; for (size_t i = 0; i < c; i++) ok = ok && w[i] == x[i]; MC_CHECK(ok, "move differs"); mc::eval(); } }
}
