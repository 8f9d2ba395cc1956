// BitVectorT and its bit functions against vector<bool>
#include "util.hpp"
#include <memory>
#include <cybozu/bitvector.hpp>
typedef std::vector<bool> VB;
template<class T> static size_t U_(const cybozu::BitVectorT<T>&) { return sizeof(T) * 8; }
static uint64_t pat(int kind, int i) { switch (kind) { case 0: return 0; case 1: return ~0ull; case 2: return 0x8000000000000001ull * (i & 1 ? 3 : 1); case 3: return 0x9e3779b97f4a7c15ull * (i + 1); case 4: return 0xa5a5a5a5a5a5a5a5ull ^ (0x0123456789abcdefull * i); default: return 0x5555555555555555ull; } }
template<class T> struct Buf { // n bits in exactly the units needed, garbage above
	std::unique_ptr<T[]> p; size_t n; Buf(size_t bits, int kind, bool garbage) : n((bits + sizeof(T) * 8 - 1) / (sizeof(T) * 8)) { p.reset(new T[n]); for (size_t i = 0; i < n; i++) p[i] = (T)pat(kind, (int)i); size_t r = bits % (sizeof(T) * 8); if (r) { T m = (T)((((T)1 << r) - 1)); if (garbage) p[n - 1] |= (T)~m; else p[n - 1] &= m; } }
	bool bit(size_t i) const { return (p[i / (sizeof(T) * 8)] >> (i % (sizeof(T) * 8))) & 1; } };
template<class T> static bool same(const cybozu::BitVectorT<T>& v, const VB& r, std::string& why)
{
	const size_t U = sizeof(T) * 8; if (v.size() != r.size()) { why = mc::fmt("size %zu, expected %zu", v.size(), r.size()); return false; }
	for (size_t i = 0; i < r.size(); i++) if (v.get(i) != r[i]) { why = mc::fmt("bit %zu is %d", i, (int)v.get(i)); return false; }
	if (v.getBlockSize() != (r.size() + U - 1) / U) { why = "block size"; return false; }
	if (r.size()) { const T *b = v.getBlock(); for (size_t i = 0; i < v.getBlockSize() * U; i++) if (((b[i / U] >> (i % U)) & 1) != (i < r.size() ? (int)r[i] : 0)) { why = mc::fmt("block bit %zu", i); return false; } }
	return true;
}
template<class T> static void family(const char *nm)
{
	typedef cybozu::BitVectorT<T> BV; const int U = (int)sizeof(T) * 8;
	const std::vector<int> L = { 0, 1, U / 2 - 1, U - 1, U, U + 1, 2 * U - 1, 2 * U, 2 * U + 3, 3 * U }; // critical lengths
	struct Op { std::string name; std::function<void(BV&, VB&)> f; }; std::vector<Op> ops;
	for (int l : L) { ops.push_back({ mc::fmt("resize %d", l), [=](BV& v, VB& r) { v.resize(l); r.resize(l); } });
		for (int k : { 1, 3 }) { ops.push_back({ mc::fmt("append %d kind %d", l, k), [=](BV& v, VB& r) { Buf<T> b(l, k, true); v.append(b.p.get(), l); for (int i = 0; i < l; i++) r.push_back(b.bit(i)); } });
			ops.push_back({ mc::fmt("init %d kind %d", l, k), [=](BV& v, VB& r) { Buf<T> b(l, k, true); v.init(b.p.get(), l); r.clear(); for (int i = 0; i < l; i++) r.push_back(b.bit(i)); } }); } }
	for (int l : { 0, 1, U / 2, U - 1, U, U + 1 }) for (uint64_t x : { (uint64_t)~0ull, (uint64_t)0xa5c3f00f96e1d2b7ull }) ops.push_back({ mc::fmt("append value %llx len %d", (unsigned long long)x, l), [=](BV& v, VB& r) { bool thr = false; try { v.append(x, (size_t)l); } catch (cybozu::Exception&) { thr = true; } if (thr != (l > U)) mc::fail("append of %d bits %s", l, thr ? "refused" : "accepted"); if (!thr) for (int i = 0; i < l; i++) r.push_back(i < 64 && (x >> i) & 1); } });
	ops.push_back({ "append self", [](BV& v, VB& r) { v.append(v); VB c = r; r.insert(r.end(), c.begin(), c.end()); } });
	ops.push_back({ "append other", [](BV& v, VB& r) { BV o; VB c; o.resize(U_(v) + 3); c.resize(o.size()); for (size_t i = 0; i < c.size(); i += 3) { o.set(i); c[i] = true; } v.append(o); r.insert(r.end(), c.begin(), c.end()); } });
	ops.push_back({ "clear", [](BV& v, VB& r) { v.clear(); r.clear(); } }); ops.push_back({ "reserve", [](BV& v, VB&) { v.reserve(500); } }); ops.push_back({ "copy", [](BV& v, VB&) { BV c(v); v = c; } });
	for (int pos : { 0, U - 1, U, 2 * U, -1, -2 }) for (int b = 0; b < 4; b++) ops.push_back({ mc::fmt("set %d to %d", pos, b), [=](BV& v, VB& r) { size_t p = pos >= 0 ? (size_t)pos : (size_t)(r.size() + pos + (pos == -2 ? 2 : 0)); /* -1: last, -2: one past */ bool thr = false; try { if (b == 0) v.reset(p); else if (b == 1) v.set(p); else v.set(p, b == 3); } catch (cybozu::Exception&) { thr = true; } if (thr != (p >= r.size())) mc::fail("position %zu of %zu %s", p, r.size(), thr ? "refused" : "accepted"); if (!thr) r[p] = b & 1; } });
	ops.push_back({ "extract into other and back", [](BV& v, VB& r) { if (r.empty()) return; BV d; size_t p = r.size() / 3, n = r.size() - p; v.extract(d, p, n); VB e(r.begin() + p, r.begin() + p + n); v = d; r = e; } });
	mc::Section s(std::string("sequences ") + nm); const int N = (int)ops.size(), depth = mc::tier(2, 3);
	auto run = [&](const std::vector<int>& seq) { std::string w; for (int i : seq) w += ops[i].name + "; "; mc::what("%s: %s", nm, w.c_str()); BV v; VB r; for (int i : seq) { mc::trans(); ops[i].f(v, r); std::string why; if (!same(v, r, why)) { mc::fail("after '%s': %s", ops[i].name.c_str(), why.c_str()); return; } } mc::eval(!seq.empty());
		// equality with every variation in length
		BV q; q.resize(r.size()); for (size_t i = 0; i < r.size(); i++) q.set(i, r[i]); MC_CHECK(q == v && !(q != v), "not equal to a vector with the same bits"); q.resize(r.size() + 1); MC_CHECK(q != v && !(q == v), "equal to a longer vector"); if (r.size()) { q.resize(r.size()); q.set(r.size() - 1, !r[r.size() - 1]); MC_CHECK(q != v && !(q == v), "equal though the last bit differs"); } };
	if (!s.skip()) mc::forSeqUpTo(N, depth, [&](const std::vector<int>& seq) { if (s.pick()) run(seq); });
	if (!s.skip() && !mc::thorough()) for (int a = 0; a < N; a += 3) for (int b = 0; b < N; b += 3) for (int c = 0; c < N; c += 3) { if (s.pick()) run({ a, b, c }); }
	// extract: every length x position x count
	mc::Section x(std::string("extract ") + nm); const int M = 3 * U + 2;
	for (int len = 0; len <= M; len++) for (int k = 1; k < 5; k += 2) { if (!x.pick()) continue; Buf<T> b(len, k, true); BV v(b.p.get(), len);
		for (int p = 0; p <= len + 1; p++) for (int n = 0; n <= len + 1; n++) { if (U >= 32 && !mc::thorough() && n > 2 && n % U > 2 && n % U < U - 2 && (p % U) > 2 && (p % U) < U - 2 && p + n < len - 1) continue; mc::what("%s: %d bits kind %d, extract %d+%d", nm, len, k, p, n); bool okr = n == 0 || p + n <= len;
			{ size_t un = (n + U - 1) / U; std::unique_ptr<T[]> d(new T[un]); for (size_t i = 0; i < un; i++) d[i] = (T)pat(1 + (k == 1), 0); bool thr = false; try { v.extract(d.get(), p, n); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr == !okr, "array form %s", thr ? "refused" : "accepted"); if (okr && !thr) for (size_t i = 0; i < un * U; i++) if ((int)((d[i / U] >> (i % U)) & 1) != ((int)i < n ? (int)b.bit(p + i) : 0)) { mc::fail("array form, bit %zu", i); break; } }
			{ BV d; d.resize(5); d.set(2); bool thr = false; try { v.extract(d, p, n); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr == !okr, "vector form %s", thr ? "refused" : "accepted"); if (okr && !thr) { VB r; for (int i = 0; i < n; i++) r.push_back(b.bit(p + i)); std::string why; if (!same(d, r, why)) mc::fail("vector form: %s", why.c_str()); } }
			{ bool thr = false; T got = 0; try { got = v.extract(p, n); } catch (cybozu::Exception&) { thr = true; } bool ok1 = n == 0 || (okr && n <= U); MC_CHECK(thr == !ok1, "value form %s", thr ? "refused" : "accepted"); if (ok1 && !thr) { T e = 0; for (int i = 0; i < n; i++) e |= (T)((T)b.bit(p + i) << i); MC_CHECK(got == e, "value form %llx, expected %llx", (unsigned long long)got, (unsigned long long)e); } }
			mc::eval(n > 0); }
		for (size_t hp : { ~(size_t)0, ~(size_t)0 - 1, (size_t)1 << 63 }) for (size_t n : { (size_t)1, (size_t)2, ~(size_t)0 }) { mc::what("%s: %d bits, extract %zu+%zu", nm, len, hp, n); T d[4]; bool t1 = false, t2 = false; try { v.extract(d, hp, n); } catch (cybozu::Exception&) { t1 = true; } try { v.extract(hp, n); } catch (cybozu::Exception&) { t2 = true; } MC_CHECK(t1 && t2, "accepted"); mc::eval(); } }
	// ShiftLeftBit, shiftLeftBit, shiftRightBit, CopyBit: every length x shift
	mc::Section h(std::string("shift ") + nm);
	for (int len = 0; len <= M; len++) for (int sh = 0; sh <= U; sh++) for (int k = 1; k < 6; k++) { if (!h.pick()) continue; mc::what("%s: shift %d bits kind %d by %d", nm, len, k, sh); Buf<T> b(len, k, true); size_t un = b.n;
		for (int inplace = 0; inplace < 2; inplace++) { std::unique_ptr<T[]> d(new T[un]); for (size_t i = 0; i < un; i++) d[i] = inplace ? b.p[i] : (T)0x77; T ext = sh ? (T)(((T)1 << (sh < U ? sh : 1)) - 1) & (T)0x5b : (T)0; bool thr = false; T ret = 0; try { ret = cybozu::ShiftLeftBit<T>(d.get(), inplace ? d.get() : b.p.get(), len, sh, ext); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr == (sh >= U && len > 0), "ShiftLeftBit %s", thr ? "refused" : "accepted");
			if (!thr && !len) MC_CHECK(ret == 0, "ShiftLeftBit of no bits returns %llx", (unsigned long long)ret);
			if (!thr && len) { T er = 0; bool bad = false; for (int i = 0; i < (int)un * U; i++) { int e = i >= sh && i - sh < len ? b.bit(i - sh) : 0; if (i < sh) e = i < U ? (ext >> i) & 1 : 0; if ((int)((d[i / U] >> (i % U)) & 1) != e) bad = true; } for (int i = 0; i < sh; i++) { int src = (int)un * U + i - sh; if (src < len && b.bit(src)) er |= (T)((T)1 << i); } MC_CHECK(!bad, "ShiftLeftBit%s wrong bits", inplace ? " in place" : ""); MC_CHECK(ret == er, "ShiftLeftBit returns %llx, expected %llx", (unsigned long long)ret, (unsigned long long)er); } }
		{ std::unique_ptr<T[]> d(new T[un]); for (size_t i = 0; i < un; i++) d[i] = (T)~0ull; cybozu::CopyBit<T>(d.get(), b.p.get(), len); for (size_t i = 0; i < un * U; i++) if ((int)((d[i / U] >> (i % U)) & 1) != ((int)i < len ? (int)b.bit(i) : 0)) { mc::fail("CopyBit, bit %zu", i); break; } }
		mc::eval(len > 0); }
}
template<class T> static void huge(const char *nm) // more than 2^32 bits: every index must be taken in full
{
	mc::Section s(std::string("more than 2^32 bits of ") + nm); const uint64_t G = (uint64_t)1 << 32; const size_t U = sizeof(T) * 8;
	for (int k = 0; k < 4; k++) { if (!s.pick()) continue; const uint64_t n = G + (k & 1 ? 3 * U + 5 : 2 * U); mc::what("%s: %llu bits", nm, (unsigned long long)n); cybozu::BitVectorT<T> v; v.resize(n); MC_CHECK(v.size() == n && v.getBlockSize() == (n + U - 1) / U, "size %zu in %zu units", v.size(), v.getBlockSize());
		std::vector<uint64_t> at; for (uint64_t b : { (uint64_t)0, G / 2, G, n }) for (int64_t d = -3; d <= 3; d++) if ((int64_t)b + d >= 0 && b + d < n) at.push_back(b + d);
		for (uint64_t p : at) { if (k & 2) v.set(p, true); else v.set(p); for (uint64_t q : at) if (v.get(q) != (q == p)) { mc::fail("after set(%llu), bit %llu", (unsigned long long)p, (unsigned long long)q); break; } if (k & 2) v.set(p, false); else v.reset(p); for (uint64_t q : at) if (v.get(q)) { mc::fail("after reset(%llu), bit %llu is set", (unsigned long long)p, (unsigned long long)q); break; } mc::eval(); }
		for (uint64_t p : { n, n + G, n - 1 + G, 2 * G + 1 }) { int thr = 0; try { v.get(p); } catch (cybozu::Exception&) { thr++; } try { v.set(p); } catch (cybozu::Exception&) { thr++; } try { v.reset(p); } catch (cybozu::Exception&) { thr++; } MC_CHECK(thr == 3, "position %llu accepted", (unsigned long long)p); }
		v.set(n - 1); v.set(G); v.append((uint64_t)5, 3); MC_CHECK(v.size() == n + 3 && v.get(n - 1) && v.get(n) && !v.get(n + 1) && v.get(n + 2) && v.get(G) && !v.get(0), "append of a value"); MC_CHECK(v.extract(n - 1, 4) == 0xb && v.extract(G, 2) == 1 && v.extract(G - 1, 2) == 2, "extract"); T w[2] = { (T)0x35, 0 }; v.append(w, U + 1); MC_CHECK(v.size() == n + 4 + U && v.extract(n + 3, U) == (T)0x35, "append of units"); T d[3]; v.extract(d, n - 1, U + 4); MC_CHECK(d[0] == (T)((T)0xb | ((T)0x35 << 4)), "extract of units"); mc::eval(); }
}
void mc_main()
{
	huge<uint64_t>("uint64_t"); huge<uint8_t>("uint8_t");
	family<uint8_t>("uint8_t"); family<uint16_t>("uint16_t"); family<uint32_t>("uint32_t"); family<uint64_t>("uint64_t");
}
