// zlib compressor and decompressor streams, against zlib's own one-shot functions
#include "util.hpp"
#include <zlib.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <cybozu/zlib.hpp>
struct Out { std::string s; int failAt; int n; Out(int f = -1) : failAt(f), n(0) {} void write(const void *p, size_t z) { if (n++ == failAt) throw cybozu::Exception("outfault"); s.append((const char*)p, z); } };
// input delivered in pieces whose sizes cycle through cut
struct In { const std::string& s; size_t pos; std::vector<int> cut; size_t k; int failAt, n; In(const std::string& s, const std::vector<int>& c, int f = -1) : s(s), pos(0), cut(c), k(0), failAt(f), n(0) {} size_t readSome(void *p, size_t z) { if (n++ == failAt) throw cybozu::Exception("infault"); size_t m = cut.empty() ? z : (size_t)cut[k++ % cut.size()]; if (m > z) m = z; if (m > s.size() - pos) m = s.size() - pos; memcpy(p, s.data() + pos, m); pos += m; return m; } };
static std::string ref(const std::string& c, bool gz, bool& ok, size_t& used)
{
	z_stream z; memset(&z, 0, sizeof z); inflateInit2(&z, gz ? 31 : 15); z.next_in = (Bytef*)c.data(); z.avail_in = (uInt)c.size(); std::string r; int e; do { char b[4096]; z.next_out = (Bytef*)b; z.avail_out = sizeof b; e = inflate(&z, Z_NO_FLUSH); if (e != Z_OK && e != Z_STREAM_END) break; r.append(b, sizeof b - z.avail_out); } while (e != Z_STREAM_END); ok = e == Z_STREAM_END; used = c.size() - z.avail_in; inflateEnd(&z); return r;
}
template<size_t B> static std::string comp(const std::string& d, const std::vector<int>& cut, bool gz, int level, int how)
{
	Out o; { cybozu::ZlibCompressorT<Out, B> c(o, gz, level); size_t p = 0, k = 0; while (p < d.size()) { size_t m = cut.empty() ? d.size() : (size_t)cut[k++ % cut.size()]; if (m > d.size() - p) m = d.size() - p; if (how == 2) c.write(d.data() + p, 0); mc::Exact e(d.substr(p, m)); c.write(e.p, m); p += m; } if (how >= 1) { c.flush(); size_t z = o.s.size(); c.flush(); MC_CHECK(o.s.size() == z, "second flush writes"); } } return o.s;
}
struct R { std::string d; bool thr, empty; size_t consumed; };
template<size_t B> static R decomp(const std::string& c, const std::vector<int>& inCut, const std::vector<int>& rd, bool gz, int failAt = -1)
{
	R r; r.thr = r.empty = false; r.consumed = 0; In in(c, inCut, failAt); { cybozu::ZlibDecompressorT<In, B> z(in, gz); size_t k = 0; try { for (;;) { size_t n = (size_t)rd[k++ % rd.size()]; char *p = (char*)malloc(n ? n : 1); size_t g; try { g = z.readSome(p, n); } catch (...) { free(p); throw; } if (g > n) { MC_CHECK(false, "readSome(%zu) = %zu", n, g); free(p); break; } r.d.append(p, g); free(p); if (n && !g) break; if (r.d.size() > 1000000) { MC_CHECK(false, "endless"); break; } } r.empty = z.isEmpty(); } catch (cybozu::Exception&) { r.thr = true; } } return r;
}
static std::vector<std::string> datas()
{
	std::vector<std::string> v; v.push_back(""); v.push_back("a"); v.push_back(std::string(1, 0)); v.push_back("ab"); v.push_back("hello hello hello"); v.push_back(std::string(300, 'x')); std::string a; for (int i = 0; i < 256; i++) a += (char)i; v.push_back(a); uint32_t s = 1; std::string h; for (int i = 0; i < 700; i++) { s = s * 1103515245 + 12345; h += (char)(s >> 16); } v.push_back(h); v.push_back(std::string(5000, 'z') + h + std::string(3000, 0)); return v;
}
static std::vector<std::vector<int> > cuts() { return { {}, { 1 }, { 2, 1 }, { 3 }, { 7, 1 }, { 64 } }; }
template<size_t B> static void family()
{
	std::vector<std::string> ds = datas(); mc::Section s(mc::fmt("round trip, buffer %zu", B));
	for (int gz = 0; gz < 2; gz++) for (int level : { -1, 0, 1, 9 }) for (size_t di = 0; di < ds.size(); di++) for (int how = 0; how < 3; how++) for (auto& wc : cuts()) { if (!s.pick()) continue; const std::string& d = ds[di]; mc::what("buffer %zu %s level %d data %zu (%zu bytes) how %d first cut %d", B, gz ? "gzip" : "zlib", level, di, d.size(), how, wc.empty() ? 0 : wc[0]); size_t b0 = __sanitizer_get_current_allocated_bytes();
			{ std::string c = comp<B>(d, wc, gz != 0, level, how); bool ok; size_t used; std::string r = ref(c, gz != 0, ok, used); MC_CHECK(ok && r == d && used == c.size(), "zlib cannot read the result (ok %d, %zu bytes, used %zu of %zu)", ok, r.size(), used, c.size());
				for (auto& ic : cuts()) for (auto& rd : std::vector<std::vector<int> >{ { 1 }, { 2, 3 }, { 0, 5 }, { 4096 }, { 100 } }) { R q = decomp<B>(c, ic, rd, gz != 0); MC_CHECK(!q.thr && q.d == d && q.empty, "decompressed %zu bytes thrown %d empty %d (in cut %d, read %d)", q.d.size(), q.thr, q.empty, ic.empty() ? 0 : ic[0], rd[0]); mc::state(); }
				In in(c, {}); cybozu::ZlibDecompressorT<In, B> z(in, gz != 0); std::string x(d.size(), 0); bool thr = false; try { z.read(&x[0], d.size()); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(!thr && x == d, "read()"); char t; thr = false; try { z.read(&t, 1); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "read() past the end did not throw"); }
			size_t b1 = __sanitizer_get_current_allocated_bytes(); MC_CHECK(b0 == b1, "leaked %zd bytes", (ssize_t)(b1 - b0)); mc::eval(!d.empty()); }
}
template<size_t B> static void damage()
{
	std::vector<std::string> ds = { "", "a", "hello hello hello", std::string(100, 'q') + "end" }; ds.push_back(datas()[7].substr(0, 60)); mc::Section s(mc::fmt("damage, buffer %zu", B));
	for (int gz = 0; gz < 2; gz++) for (auto& d : ds) { std::string c = comp<B>(d, {}, gz != 0, -1, 1);
		for (size_t n = 0; n < c.size(); n++) for (int ic = 0; ic < 2; ic++) for (int rd : { 1, 4096 }) { if (!s.pick()) continue; mc::what("%s of %zu bytes truncated to %zu of %zu, read %d", gz ? "gzip" : "zlib", d.size(), n, c.size(), rd); mc::Exact e(c.substr(0, n)); R q = decomp<B>(c.substr(0, n), ic ? std::vector<int>{ 1 } : std::vector<int>(), { rd }, gz != 0); MC_CHECK(q.thr, "no exception, %zu bytes", q.d.size()); MC_CHECK(d.compare(0, q.d.size(), q.d) == 0, "wrong data before the exception"); mc::eval(); }
		for (size_t i = 0; i < c.size(); i++) for (int x = 1; x < 256; x++) { if (!mc::thorough() && i > 12 && (x & (x - 1)) && x != 255) continue; if (!s.pick()) continue; std::string e = c; e[i] = (char)(e[i] ^ x); mc::what("%s of %zu bytes, byte %zu ^ %02x", gz ? "gzip" : "zlib", d.size(), i, x); R q = decomp<B>(e, {}, { 50 }, gz != 0);
				// the checksum detects every change of the data itself; zlib's own reader is the judge of what is acceptable, apart from a gzip header crc
				bool ok; size_t used; std::string r = ref(e, gz != 0, ok, used); if (!q.thr) MC_CHECK(q.d == d, "damaged stream gives other data"); if (!(gz && i == 3)) MC_CHECK(ok == !q.thr, "thrown %d, zlib accepts %d", q.thr, ok); mc::eval(); } }
}
static void headers()
{
	mc::Section s("gzip header"); std::string d = "hello hello hello", c = comp<64>(d, {}, true, -1, 1), body = c.substr(10);
	for (int flg = 0; flg < 256; flg++) for (int xl : { 0, 1, 255, 256, 300 }) for (int nl : { 0, 3, 70 }) { if (!s.pick()) continue; if (!(flg & 4) && xl) continue; if (!(flg & 24) && nl) continue; mc::what("flags %02x extra %d name %d", flg, xl, nl); std::string h = c.substr(0, 10); h[3] = (char)flg; if (flg & 4) { h += (char)(xl & 255); h += (char)(xl >> 8); for (int i = 0; i < xl; i++) h += (char)(i * 3); } if (flg & 8) h += std::string(nl, 'n') + '\0'; if (flg & 16) h += std::string(nl, (char)0xff) + '\0'; if (flg & 2) { uLong cr = crc32(0, (const Bytef*)h.data(), (uInt)h.size()); h += (char)(cr & 255); h += (char)(cr >> 8 & 255); } std::string z = h + body; bool ok; size_t used; ref(z, true, ok, used);
			MC_CHECK(ok == !(flg & 0xe0), "reference %d", ok); for (auto& ic : cuts()) { R q = decomp<64>(z, ic, { 5 }, true); if (flg & 0xe0) MC_CHECK(q.thr && q.d.empty(), "reserved flag accepted"); else MC_CHECK(!q.thr && q.d == d, "thrown %d %zu bytes", q.thr, q.d.size()); } if (!(flg & 0xe0)) for (size_t n = 0; n <= h.size() + 2; n++) { R q = decomp<64>(z.substr(0, n), {}, { 5 }, true); MC_CHECK(q.thr, "truncated to %zu accepted", n); } mc::eval(); }
}
template<size_t B> static void faults()
{
	mc::Section s(mc::fmt("fault, buffer %zu", B)); std::vector<std::string> ds = { "", "hello", datas()[7] };
	for (int gz = 0; gz < 2; gz++) for (auto& d : ds) for (int how = 0; how < 2; how++) { Out cnt; std::string good; { cybozu::ZlibCompressorT<Out, B> c(cnt, gz != 0); c.write(d.data(), d.size()); c.flush(); } good = cnt.s;
		for (int f = 0; f < cnt.n; f++) { if (!s.pick()) continue; mc::what("%s %zu bytes output write %d of %d fails", gz ? "gzip" : "zlib", d.size(), f, cnt.n); size_t b0 = __sanitizer_get_current_allocated_bytes(); bool thr = false; size_t got; { Out o(f); o.s.reserve(5000); try { cybozu::ZlibCompressorT<Out, B> c(o, gz != 0); c.write(d.data(), d.size()); if (how) c.flush(); } catch (cybozu::Exception&) { thr = true; } got = o.s.size(); if (how) MC_CHECK(thr, "no exception"); MC_CHECK(good.compare(0, got, o.s) == 0 || !how || thr, "wrong output"); } MC_CHECK(b0 == __sanitizer_get_current_allocated_bytes(), "leak"); mc::eval(); }
		int n; { In i(good, {}); cybozu::ZlibDecompressorT<In, B> z(i, gz != 0); char b[64]; while (z.readSome(b, 64)) ; n = i.n; } for (int f = 0; f < n; f++) { if (how || !s.pick()) continue; mc::what("%s %zu bytes input read %d fails", gz ? "gzip" : "zlib", d.size(), f); size_t b0 = __sanitizer_get_current_allocated_bytes(); { R q = decomp<B>(good, {}, { 64 }, gz != 0, f); MC_CHECK(q.thr || q.d == d, "error lost"); MC_CHECK(d.compare(0, q.d.size(), q.d) == 0, "wrong data"); } MC_CHECK(b0 == __sanitizer_get_current_allocated_bytes(), "leak"); mc::eval(); } }
}
static void oneShot()
{
	mc::Section s("one shot"); for (auto& d : datas()) for (int level : { -1, 0, 1, 9 }) { if (!s.pick()) continue; mc::what("%zu bytes level %d", d.size(), level); std::string c(d.size() + 200, 0); size_t n = cybozu::ZlibCompress(&c[0], c.size(), d.data(), d.size(), level); bool ok; size_t used; c.resize(n); MC_CHECK(n && ref(c, false, ok, used) == d && ok && used == n, "ZlibCompress = %zu", n);
		for (size_t m = 0; m <= n; m += (n > 400 ? 37 : 1)) { char *p = (char*)malloc(m); size_t r = cybozu::ZlibCompress(p, m, d.data(), d.size(), level); MC_CHECK(m < n ? r == 0 : r == n, "ZlibCompress into %zu of %zu = %zu", m, n, r); free(p); } { char *p = (char*)malloc(n); MC_CHECK(cybozu::ZlibCompress(p, n, d.data(), d.size(), level) == n && c == std::string(p, n), "exact"); free(p); }
		for (size_t m : { d.size(), d.size() + 1, d.size() + 100 }) { char *p = (char*)malloc(m); size_t r = cybozu::ZlibUncompress(p, m, c.data(), c.size()); MC_CHECK(r == d.size() && !memcmp(p, d.data(), r), "ZlibUncompress = %zu", r); free(p); } if (!d.empty()) for (size_t m = 1; m < d.size(); m += (d.size() > 400 ? 97 : 1)) { char *p = (char*)malloc(m); bool thr = false; try { cybozu::ZlibUncompress(p, m, c.data(), c.size()); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "ZlibUncompress into %zu did not throw", m); free(p); }
		std::string big(d.size(), 0); for (size_t m = 0; m < n; m += (n > 400 ? 37 : 1)) { bool thr = false; try { cybozu::ZlibUncompress(&big[0], big.size(), c.data(), m); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "ZlibUncompress of %zu of %zu did not throw", m, n); } bool thr = false; try { cybozu::ZlibCompress(&big[0], big.size(), d.data(), d.size(), 77); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "bad level"); mc::eval(); }
}
// the checksums at the end, damaged, however the input is divided
static void splitTail()
{
	mc::Section s("damaged tail"); for (auto& d : { std::string(), std::string("a"), std::string("hello hello hello") }) for (int gz = 0; gz < 2; gz++) { std::string c = comp<64>(d, {}, gz != 0, -1, 1); size_t tail = gz ? 8 : 4;
		for (size_t cut = 1; cut <= c.size(); cut++) for (size_t cut2 = 1; cut2 <= tail + 1; cut2++) { if (!s.pick()) continue; mc::what("%s of %zu bytes, pieces of %zu, %zu and the rest", gz ? "gzip" : "zlib", d.size(), cut, cut2); std::vector<int> cv = { (int)cut, (int)cut2, 1000, 1000 }; R q = decomp<2048>(c, cv, { 50 }, gz != 0); MC_CHECK(!q.thr && q.d == d, "undamaged: thrown %d", q.thr); for (size_t i = c.size() - tail; i < c.size(); i++) for (int x : { 1, 16, 128, 255 }) { std::string e = c; e[i] = (char)(e[i] ^ x); q = decomp<2048>(e, cv, { 50 }, gz != 0); MC_CHECK(q.thr, "byte %zu ^ %02x accepted", i, x); mc::state(); } mc::eval(); } }
	// a bad header is not skipped by reading again
	std::string d = "hello hello hello", c = comp<64>(d, {}, true, -1, 1); for (int i : { 0, 1, 2, 3 }) { if (!s.pick()) continue; std::string e = c; e[i] = (char)(e[i] ^ 0xe1); mc::what("header byte %d damaged, then read again", i); In in(e, {}); cybozu::ZlibDecompressorT<In, 64> z(in, true); int ok = 0; for (int k = 0; k < 3; k++) { char b[64]; try { ok += z.readSome(b, sizeof b) != 0; } catch (cybozu::Exception&) { } } MC_CHECK(ok == 0, "data delivered after a bad header"); mc::eval(); }
}
struct Odd {};
struct OddOut { int failAt, n, kind; std::string s; OddOut(int f, int k) : failAt(f), n(0), kind(k) { s.reserve(5000); } void write(const void *p, size_t z) { if (n++ == failAt) { if (kind == 0) throw Odd(); if (kind == 1) throw std::runtime_error("x"); throw 1; } s.append((const char*)p, z); } };
static void oddFaults()
{
	mc::Section s("other exceptions"); for (int gz = 0; gz < 2; gz++) for (int kind = 0; kind < 3; kind++) for (int f = 0; f < 5; f++) for (int how = 0; how < 2; how++) { if (!s.pick()) continue; mc::what("%s write %d throws kind %d, flush %d", gz ? "gzip" : "zlib", f, kind, how); size_t b0 = __sanitizer_get_current_allocated_bytes(); bool thr = false; int n; { OddOut o(f, kind); try { cybozu::ZlibCompressorT<OddOut, 16> c(o, gz != 0); c.write("hello", 5); if (how) c.flush(); } catch (...) { thr = true; } n = o.n; } if (how) MC_CHECK(thr == (n > f), "thrown %d", thr); MC_CHECK(b0 == __sanitizer_get_current_allocated_bytes(), "leak"); mc::eval(); }
}
static std::string text(size_t n) { std::string d(n, 0); uint32_t x = 7; for (size_t i = 0; i < n; i++) { if (i % 61 == 0) x = x * 1103515245 + 12345; d[i] = (char)(x >> 16); } return d; }
// single writes and reads beyond 16 and 24 bits
static void large()
{
	mc::Section s("large"); for (size_t n : { size_t(65535), size_t(65536), size_t(65537), size_t(200000), size_t(1) << 20, (size_t(1) << 24) - 1, size_t(1) << 24, (size_t(1) << 24) + 5, (size_t(1) << 25) + 1 }) for (int gz = 0; gz < 2; gz++) for (int rd = 0; rd < 4; rd++) { if (!s.pick()) continue; if (rd && n > 1 << 20 && !mc::thorough() && rd != 1) continue; mc::what("%zu bytes %s in one write, read %d", n, gz ? "gzip" : "zlib", rd); std::string d = text(n), c; { Out o; cybozu::ZlibCompressorT<Out> z(o, gz != 0, 1); z.write(d.data(), d.size()); z.flush(); c.swap(o.s); }
		bool ok; size_t used; MC_CHECK(ref(c, gz != 0, ok, used) == d && ok && used == c.size(), "compressed stream differs"); std::string r(n + 7, 0); size_t step = rd == 0 ? n + 7 : rd == 1 ? 65536 + 3 : rd == 2 ? 65536 : n, got = 0; In in(c, {}); bool thr = false; { cybozu::ZlibDecompressorT<In, 1 << 17> z(in, gz != 0); try { if (rd == 3) { z.read(&r[0], n); got = n; } else for (;;) { size_t m = step < n + 7 - got ? step : n + 7 - got; if (!m) break; size_t g = z.readSome(&r[got], m); if (!g) break; got += g; if (got > n + 7) break; } } catch (cybozu::Exception&) { thr = true; } } r.resize(got < n + 7 ? got : n + 7); MC_CHECK(!thr && r == d, "thrown %d, %zu bytes", thr, got); mc::eval(); }
	if (s.pick()) { mc::what("sizes from 2 GiB are refused"); Out o; cybozu::ZlibCompressorT<Out> z(o); char b[1] = { 0 }; for (size_t m : { size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) + 1, ~size_t(0) }) { bool thr = false; try { z.write(b, m); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "write of %zu accepted", m); } mc::eval(); }
}
void mc_main() { splitTail(); oddFaults(); large(); family<1>(); family<2>(); family<7>(); family<2048>(); damage<1>(); damage<2048>(); headers(); faults<1>(); faults<16>(); faults<2048>(); oneShot(); }
