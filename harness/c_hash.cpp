// message digests and HMAC: every length, every two-piece cut, histories with copies; the reference is OpenSSL's one-shot EVP_Digest / HMAC
#include "util.hpp"
#include <stdint.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <cybozu/sha1.hpp>
#include <cybozu/sha2.hpp>
#ifdef WITH_CRYPTO
#include <cybozu/crypto.hpp>
#endif
static std::string ref(const EVP_MD *m, const std::string& s) { unsigned char b[64]; unsigned n; EVP_Digest(s.data(), s.size(), b, &n, m, 0); return std::string((char*)b, n); }
static std::string rhmac(const EVP_MD *m, const std::string& k, const std::string& s) { unsigned char b[64]; unsigned n; HMAC(m, k.data(), (int)k.size(), (const unsigned char*)s.data(), s.size(), b, &n); return std::string((char*)b, n); }
static std::string data(size_t n, int kind) { std::string s(n, 0); uint32_t x = 7; for (size_t i = 0; i < n; i++) { x = x * 1103515245 + 12345; s[i] = kind == 0 ? (char)(x >> 16) : kind == 1 ? (char)0xff : 0; } return s; }
// one face for all classes
struct S1 { typedef cybozu::Sha1 H; static const char *nm() { return "Sha1"; } static const EVP_MD *md() { return EVP_sha1(); } enum { block = 64, reset = 0 }; static void up(H& h, const char *p, size_t n) { h.update(p, n); } static std::string fin(H& h, const char *p, size_t n) { std::string r = h.digest(p, n); std::string g = h.get(); MC_CHECK(g == r, "get()"); char b[20]; h.get(b); MC_CHECK(std::string(b, 20) == r, "get(buf)"); std::string t = h.toString(), u; for (size_t i = 0; i < r.size(); i++) u += mc::fmt("%02x", (unsigned char)r[i]); MC_CHECK(t == u, "toString %s", t.c_str()); return r; } static void again(H&) {} static H make() { return H(); } };
template<class HH, size_t D> static std::string fin2(HH& h, const char *p, size_t n) { char small[D - 1]; memset(small, 'x', sizeof small); size_t r = h.digest(small, D - 1, p, n); MC_CHECK(r == 0, "digest into %zu bytes = %zu", D - 1, r); for (size_t i = 0; i + 1 < D; i++) if (small[i] != 'x') { MC_CHECK(false, "small buffer written"); break; } HH c; c = h; std::string big(D + 5, 'y'); r = c.digest(&big[0], big.size(), p, n); MC_CHECK(r == D && big.substr(D) == "yyyyy", "digest = %zu", r); std::string x = h.digest(p, n); MC_CHECK(x == big.substr(0, D), "two forms differ"); return x; }
struct S256 { typedef cybozu::Sha256 H; static const char *nm() { return "Sha256"; } static const EVP_MD *md() { return EVP_sha256(); } enum { block = 64 }; static void up(H& h, const char *p, size_t n) { h.update(p, n); } static std::string fin(H& h, const char *p, size_t n) { return fin2<H, 32>(h, p, n); } static void again(H& h) { h.clear(); } static H make() { return H(); } };
struct S512 { typedef cybozu::Sha512 H; static const char *nm() { return "Sha512"; } static const EVP_MD *md() { return EVP_sha512(); } enum { block = 128 }; static void up(H& h, const char *p, size_t n) { h.update(p, n); } static std::string fin(H& h, const char *p, size_t n) { return fin2<H, 64>(h, p, n); } static void again(H& h) { h.clear(); } static H make() { return H(); } };
#ifdef WITH_CRYPTO
template<int N> struct SC { typedef cybozu::crypto::Hash H; static H::Name name() { return (H::Name)N; } static const char *nm() { return H::getName(name()); } static const EVP_MD *md() { return N == 0 ? EVP_sha1() : N == 1 ? EVP_sha224() : N == 2 ? EVP_sha256() : N == 3 ? EVP_sha384() : EVP_sha512(); } enum { block = N >= 3 ? 128 : 64 }; static void up(H& h, const char *p, size_t n) { h.update(p, n); } static std::string fin(H& h, const char *p, size_t n) { H c(h); std::string r = h.digest(p, n); std::string o(r.size() + 3, 'z'); c.digest(&o[0], p, n); MC_CHECK(o == r + "zzz", "two forms differ"); return r; } static void again(H&) {} static H make() { return H(name()); } };
#endif
template<class S> static void cuts()
{
	typedef typename S::H H; const int B = S::block; mc::Section s(mc::fmt("%s cuts", S::nm()));
	for (int n = 0; n <= B * 2 + 20; n++) for (int kind = 0; kind < 3; kind++) { if (!s.pick()) continue; mc::what("%s %d bytes kind %d", S::nm(), n, kind); std::string d = data(n, kind), want = ref(S::md(), d); mc::Exact e(d); const char *p = e.p; H r = S::make();
		for (int a = 0; a <= n; a++) { H h = S::make(); S::up(h, p, a); std::string g = S::fin(h, p + a, n - a); MC_CHECK(g == want, "cut at %d: %s", a, mc::hex(g).c_str()); S::up(r, p, a); S::up(r, p + a, n - a); g = S::fin(r, 0, 0); MC_CHECK(g == want, "reused object, cut at %d", a); S::again(r); mc::state(2); }
		for (int step : { 1, 2, 3, B - 1, B, B + 1 }) { H h = S::make(); int i = 0; for (; i + step < n; i += step) S::up(h, p + i, step); S::up(h, p, 0); std::string g = S::fin(h, p + i, n - i); MC_CHECK(g == want, "steps of %d", step); mc::state(); } mc::eval(n > 0); }
}
template<class S> static void three()
{
	typedef typename S::H H; const int B = S::block; std::vector<int> v; for (int i : { 0, 1, 2, B - 17, B - 16, B - 9, B - 8, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 5 * B - 1 }) v.push_back(i); mc::Section s(mc::fmt("%s pieces", S::nm())); std::string d = data(3 * 5 * B, 0);
	for (int a : v) for (int b : v) { if (!s.pick()) continue; mc::what("%s pieces %d %d", S::nm(), a, b); for (int c : v) { H h = S::make(); S::up(h, d.data(), a); S::up(h, d.data() + a, b); std::string g = S::fin(h, d.data() + a + b, c); MC_CHECK(g == ref(S::md(), d.substr(0, a + b + c)), "third piece %d", c); mc::state(); } mc::eval(); }
}
// histories over two objects: update either, digest+restart, restart without digest, copy construct, assign both ways, self assign
template<class S> static void histories()
{
	typedef typename S::H H; const int B = S::block; const int len = mc::tier(5, 7); mc::Section s(mc::fmt("%s histories", S::nm())); std::string d = data(4 * B, 0);
	mc::forSeqUpTo(9, len, [&](const std::vector<int>& q) { if (!s.pick()) return; std::string w; for (int i : q) w += (char)('0' + i); mc::what("%s ops %s", S::nm(), w.c_str()); H *o[2] = { new H(S::make()), new H(S::make()) }; std::string m[2]; int k = 0;
		for (int op : q) { k++; switch (op) { case 0: S::up(*o[0], d.data() + k, B / 2 + 3); m[0] += d.substr(k, B / 2 + 3); break; case 1: S::up(*o[1], d.data() + k, B); m[1] += d.substr(k, B); break; case 2: S::up(*o[0], d.data() + k, 1); m[0] += d.substr(k, 1); break; case 3: { std::string g = S::fin(*o[0], "tail", 4); MC_CHECK(g == ref(S::md(), m[0] + "tail"), "digest after step %d", k); S::again(*o[0]); m[0].clear(); break; } case 4: *o[0] = *o[1]; m[0] = m[1]; break; case 5: *o[1] = *o[0]; m[1] = m[0]; break; case 6: { H *x = new H(*o[1]); delete o[0]; o[0] = x; m[0] = m[1]; break; } case 7: { H& y = *o[0]; *o[0] = y; break; } default: S::again(*o[1]); { H f = S::make(); *o[1] = f; } m[1].clear(); } }
		for (int i = 0; i < 2; i++) { std::string g = S::fin(*o[i], 0, 0); MC_CHECK(g == ref(S::md(), m[i]), "object %d at the end", i); delete o[i]; } mc::eval(q.size() > 0); });
}
template<class S> static void all() { cuts<S>(); three<S>(); histories<S>(); }
void mc_main()
{
#ifndef WITH_CRYPTO
	all<S1>();
#endif
	all<S256>(); all<S512>();
	{ mc::Section s("hmac256"); for (int k = 0; k <= 140; k++) { if (!s.pick()) continue; for (int n : { 0, 1, 31, 32, 33, 55, 56, 63, 64, 65, 119, 120, 200 }) for (int kind = 0; kind < 3; kind++) { mc::what("key %d msg %d kind %d", k, n, kind); mc::Exact key(data(k, kind)), msg(data(n, 0)); std::string o(32 + 3, 'z'); cybozu::hmac256(&o[0], key.p, key.n, msg.p, msg.n); MC_CHECK(o == rhmac(EVP_sha256(), data(k, kind), data(n, 0)) + "zzz", "got %s", mc::hex(o).c_str()); mc::state(); } mc::eval(); } }
#ifdef WITH_CRYPTO
	all<SC<0> >(); all<SC<1> >(); all<SC<2> >(); all<SC<3> >(); all<SC<4> >();
	{ mc::Section s("crypto::Hash static, Hmac"); typedef cybozu::crypto::Hash H; const EVP_MD *md[] = { EVP_sha1(), EVP_sha224(), EVP_sha256(), EVP_sha384(), EVP_sha512() };
		for (int N = 0; N < 5; N++) for (int n = 0; n <= 150; n++) { if (!s.pick()) continue; mc::what("name %d length %d", N, n); std::string d = data(n, 0), want = ref(md[N], d); H::Name nm = (H::Name)N; MC_CHECK(H::digest(nm, d) == want && H::digest(nm, d.data(), d.size()) == want, "digest"); std::string o(80, 'z'); size_t z = H::digest(&o[0], nm, d.data(), d.size()); MC_CHECK(z == want.size() && z == H::getSize(nm) && o.substr(0, z) == want && o.substr(z) == std::string(80 - z, 'z'), "digest = %zu", z); MC_CHECK(H::getName(H::getName(nm)) == nm, "names"); H h(nm); MC_CHECK(h.digest() == ref(md[N], ""), "empty"); h.update(d); h.reset(); h.update(d); MC_CHECK(h.digest() == want, "update(string)"); MC_CHECK(h.digest(d) == want, "digest(string)");
				cybozu::crypto::Hmac hm(nm); for (int k : { 0, 1, 20, 63, 64, 65, 127, 128, 129, 200 }) for (int kind = 0; kind < 3; kind += 2) MC_CHECK(hm.eval(data(k, kind), d) == rhmac(md[N], data(k, kind), d), "hmac key %d", k); mc::eval(); }
		// objects of different algorithms assigned to each other, and the strings' NUL characters
		for (int N = 0; N < 5; N++) for (int M = 0; M < 5; M++) for (int n : { 0, 1, 55, 64, 127, 128, 200 }) { if (!s.pick()) continue; mc::what("%d assigned to %d after %d bytes", M, N, n); std::string d = data(n, 2) + data(n, 0), want = ref(md[M], d); H a((H::Name)N), b((H::Name)M); a.update(data(n, 1)); b.update(d); a = b; MC_CHECK(a.digest() == want, "assigned object"); MC_CHECK(a.digest(d) == want, "assigned object, restarted"); MC_CHECK(b.digest() == want, "source"); b = H((H::Name)N); H c(b); b.update(d); std::string o(80, 'z'); b.digest(&o[0], "x", 1); std::string w2 = ref(md[N], d + "x"); MC_CHECK(o.substr(0, w2.size()) == w2 && o.substr(w2.size()) == std::string(80 - w2.size(), 'z'), "assigned temporary"); MC_CHECK(c.digest(std::string("a\0b", 3)) == ref(md[N], std::string("a\0b", 3)), "NUL"); a = a; MC_CHECK(a.digest(d) == want, "assigned to itself"); mc::eval(); }
		for (int N = 0; N < 5; N++) for (int k = 0; k < 3; k++) { if (!s.pick()) continue; mc::what("name %d text with NUL characters, form %d", N, k); std::string d = k == 0 ? std::string(1, 0) : k == 1 ? std::string("ab\0cd\0", 6) : std::string(100, 0) + "x", want = ref(md[N], d); H::Name nm = (H::Name)N; H h(nm); h.update(d); MC_CHECK(H::digest(nm, d) == want && h.digest() == want && h.digest(d) == want, "digest"); cybozu::crypto::Hmac hm(nm); for (auto& key : { d, std::string("k"), std::string() }) { MC_CHECK(hm.eval(key, d) == rhmac(md[N], key, d), "hmac"); MC_CHECK(hm.eval(d, key) == rhmac(md[N], d, key), "hmac key"); } mc::eval(); }
		for (int N = 0; N < 5; N++) for (size_t n : { size_t(65535), size_t(65536), size_t(65537), size_t(100000), (size_t(1) << 24) - 1, size_t(1) << 24, (size_t(1) << 24) + 3 }) { if (!s.pick()) continue; mc::what("name %d, %zu bytes at once", N, n); std::string d = data(n, 0), want = ref(md[N], d); H::Name nm = (H::Name)N; H h(nm); h.update(d.data(), d.size()); MC_CHECK(h.digest() == want && H::digest(nm, d) == want, "digest"); cybozu::crypto::Hmac hm(nm); MC_CHECK(hm.eval("key", d) == rhmac(md[N], "key", d), "hmac"); MC_CHECK(hm.eval(d, "msg") == rhmac(md[N], d, "msg"), "hmac with a long key"); mc::eval(); }
		for (int N : { -1, 5, 6, 100 }) { if (!s.pick()) continue; mc::what("bad name %d", N); int t = 0; try { H h((H::Name)N); } catch (cybozu::Exception&) { t++; } try { cybozu::crypto::Hmac h((H::Name)N); } catch (cybozu::Exception&) { t++; } try { H::getName((H::Name)N); } catch (cybozu::Exception&) { t++; } MC_CHECK(t == 3, "accepted"); mc::eval(); } for (const char *n : { "", "sha", "sha2", "SHA1", "sha123", "sha2566" }) { if (!s.pick()) continue; mc::what("bad name %s", n); bool t = false; try { H::getName(std::string(n)); } catch (cybozu::Exception&) { t = true; } MC_CHECK(t, "accepted"); mc::eval(); } }
#endif
}
