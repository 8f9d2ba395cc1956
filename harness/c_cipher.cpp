// crypto::Cipher against single-block AES chained by hand
#include "util.hpp"
#include <stdint.h>
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/aes.h>
#include <openssl/err.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <cybozu/crypto.hpp>
typedef cybozu::crypto::Cipher C;
static std::string data(size_t n, int k) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = k == 0 ? (char)(i * 37 + 11 * k + 5) : k == 1 ? (char)0x10 : (char)i; return s; }
static std::string enc(const std::string& m, const std::string& key, std::string iv, bool cbc)
{
	AES_KEY k; AES_set_encrypt_key((const unsigned char*)key.data(), (int)key.size() * 8, &k); std::string o; for (size_t i = 0; i < m.size(); i += 16) { std::string b = m.substr(i, 16); if (cbc) for (int j = 0; j < 16; j++) b[j] ^= iv[j]; unsigned char t[16]; AES_encrypt((const unsigned char*)b.data(), t, &k); iv.assign((char*)t, 16); o += iv; } return o;
}
static std::string pad(const std::string& m) { int p = 16 - (int)(m.size() % 16); return m + std::string(p, (char)p); }
static int run(C& c, const std::string& in, const std::vector<int>& cut, std::string& out)
{
	size_t p = 0, k = 0; out.clear(); while (p < in.size()) { size_t n = cut.empty() ? in.size() : (size_t)cut[k++ % cut.size()]; if (n > in.size() - p) n = in.size() - p; mc::Exact e(in.substr(p, n)); char *o = (char*)malloc(n + 17); int r = c.update(o, e.p, (int)n); if (r < 0) { free(o); return -2; } MC_CHECK((size_t)r <= n + 16, "update = %d", r); out.append(o, r); free(o); p += n; } char o[32]; int r = c.finalize(o); if (r > 0) out.append(o, r); return r < 0 ? -1 : 0;
}
void mc_main()
{
	std::vector<std::vector<int> > cuts = { {}, { 1 }, { 15, 1 }, { 16 }, { 17 }, { 5, 0, 7 }, { 31, 2 } };
	{ mc::Section s("cipher"); for (int N = 0; N < 6; N++) for (int n = 0; n <= mc::tier(80, 200); n++) for (int dk = 0; dk < 3; dk++) for (int padding = 0; padding < 2; padding++) { if (!s.pick()) continue; mc::what("name %d length %d data %d padding %d", N, n, dk, padding); ERR_clear_error(); C c((C::Name)N), d((C::Name)N); size_t kl = C::getSize((C::Name)N) / 8; MC_CHECK(kl == (size_t)(16 + 8 * (N % 3)), "getSize"); std::string key = data(kl, 2), iv = data(16, 0), m = data(n, dk); bool cbc = N < 3; std::string want = enc(padding ? pad(m) : m.substr(0, n / 16 * 16), key, iv, cbc);
			for (auto& a : cuts) for (auto& b : cuts) { c.setup(C::Encoding, key, iv, padding != 0); std::string o, x; int r = run(c, m, a, o); if (!padding && n % 16) { MC_CHECK(r == -1, "incomplete block accepted"); MC_CHECK(o == want, "complete blocks"); continue; } MC_CHECK(r == 0 && o == want, "encoding %d: %s", r, mc::hex(o).c_str()); d.setup(C::Decoding, key, cbc ? iv + "more" : "", padding != 0); r = run(d, o, b, x); MC_CHECK(r == 0 && x == m, "decoding %d: %s", r, mc::hex(x).c_str()); mc::state(); }
			if (padding) { std::string o = want; d.setup(C::Decoding, key, iv, true); std::string x; MC_CHECK(run(d, o.substr(0, o.size() - 1), {}, x) == -1, "truncated accepted"); for (int p : { 0, 17, 0x80, 0xff }) { std::string bad = pad(m); bad[bad.size() - 1] = (char)p; d.setup(C::Decoding, key, iv, true); MC_CHECK(run(d, enc(bad, key, iv, cbc), {}, x) == -1, "padding byte %02x accepted", p); } }
			mc::eval(n > 0); } }
	{ mc::Section s("copies"); for (int N = 0; N < 6; N++) for (int n = 0; n <= 48; n++) for (int how = 0; how < 3; how++) { if (!s.pick()) continue; mc::what("name %d copied after %d bytes, how %d", N, n, how); for (int rep = 0; rep < 2; rep++) { size_t b0 = __sanitizer_get_current_allocated_bytes(); { size_t kl = C::getSize((C::Name)N) / 8; std::string key = data(kl, 0), iv = data(16, 2), m = data(64, 0); C *a = new C((C::Name)N); a->setup(C::Encoding, key, iv); char o[128]; int r = a->update(o, m.data(), n); MC_CHECK(r == n / 16 * 16, "update = %d", r); std::string oa(o, r), ob = oa; C *b; if (how == 0) b = new C(*a); else { b = new C(how == 1 ? (C::Name)N : (C::Name)((N + 1) % 6)); if (how == 2) b->setup(C::Decoding, data(C::getSize((C::Name)((N + 1) % 6)) / 8, 1), iv); *b = *a; *b = *b; } std::string m2 = data(64, 2); r = a->update(o, m.data() + n, 64 - n); oa.append(o, r); MC_CHECK(oa == enc(m, key, iv, N < 3) && a->finalize(o) == 0, "original"); delete a; r = b->update(o, m2.data(), 64 - n); ob.append(o, r); MC_CHECK(ob == enc(m.substr(0, n) + m2.substr(0, 64 - n), key, iv, N < 3) && b->finalize(o) == 0, "copy after the original is gone"); b->setup(C::Encoding, key, iv); std::string x; MC_CHECK(run(*b, m, {}, x) == 0 && x == enc(m, key, iv, N < 3), "copy set up again"); delete b; } if (rep) MC_CHECK(__sanitizer_get_current_allocated_bytes() == b0, "leak"); } mc::eval(); }
		for (int N = 0; N < 6; N++) for (int how = 0; how < 2; how++) { if (!s.pick()) continue; mc::what("name %d copied before setup", N); for (int rep = 0; rep < 2; rep++) { size_t b0 = __sanitizer_get_current_allocated_bytes(); { C a((C::Name)N); C b(a); C c; if (how) { c = a; b = c; } size_t kl = C::getSize((C::Name)N) / 8; std::string key = data(kl, 0), iv = data(16, 2), m = data(64, 0), x; b.setup(C::Encoding, key, iv); MC_CHECK(run(b, m, {}, x) == 0 && x == enc(m, key, iv, N < 3), "copy"); a.setup(C::Encoding, key, iv); MC_CHECK(run(a, m, {}, x) == 0 && x == enc(m, key, iv, N < 3), "original"); } if (rep) MC_CHECK(__sanitizer_get_current_allocated_bytes() == b0, "leak"); } mc::eval(); } }
	// one object set up again and again, and copies of decoders
	{ mc::Section s("reuse"); for (int N = 0; N < 6; N++) mc::forSeq(8, 3, [&](const std::vector<int>& v) { if (!s.pick()) return; mc::what("name %d: setups %d, %d, %d", N, v[0], v[1], v[2]); size_t kl = C::getSize((C::Name)N) / 8; C c((C::Name)N); for (size_t i = 0; i < v.size(); i++) { bool dec = v[i] & 1, padding = (v[i] & 2) != 0, stop = (v[i] & 4) != 0; std::string key = data(kl, (int)i), iv = data(16, 2 - (int)i), m = data(32, 0), x, e = enc(padding ? pad(m) : m, key, iv, N < 3); c.setup(dec ? C::Decoding : C::Encoding, key, iv, padding); if (stop) { char o[64]; c.update(o, dec ? e.data() : m.data(), 21); continue; } int r = run(c, dec ? e : m, { 7 }, x); MC_CHECK(r == 0 && x == (dec ? m : e), "setup %zu: %d, %zu bytes", i, r, x.size()); } mc::eval(); });
		for (int N = 0; N < 6; N++) for (int n = 0; n <= 64; n++) for (int padding = 0; padding < 2; padding++) for (int how = 0; how < 2; how++) { if (!s.pick()) continue; mc::what("name %d decoder copied after %d bytes, padding %d, how %d", N, n, padding, how); size_t kl = C::getSize((C::Name)N) / 8; std::string key = data(kl, 0), iv = data(16, 2), m = data(64, 0), e = enc(padding ? pad(m) : m, key, iv, N < 3); C a((C::Name)N); a.setup(C::Decoding, key, iv, padding != 0); char o[160]; int r = a.update(o, e.data(), n); MC_CHECK(r >= 0 && r <= n, "update = %d", r); std::string oa(o, r < 0 ? 0 : r), ob = oa, t; C b((C::Name)((N + how) % 6)); if (how) b = a; else { C q(a); b = q; } int ra = run(a, e.substr(n), { 3 }, t); oa += t; int rb = run(b, e.substr(n), { 11 }, t); ob += t; MC_CHECK(ra == 0 && oa == m, "original: %d, %zu bytes", ra, oa.size()); MC_CHECK(rb == 0 && ob == m, "copy: %d, %zu bytes", rb, ob.size()); mc::eval(); } }
	// one update of more than 16 and 24 bits
	{ mc::Section s("large"); for (int N = 0; N < 6; N++) for (size_t n : { size_t(65536), size_t(65552), size_t(1) << 24, (size_t(1) << 24) + 16 }) { if (!s.pick()) continue; mc::what("name %d, %zu bytes in one update", N, n); size_t kl = C::getSize((C::Name)N) / 8; std::string key = data(kl, 0), iv = data(16, 2), m = data(n, 0), o(n + 32, 0), x(n + 32, 0); C c((C::Name)N), d((C::Name)N); c.setup(C::Encoding, key, iv); int r = c.update(&o[0], m.data(), (int)n); MC_CHECK(r == (int)n && o.substr(0, n) == enc(m, key, iv, N < 3), "update = %d", r); d.setup(C::Decoding, key, iv); r = d.update(&x[0], o.data(), (int)n); MC_CHECK(r == (int)n && x.compare(0, n, m) == 0, "decoding = %d", r); mc::eval(); } }
	{ mc::Section s("refused"); for (int N = 0; N < 6; N++) for (int kl = 0; kl <= 40; kl++) for (int il = 0; il <= 17; il++) { if (!s.pick()) continue; mc::what("name %d key of %d bytes iv of %d bytes", N, kl, il); C c((C::Name)N); std::string key(kl, 'k'), iv(il, 'i'); bool thr = false; try { c.setup(C::Encoding, key, iv); } catch (cybozu::Exception&) { thr = true; } bool bad = kl != 16 + 8 * (N % 3) || (N < 3 && il < 16); MC_CHECK(thr == bad, "thrown %d", thr); mc::eval(); }
		for (int N : { -1, 6, 7, 1000 }) { if (!s.pick()) continue; mc::what("bad name %d", N); for (int k = 0; k < 2; k++) { size_t b0 = __sanitizer_get_current_allocated_bytes(); bool thr = false; try { C c((C::Name)N); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "accepted"); if (k) MC_CHECK(__sanitizer_get_current_allocated_bytes() == b0, "leak"); } bool thr = false; try { C::getSize((C::Name)N); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "getSize accepted"); mc::eval(); } }
}
