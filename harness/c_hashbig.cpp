// messages whose bit or byte count leaves 32 bits (built-in code, no sanitizer)
#include "util.hpp"
#include <openssl/evp.h>
#include <sys/mman.h>
#define CYBOZU_DONT_USE_OPENSSL
#include <cybozu/sha1.hpp>
#include <cybozu/sha2.hpp>
template<class H> static void up(H& h, const char *p, size_t n) { h.update(p, n); }
template<class H> static void run(mc::Section& s, const char *nm, const EVP_MD *md)
{
	const size_t M = 1 << 20; static char buf[M + 7]; for (size_t i = 0; i < sizeof buf; i++) buf[i] = (char)(i * 31 + (i >> 8));
	for (uint64_t total : { (uint64_t)1 << 29, ((uint64_t)1 << 29) + 77, ((uint64_t)1 << 32) + 13 }) { if (!s.pick()) continue; mc::what("%s %llu bytes", nm, (unsigned long long)total); H h; EVP_MD_CTX *c = EVP_MD_CTX_new(); EVP_DigestInit_ex(c, md, 0); uint64_t left = total; while (left >= sizeof buf) { h.update(buf, sizeof buf); EVP_DigestUpdate(c, buf, sizeof buf); left -= sizeof buf; } EVP_DigestUpdate(c, buf, left); std::string g = h.digest(buf, (size_t)left); unsigned char o[64]; unsigned n; EVP_DigestFinal_ex(c, o, &n); EVP_MD_CTX_free(c); MC_CHECK(g == std::string((char*)o, n), "wrong digest"); mc::eval(); }
	// one update of more than 2^32 bytes (reading anonymous memory costs no pages)
	for (int how = 0; how < 2; how++) { if (!s.pick()) continue; const size_t n = ((size_t)1 << 32) + 13; mc::what("%s %zu zero bytes in one %s", nm, n, how ? "digest" : "update"); char *p = (char*)mmap(0, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { MC_CHECK(false, "no address space"); continue; } madvise(p, n, MADV_NOHUGEPAGE); H h; std::string g; if (how) g = h.digest(p, n); else { h.update(p, n); g = h.digest("", 0); } munmap(p, n); unsigned char o[64]; unsigned m; EVP_MD_CTX *c = EVP_MD_CTX_new(); EVP_DigestInit_ex(c, md, 0); memset(buf, 0, sizeof buf); size_t left = n; while (left) { size_t k = left < sizeof buf ? left : sizeof buf; EVP_DigestUpdate(c, buf, k); left -= k; } EVP_DigestFinal_ex(c, o, &m); EVP_MD_CTX_free(c); MC_CHECK(g == std::string((char*)o, m), "wrong digest"); mc::eval(); }
}
void mc_main() { mc::Section s("big"); run<cybozu::Sha1>(s, "Sha1", EVP_sha1()); run<cybozu::Sha256>(s, "Sha256", EVP_sha256()); run<cybozu::Sha512>(s, "Sha512", EVP_sha512()); }
