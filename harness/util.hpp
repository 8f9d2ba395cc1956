#pragma once
// enumeration helpers
#include "mc.hpp"
namespace mc {
// all sequences of exactly n digits base k
template<class F> inline void forSeq(int k, int n, F f)
{
	std::vector<int> v(n, 0);
	for (;;) {
		f(v);
		int i = 0; while (i < n && ++v[i] == k) v[i++] = 0;
		if (i == n) return;
	}
}
template<class F> inline void forSeqUpTo(int k, int n, F f) { for (int i = 0; i <= n; i++) forSeq(k, i, f); }
// all strings of length <= n over the alphabet
template<class F> inline void forStr(const std::string& al, int n, F f)
{
	forSeqUpTo((int)al.size(), n, [&](const std::vector<int>& v) { std::string s(v.size(), 0); for (size_t i = 0; i < v.size(); i++) s[i] = al[v[i]]; f(s); });
}
// memory of exactly n bytes (AddressSanitizer sees any access outside)
struct Exact { char *p; size_t n; Exact(const std::string& s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { if (n) memcpy(p, s.data(), n); else { free(p); p = (char*)malloc(0); } } ~Exact() { free(p); } const char *b() const { return p; } const char *e() const { return p + n; } private: Exact(const Exact&); void operator=(const Exact&); };
}
// counting of live blocks allocated by operator new
#ifdef MC_COUNT_NEW
#include <new>
inline long& liveBlocks() { static long n; return n; }
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); liveBlocks()++; return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); liveBlocks()++; return p; }
void operator delete(void *p) noexcept { if (p) { liveBlocks()--; free(p); } }
void operator delete[](void *p) noexcept { if (p) { liveBlocks()--; free(p); } }
void operator delete(void *p, size_t) noexcept { if (p) { liveBlocks()--; free(p); } }
void operator delete[](void *p, size_t) noexcept { if (p) { liveBlocks()--; free(p); } }
#endif
