// Json::Value: all short histories of assignment, copy, swap and nesting over three values, against a value model; no leak, no double free, also when an allocation fails
#include "util.hpp"
#include <new>
static long g_calls, g_failAt = -1; static bool g_on; extern "C" size_t __sanitizer_get_current_allocated_bytes();
void *operator new(size_t n) { if (g_on && g_calls++ == g_failAt) throw std::bad_alloc(); void *p = malloc(n ? n : 1); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
#include <string>
#include <cybozu/json.hpp>
typedef cybozu::Json J; typedef J::Value V;
// model as text
static std::string show(const V& v)
{
	int k = v.isNull() + v.isString() + v.isObject() + v.isArray() + v.isBool() + v.isNumber(); if (k != 1) return "?"; if (v.isNull()) return "null"; if (v.isString()) return "'" + v.getString() + "'"; if (v.isBool()) return v.getBool() ? "true" : "false"; if (v.isNumber()) return mc::fmt("%.17g", v.getNumber()); if (v.isArray()) { std::string s = "["; const J::Array& a = v.getArray(); for (size_t i = 0; i < a.size(); i++) s += show(a[i]) + ","; return s + "]"; } std::string s = "{"; const J::Object& o = v.getObject(); for (J::Object::const_iterator i = o.begin(); i != o.end(); ++i) s += i->first + ":" + show(i->second) + ","; return s + "}";
}
void mc_main()
{
	mc::Section s("history"); const int NOP = 18; mc::forSeqUpTo(NOP, mc::tier(4, 5), [&](const std::vector<int>& q) { if (!s.pick()) return; std::string w; for (int i : q) w += (char)('a' + i); mc::what("ops %s", w.c_str()); long total = 0;
		for (long f = -1; f < total; f++) { g_calls = 0; g_failAt = f; size_t b0 = __sanitizer_get_current_allocated_bytes(); { V *v[3]; std::string m[3] = { "null", "null", "null" }; for (int i = 0; i < 3; i++) v[i] = new V; std::string longs(40, 'L');
			for (size_t k = 0; k < q.size(); k++) { std::string b[3] = { m[0], m[1], m[2] }; bool thr = false; int op = q[k]; J::Array arr; J::Object obj; if (op == 10 || op == 12) { arr.push_back(*v[0]); arr.push_back(*v[1]); } if (op == 11 || op == 13) { obj["k1"] = *v[0]; obj["k2"] = *v[1]; } std::string text = mc::fmt("text %zu ", k) + std::string("x\0y", 3) + longs; std::string key = "k"; (void)key; g_on = true; try { switch (op) {
					case 0: *v[0] = V(text); g_on = false; b[0] = "'" + text + "'"; break; case 1: *v[0] = V("c"); g_on = false; b[0] = "'c'"; break; case 2: *v[0] = V(0.1); g_on = false; b[0] = mc::fmt("%.17g", 0.1); break; case 3: *v[0] = V(true); g_on = false; b[0] = "true"; break; case 4: *v[0] = V(); g_on = false; b[0] = "null"; break;
					case 5: *v[1] = *v[0]; g_on = false; b[1] = b[0]; break; case 6: *v[0] = *v[1]; g_on = false; b[0] = b[1]; break; case 7: v[0]->swap(*v[1]); g_on = false; std::swap(b[0], b[1]); break; case 8: { V& r = *v[0]; *v[0] = r; g_on = false; break; } case 9: { V c(*v[0]); v[2]->swap(c); g_on = false; b[2] = b[0]; break; }
					case 10: *v[0] = V(arr); g_on = false; b[0] = "[" + b[0] + "," + b[1] + ",]"; break; case 11: *v[0] = V(obj); g_on = false; b[0] = "{k1:" + b[0] + ",k2:" + b[1] + ",}"; break; case 12: *v[2] = V(arr); g_on = false; b[2] = "[" + b[0] + "," + b[1] + ",]"; break; case 13: *v[1] = V(obj); g_on = false; b[1] = "{k1:" + b[0] + ",k2:" + b[1] + ",}"; break;
					case 14: if (v[0]->isArray()) { const V& c = v[0]->getArray()[0]; g_on = false; std::string t = show(c); g_on = true; *v[0] = c; g_on = false; b[0] = t; } break; case 15: if (v[0]->isObject()) { const V& c = v[0]->getObject().begin()->second; g_on = false; std::string t = show(c); g_on = true; *v[0] = c; g_on = false; b[0] = t; } break; case 16: if (v[0]->isArray()) { const V& c = v[0]->getArray()[1]; g_on = false; std::string t = show(c); g_on = true; *v[1] = c; g_on = false; b[1] = t; } break;
					default: *v[0] = V(false); g_on = false; b[0] = "false"; } g_on = false; } catch (std::bad_alloc&) { g_on = false; thr = true; } if (!thr) for (int i = 0; i < 3; i++) m[i] = b[i]; for (int i = 0; i < 3; i++) { std::string g = show(*v[i]); MC_CHECK(g == m[i], "value %d after step %zu is %s, expected %s", i, k, g.c_str(), m[i].c_str()); } mc::state(); }
			for (int i = 0; i < 3; i++) delete v[i]; } MC_CHECK(__sanitizer_get_current_allocated_bytes() == b0, "%zd bytes leaked", (ssize_t)(__sanitizer_get_current_allocated_bytes() - b0)); if (f < 0) total = g_calls; } mc::eval(!q.empty()); });
	{ mc::Section s2("values"); // every kind of critical string and number survives construction, copy, assignment, swap and nesting unchanged
		std::vector<std::string> S = { "", std::string(1, '\0'), std::string("a\0b", 3), "\xff\x80", "\"\\/", std::string(15, 'x'), std::string(16, 'x'), std::string(5000, 'y') }; for (int c = 0; c < 256; c++) S.push_back(std::string(3, (char)c));
		double D[] = { 0.0, -0.0, 1.0, 0.1, 1e300, -1e-300, 4.9e-324, 1.7976931348623157e308, 9007199254740993.0, 123456789.123456789, 1.0 / 3, (double)0x7fffffffffffffffLL, __builtin_inf(), -__builtin_inf(), __builtin_nan("") };
		for (size_t i = 0; i < S.size() + 15 + 2; i++) { if (!s2.pick()) continue; mc::what("value %zu", i); V v = i < S.size() ? V(S[i]) : i < S.size() + 15 ? V(D[i - S.size()]) : V(i == S.size() + 15);
			V cp(v), as, sw; as = v; { V t(v); sw.swap(t); } J::Array a; a.push_back(v); J::Object o; o["k"] = v; V va(a), vo(o), va2(va); const V *all[] = { &v, &cp, &as, &sw, &va.getArray()[0], &vo.getObject().begin()->second, &va2.getArray()[0] };
			for (const V *x : all) { if (i < S.size()) MC_CHECK(x->isString() && x->getString() == S[i], "string changed"); else if (i < S.size() + 15) { double d = x->isNumber() ? x->getNumber() : 7; MC_CHECK(x->isNumber() && memcmp(&d, &D[i - S.size()], 8) == 0, "number changed to %.17g", d); } else MC_CHECK(x->isBool() && x->getBool() == (i == S.size() + 15), "bool changed"); }
			mc::eval(); } }
}
