// Concurrent use: (1) const operations of one shared object from several threads, (2) any operations on separate objects,
// (3) log messages from several threads.  Data races (happens-before) and results are judged in every explored schedule.
#include "sched.hpp"
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <cybozu/sucvector.hpp>
#include <cybozu/csucvector.hpp>
#include <cybozu/wavelet_matrix.hpp>
#include <cybozu/fmindex.hpp>
#include <cybozu/bitvector.hpp>
#include <cybozu/frequency.hpp>
#include <cybozu/config.hpp>
#include <cybozu/json.hpp>
#include <cybozu/time.hpp>
#include <cybozu/string.hpp>
#include <cybozu/string_operation.hpp>
#include <cybozu/array.hpp>
#include <cybozu/nlp/sparse.hpp>
#include <cybozu/option.hpp>
#include <cybozu/itoa.hpp>
#include <cybozu/atoi.hpp>
#include <cybozu/base64.hpp>
#include <cybozu/line_stream.hpp>
#include <cybozu/csv.hpp>
#include <cybozu/minixml.hpp>
#include <cybozu/serializer.hpp>
#include <cybozu/stream.hpp>
#define CYBOZU_DONT_USE_OPENSSL
#include <cybozu/sha1.hpp>
#include <cybozu/sha2.hpp>
#include <cybozu/siphash.hpp>
#include <cybozu/hash.hpp>
#include <cybozu/xorshift.hpp>
#include <cybozu/pcg.hpp>
#include <cybozu/format.hpp>
#include <cybozu/exception.hpp>
#include <cybozu/log.hpp>
#include <cybozu/zlib.hpp>
using namespace sched;
typedef std::string Str; typedef std::function<Str()> Op;
struct Fn { std::function<void()> f; static void *run(void *a) { ((Fn*)a)->f(); return 0; } };
static Str num(uint64_t x) { char b[32]; int n = 0; do { b[n++] = (char)('0' + x % 10); x /= 10; } while (x); Str s; while (n) s += b[--n]; return s + " "; }
// functions of the C library that answer from static storage: two threads of the library may not rely on them
static std::map<Str, int> *g_static;
static void shared(const char *w) { if (!active()) return; Quiet q; if (!g_static) return; int me = self(); auto i = g_static->find(w); if (i == g_static->end()) (*g_static)[w] = me; else if (i->second != me) violation("%s, which uses static storage, is called by two threads", w); }
#define STATICFN(R, name, P, A) extern "C" R __real_##name P; extern "C" R __wrap_##name P { shared(#name); return __real_##name A; }
STATICFN(struct tm*, gmtime, (const time_t *t), (t))
STATICFN(struct tm*, localtime, (const time_t *t), (t))
STATICFN(char*, asctime, (const struct tm *t), (t))
STATICFN(char*, ctime, (const time_t *t), (t))
STATICFN(char*, strtok, (char *a, const char *b), (a, b))
STATICFN(char*, strerror, (int e), (e))
STATICFN(int, rand, (void), ())
// every pair of operations from two threads, then all together from three
static void pairs(const char *nm, const std::vector<Op>& ops)
{
	mc::Section s(nm);
	for (size_t i = 0; i < ops.size(); i++) for (size_t j = i; j < ops.size(); j++) if (s.pick()) {
		Str wi, wj; { wi = ops[i](); wj = ops[j](); } // reference, single threaded
		for (int thr = 2; thr <= 3; thr++) { Opts o; o.preempt = 2;
			explore(mc::fmt("%s: operations %zu and %zu, %d threads", nm, i, j, thr), [&] {
				std::map<Str, int> st; Fn f[3]; pthread_t h[3]; Str r[3]; { Quiet q; g_static = &st; for (int k = 0; k < thr; k++) { const Op *op = &ops[k == 1 ? j : i]; Str *res = &r[k]; f[k].f = [=] { Str x = (*op)(); Quiet q; *res = x; }; } }
				for (int k = 0; k < thr; k++) pthread_create(&h[k], 0, Fn::run, &f[k]);
				for (int k = 0; k < thr; k++) pthread_join(h[k], 0);
				{ Quiet q; g_static = 0; for (int k = 0; k < thr; k++) if (r[k] != (k == 1 ? wj : wi)) violation("operation %zu gives '%.100s' instead of '%.100s' when run concurrently", k == 1 ? j : i, r[k].c_str(), (k == 1 ? wj : wi).c_str()); }
			}, [&](Run&) { }, o); }
	}
}
template<class V> static Str walk(const V& v) { Str s; for (typename V::const_iterator i = v.begin(), e = v.end(); i != e; ++i) { s += num(i->pos()); s += num((uint64_t)i->val()); } return s; }
template<class A, class B> static Str inter(const A& a, const B& b) { Str s; typedef cybozu::nlp::Intersection<A, B> I; I in(a, b); for (typename I::const_iterator i = in.begin(), e = in.end(); i != e; ++i) s += num(i->pos()); typedef cybozu::nlp::Union<A, B> U; U u(a, b); for (typename U::const_iterator i = u.begin(), e = u.end(); i != e; ++i) s += num(i->pos()) + num(i->getMode()); double d; cybozu::nlp::InnerProduct(&d, a, b); return s + num((uint64_t)d); }
template<class V> static V sparse(int seed) { V v; size_t p = 0; for (int i = 0; i < 6; i++) { p += 1 + (seed * (i + 1) * 37) % 90; v.push_back(p, i + 1); } return v; }
template<class SV> static void sucOps(std::vector<Op>& v, const SV& s, size_t n) { v.push_back([&s, n] { Str r; for (size_t i = 0; i <= n; i += 17) r += num(s.rank1(i)) + num(s.rank0(i)); return r; }); v.push_back([&s, n] { Str r; for (size_t i = 0; i < n; i += 13) r += s.get(i) ? '1' : '0'; return r; }); }
static Str cat(const std::vector<Str>& v) { Str s; for (auto& x : v) s += x + "|"; return s; }
static void objects()
{
	const size_t n = 700; std::vector<uint64_t> blk((n + 63) / 64); for (size_t i = 0; i < n; i++) if ((i * i / 3 + i / 7) % 3 == 0) blk[i / 64] |= (uint64_t)1 << (i % 64);
	{ cybozu::SucVectorT<uint64_t, true> s; s.init(&blk[0], n); std::vector<Op> v; sucOps(v, s, n); v.push_back([&] { Str r; for (size_t i = 0; i < s.size(true); i += 11) r += num(s.select1(i)); for (size_t i = 0; i < s.size(false); i += 19) r += num(s.select0(i)); return r; }); v.push_back([&] { cybozu::SucVectorT<uint64_t, true> c(s); std::stringstream ss; s.save(ss); return num(c.rank1(500)) + num(ss.str().size()); }); pairs("SucVector", v); }
	{ cybozu::CSucVector s; s.init(&blk[0], n); std::vector<Op> v; sucOps(v, s, n); v.push_back([&] { std::stringstream ss; s.save(ss); return num(ss.str().size()); }); pairs("CSucVector", v); }
	{ std::vector<uint16_t> x; for (size_t i = 0; i < 300; i++) x.push_back((uint16_t)((i * 7 + i * i / 5) % 16)); cybozu::WaveletMatrixT<> w; w.init(x, 4); std::vector<Op> v; v.push_back([&] { Str r; for (size_t i = 0; i < 300; i += 7) r += num(w.get(i)); return r; }); v.push_back([&] { Str r; for (int k = 0; k < 16; k++) r += num(w.rank(k, 150 + k)) + num(w.rankLt(k, 99)); return r; }); v.push_back([&] { Str r; for (int k = 0; k < 16; k++) r += num(w.select(k, 3)) + num(w.size(k)); uint16_t y; r += num(w.get(&y, 77)) + num(y); return r; }); pairs("WaveletMatrix", v); }
	{ Str t; for (int i = 0; i < 120; i++) t += "abcab"[i * i % 5]; cybozu::FMindexT<uint8_t> f; f.init(t.begin(), t.end(), 4); std::vector<Op> v; v.push_back([&] { typedef cybozu::FMindexT<uint8_t> FM; Str r; for (const char *k : { "a", "ab", "bca", "zz", "cab" }) { size_t b = 0, e = 0; bool ok = f.getRange(&b, &e, k); r += ok ? num(b) + num(e) : "- "; } return r; }); v.push_back([&] { Str r; for (size_t i = 0; i < t.size(); i += 5) r += num(f.convertPosition(i)); return r; }); v.push_back([&] { Str r; for (size_t i = 0; i < t.size(); i += 31) { Str p; f.getPrevString(p, i, 6); r += p + ","; } return r; }); pairs("FMindex", v); }
	{ cybozu::BitVector b, c; b.resize(n); c.resize(n); for (size_t i = 0; i < n; i += 3) b.set(i, true); std::vector<Op> v; v.push_back([&] { Str r; for (size_t i = 0; i < n; i += 9) r += b.get(i) ? '1' : '0'; return r; }); v.push_back([&] { cybozu::BitVector d; b.extract(d, 13, 200); return num(d.size()) + num(d.getBlock()[0]) + num(b.extract(5, 60)); }); v.push_back([&] { cybozu::BitVector d(b); return Str(d == b ? "same" : "other") + (b == c ? "same" : "other"); }); pairs("BitVector", v); }
	{ Str t = "the quick brown fox jumps over the lazy dog"; cybozu::Frequency<char> f(t.begin(), t.end()); std::vector<int> e; for (int i = 0; i < 60; i++) e.push_back(i * i % 11); cybozu::Frequency<int> g(e.begin(), e.end()); std::vector<Op> v; v.push_back([&] { Str r; for (char c = 'a'; c <= 'z'; c++) r += num(f.getFrequency(c)); return r; }); v.push_back([&] { Str r; for (size_t i = 0; i < f.size(); i++) r += num(f.getIndex(f.getElement(i))); return r; }); v.push_back([&] { Str r; for (size_t i = 0; i < g.size(); i++) r += num(g.getIndex(g.getElement(i))) + num(g.getFrequency(g.getElement(i))); return r; }); v.push_back([&] { Str r; for (int i = 0; i < 12; i++) r += num(g.getFrequency(i)); return r; }); pairs("Frequency", v); }
	{ typedef cybozu::nlp::SparseVector<int> P; typedef cybozu::nlp::SparseVector<int, cybozu::nlp::option::CompressedPositionTbl> C; mc::Section dummy("unused"); std::vector<Op> v;
		// a vector no one has looked at yet for each execution
		v.push_back([] { return Str(); }); mc::Section s("SparseVector fresh"); for (int a = 0; a < 5; a++) for (int b = a; b < 5; b++) if (s.pick()) { Opts o; o.preempt = 2; explore(mc::fmt("fresh sparse vectors: readers %d and %d", a, b), [&] { P *p, *p2; C *c, *c2; Fn f[2]; pthread_t h[2]; Str r[2], want[5]; { Quiet q; p = new P(sparse<P>(1)); p2 = new P(sparse<P>(2)); c = new C(sparse<C>(1)); c2 = new C(sparse<C>(3)); { P x(*p), y(*p2); C z(*c), w(*c2); want[0] = walk(x); want[1] = walk(z); want[2] = inter(x, z); want[3] = inter(z, w); want[4] = num((uint64_t)z.norm()) + (z == w ? "=" : "!"); } for (int k = 0; k < 2; k++) { int what = k ? b : a; f[k].f = [=, &r] { Str x; switch (what) { case 0: x = walk(*p); break; case 1: x = walk(*c); break; case 2: x = inter(*p, *c); break; case 3: x = inter(*c, *c2); break; default: x = num((uint64_t)c->norm()) + (*c == *c2 ? "=" : "!"); } Quiet q; r[k] = x; }; } } pthread_create(&h[0], 0, Fn::run, &f[0]); pthread_create(&h[1], 0, Fn::run, &f[1]); pthread_join(h[0], 0); pthread_join(h[1], 0); { Quiet q; for (int k = 0; k < 2; k++) if (r[k] != want[k ? b : a]) violation("reader %d sees %s instead of %s", k ? b : a, r[k].c_str(), want[k ? b : a].c_str()); delete p; delete p2; delete c; delete c2; } }, [&](Run&) { }, o); } }
	{ cybozu::Config c; std::istringstream is("a=1\n[sec]\nb=two\nc=-3\n[other]\nd=x\n"); cybozu::Config cc; cc.load(is); const cybozu::Config& k = cc; std::vector<Op> v; v.push_back([&] { return k.getSection("sec").getValue("b").operator const Str&(); }); v.push_back([&] { return num((uint64_t)(int)k.getSection().getValue("a")) + num((uint64_t)(k.getSection("sec").getValue("c", 5) + 10)) + num((uint64_t)k.getSection("sec").getValue("zz", 5)); }); v.push_back([&] { return Str(k.querySection("none") ? "there" : "none") + (k.getSection("other").queryValue("d") ? "d" : ""); }); v.push_back([&] { return k.toString(); }); pairs("Config", v); }
	{ cybozu::Json::Array a; for (int i = 0; i < 4; i++) a.push_back(cybozu::Json::Value(i * 1.5)); cybozu::Json::Object o; o["x"] = cybozu::Json::Value(Str("text")); o["y"] = cybozu::Json::Value(a); cybozu::Json::Value val(o); const cybozu::Json::Value& j = val; std::vector<Op> v; v.push_back([&] { return j.getObject().find("x")->second.getString(); }); v.push_back([&] { Str r; const cybozu::Json::Array& x = j.getObject().find("y")->second.getArray(); for (size_t i = 0; i < x.size(); i++) r += num((uint64_t)(x[i].getNumber() * 10)); return r; }); v.push_back([&] { cybozu::Json::Value c(j); return Str(c.isObject() ? "obj" : "?"); }); pairs("Json", v); }
	{ cybozu::Time t("2012-03-04T05:06:07"), u("2012-03-04T05:06:08"); std::vector<Op> v; v.push_back([&] { return t.toString(true); }); v.push_back([&] { return u.toString(false); }); v.push_back([&] { Str o; t.toString(o, "%Y/%m/%d", false); return o + (t < u ? "<" : ">") + num((uint64_t)t.getTime()); }); pairs("Time", v); }
	{ cybozu::String a(Str("hello w\xc3\xb6rld hello")), b(a.substr(6)); std::vector<Op> v; v.push_back([&] { return num(a.find(b)) + num(a.rfind(a.substr(0, 5))) + num(a.size()); }); v.push_back([&] { return a.toUtf8() + cybozu::ToUtf8(b.toUtf16()); }); v.push_back([&] { cybozu::String c(a); c += b; return num(c.size()) + (a < b ? "<" : ">="); }); pairs("String", v); }
	{ cybozu::AlignedArray<int> a(20); for (int i = 0; i < 20; i++) a[i] = i * i; const cybozu::AlignedArray<int>& k = a; std::vector<Op> v; v.push_back([&] { Str r; for (size_t i = 0; i < k.size(); i++) r += num(k[i]); return r; }); v.push_back([&] { cybozu::AlignedArray<int> c(k); return num(c[19]) + num(k.end() - k.begin()); }); pairs("AlignedArray", v); }
	{ cybozu::Exception e("name"); e << "text" << 5; const cybozu::Exception& k = e; std::vector<Op> v; v.push_back([&] { return Str(k.what()); }); v.push_back([&] { return k.toString(); }); v.push_back([&] { cybozu::Exception c(k); return Str(c.what()) + cybozu::ConvertErrorNoToString(2) + cybozu::ErrorNo(13).toString() + cybozu::ErrorNo(9999).toString(); }); pairs("Exception", v); }
}
struct OutS { Str s; void write(const void *p, size_t n) { s.append((const char*)p, n); } };
static void separate()
{
	std::vector<Op> v;
	v.push_back([] { Str r; for (int64_t x : { (int64_t)0, (int64_t)-1, INT64_MIN, INT64_MAX, (int64_t)1234567 }) { r += cybozu::itoa(x) + " "; r += cybozu::itohex((uint64_t)x) + " " + cybozu::itobin((uint16_t)x) + " "; } return r; });
	v.push_back([] { Str r; for (const char *p : { "0", "-12", "2147483647" }) r += num((uint64_t)(int)cybozu::atoi(Str(p)) & 0xffffffff); r += num(cybozu::hextoi(Str("ff12"))); return r; });
	v.push_back([] { Str in(100, 'q'), o, d; { cybozu::StringInputStream is(in); cybozu::StringOutputStream os(o); cybozu::EncodeToBase64(os, is, 76); } { cybozu::StringInputStream is(o); cybozu::StringOutputStream os(d); cybozu::DecodeFromBase64(os, is); } return o + (d == in ? "ok" : "bad"); });
	v.push_back([] { Str src = "one\r\ntwo\nthree"; cybozu::StringInputStream is(src); cybozu::LineStreamT<cybozu::StringInputStream> l(is); Str s, r; while (l.next(s)) r += s + "|"; return r; });
	v.push_back([] { std::istringstream is("a,\"b\"\"c\",d\r\n1,2,3\r\n"); cybozu::CsvReaderT<std::istringstream> c(is); std::vector<Str> x; Str r; while (c.read(x)) r += cat(x); OutS o; return r; });
	v.push_back([] { Str t = "<?xml version=\"1.0\" encoding=\"utf-8\"?><a x='1'><b>text</b><b/></a>"; cybozu::MiniXml x(&t[0], &t[0] + t.size()); return x.get().name + num(x.get().child.size()); });
	v.push_back([] { std::map<Str, std::vector<int> > m; m["k"] = { 1, 2, 300 }; m["l"]; std::stringstream ss; cybozu::save(ss, m); std::map<Str, std::vector<int> > n; cybozu::load(n, ss); return Str(m == n ? "same" : "differ") + num(ss.str().size()); });
	v.push_back([] { return cybozu::Sha1().digest(Str("abc")) + cybozu::Sha256().digest("abc") + cybozu::Sha512().digest("abc"); });
	v.push_back([] { char o[32]; cybozu::hmac256(o, "key", 3, "message", 7); return Str(o, 32) + num(cybozu::hash32("abc", 3)) + num(cybozu::hash64("abc", 3)); });
	v.push_back([] { cybozu::XorShift g(5); cybozu::XorShift128Plus h(6); cybozu::Xoroshiro128Plus h2(9); cybozu::Pcg32 p(7); Str r; for (int i = 0; i < 4; i++) r += num(g.get32()) + num(h.get64()) + num(h2.get64()) + num(p.get32()); return r; });
	v.push_back([] { return cybozu::format("%d %s %05.2f", 5, "abc", 1.25); });
	v.push_back([] { Str a = " MiXed  ", b; cybozu::ToLower(b, a); cybozu::Trim(a); std::vector<Str> x; cybozu::Split(x, Str("a,b,,c"), ','); return a + b + cat(x); });
	v.push_back([] { cybozu::Time t; t.fromString("2001-02-03T04:05:06"); return t.toString(false) + cybozu::Time(1000000, 5).toString(true); });
	v.push_back([] { const char *av[] = { "prog", "-n", "12", "-v", "-s", "str" }; int n = 0; bool b = false; Str s; cybozu::Option o; o.appendOpt(&n, 3, "n", "num"); o.appendBoolOpt(&b, "v", "flag"); o.appendOpt(&s, "", "s", "str"); bool ok = o.parse(6, av); return Str(ok ? "ok " : "bad ") + num(n) + (b ? "b" : "") + s; });
	v.push_back([] { Str u8 = "\xe3\x81\x82z\xf0\xa0\xae\x9f"; cybozu::String16 u16; bool ok = cybozu::ConvertUtf8ToUtf16(&u16, u8); Str back; ok = ok && cybozu::ConvertUtf16ToUtf8(&back, u16); cybozu::String t(u8); return Str(ok && back == u8 ? "ok" : "bad") + num(t.size()) + t.toUtf8(); });
	v.push_back([] { Str d(300, 'x'), c, r; c.resize(400); size_t n = cybozu::ZlibCompress(&c[0], c.size(), d.data(), d.size()); r.resize(300); size_t m = cybozu::ZlibUncompress(&r[0], r.size(), c.data(), n); return num(n) + num(m) + (r == d ? "same" : "differ"); });
	v.push_back([] { cybozu::SucVector s; uint64_t b[3] = { 0x123456789abcdefULL, ~0ULL, 5 }; s.init(b, 150); return num(s.rank1(140)) + num(s.select1(7)); });
	v.push_back([] { Str t = "banana"; cybozu::FMindexT<uint8_t> f; f.init(t.begin(), t.end(), 2); size_t b = 0, e = 0; bool ok = f.getRange(&b, &e, "an"); return ok ? num(e - b) : Str("-"); });
	v.push_back([] { std::istringstream is("a=1\n[s]\nb=2\n"); cybozu::Config c; c.load(is); return c.toString(); });
	v.push_back([] { try { throw cybozu::Exception("x") << 1 << "y" << cybozu::ErrorNo(2); } catch (std::exception& e) { return Str(e.what()); } });
	pairs("separate objects", v);
}
// several threads log to one FILE; every call of stdio is a scheduling point
static Str *g_logText;
static int emit(FILE *f, const char *p, size_t n) { { Quiet q; g_logText->append(p, n); } return (int)n; }
extern "C" int __real_vfprintf(FILE *, const char *, va_list);
static bool logging() { return active() && g_logText; }
static int g_lockDepth, g_lockOwner = -1;
extern "C" void __real_flockfile(FILE *); extern "C" void __wrap_flockfile(FILE *f) { if (!logging()) { __real_flockfile(f); return; } int me = self(); if (g_lockOwner != me) { point("flockfile"); until("flockfile", [] { return g_lockOwner == -1; }); g_lockOwner = me; } g_lockDepth++; }
extern "C" void __real_funlockfile(FILE *); extern "C" void __wrap_funlockfile(FILE *f) { if (!logging()) { __real_funlockfile(f); return; } if (--g_lockDepth == 0) g_lockOwner = -1; }
static bool logPoint(const char *w) { if (g_lockOwner != -1 && g_lockOwner != self()) until(w, [] { return g_lockOwner == -1; }); return true; }
extern "C" int __real_fflush(FILE *); extern "C" int __wrap_fflush(FILE *f) { if (logging()) { point("fflush"); logPoint("fflush"); return 0; } return __real_fflush(f); }
extern "C" int __wrap_vfprintf(FILE *f, const char *fmt, va_list ap) { if (!logging()) return __real_vfprintf(f, fmt, ap); point("fprintf"); logPoint("fprintf"); char b[4096]; int n; { Quiet q; n = vsnprintf(b, sizeof b, fmt, ap); } return emit(f, b, n); }
extern "C" int __wrap_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = __wrap_vfprintf(f, fmt, ap); va_end(ap); return r; }
extern "C" size_t __real_fwrite(const void *, size_t, size_t, FILE *); extern "C" size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) { if (!logging()) return __real_fwrite(p, s, n, f); point("fwrite"); logPoint("fwrite"); emit(f, (const char*)p, s * n); return n; }
extern "C" int __real_fputs(const char *, FILE *); extern "C" int __wrap_fputs(const char *p, FILE *f) { if (!logging()) return __real_fputs(p, f); point("fputs"); logPoint("fputs"); emit(f, p, strlen(p)); return 1; }
extern "C" int __real_fputc(int, FILE *); extern "C" int __wrap_fputc(int c, FILE *f) { if (!logging()) return __real_fputc(c, f); point("fputc"); logPoint("fputc"); char x = (char)c; emit(f, &x, 1); return c; }
extern "C" int __wrap_putc(int c, FILE *f) { return __wrap_fputc(c, f); }
static void logs()
{
	mc::Section s("log"); for (int thr = 2; thr <= 3; thr++) for (int form = 0; form < 9; form++) for (int ms = 0; ms < 2; ms++) if (s.pick()) { Opts o; o.preempt = mc::tier(2, 4); Str text;
		FILE *sink = fopen("/dev/null", "w"); { cybozu::SetLogFILE(sink); cybozu::SetLogPriority(cybozu::LogInfo); cybozu::SetLogUseMsec(ms); }
		explore(mc::fmt("%d threads log, forms %d, msec %d", thr, form, ms), [&] { Fn f[3]; pthread_t h[3]; std::multiset<Str> want; { Quiet q; text.clear(); g_logText = &text; for (int k = 0; k < thr; k++) { int w = k == 0 ? form % 3 : form / 3; for (int m = 0; m < 2; m++) want.insert(mc::fmt("thread %d message %d %s", k, m, Str(20 + 10 * k, 'a' + k).c_str())); f[k].f = [=] { for (int m = 0; m < 2; m++) { Str t; { Quiet q; t = mc::fmt("thread %d message %d %s", k, m, Str(20 + 10 * k, 'a' + k).c_str()); } if (w == 0) cybozu::PutLog(cybozu::LogError, "%s", t.c_str()); else if (w == 1) cybozu::Log(cybozu::LogInfo) << t; else { cybozu::PutLog(cybozu::LogDebug, "%s", "not shown"); cybozu::Log(cybozu::LogWarning) << t; } } }; } }
			for (int k = 0; k < thr; k++) pthread_create(&h[k], 0, Fn::run, &f[k]); for (int k = 0; k < thr; k++) pthread_join(h[k], 0);
			{ Quiet q; g_logText = 0; std::multiset<Str> got; size_t p = 0; bool ok = true; while (p < text.size()) { size_t e = text.find('\n', p); if (e == Str::npos) { ok = false; break; } size_t st = p + 20 + (ms ? 4 : 0); if (st > e) { ok = false; break; } got.insert(text.substr(st, e - st)); p = e + 1; } if (!ok || got != want) violation("log messages lost, repeated or mixed: %s", text.c_str()); } }, [&](Run&) { }, o); cybozu::SetLogFILE(0); fclose(sink); }
}
void mc_main() { objects(); separate(); logs(); }
