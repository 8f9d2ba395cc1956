// AtomicAdd / AtomicCompareExchange / AtomicExchange: linearizable for every small concurrent program, exact on boundary values
#include "sched.hpp"
#include <cybozu/atomic.hpp>
#include <pthread.h>
#include <algorithm>
#include <type_traits>
using namespace sched;
struct Fn { std::function<void()> f; static void *run(void *a) { ((Fn*)a)->f(); return 0; } };

template<class T> struct Rec { int kind; T a, b, ret; int inv, resp; };
template<class T> static T wrapAdd(T x, T y) { typedef typename std::make_unsigned<T>::type U; return (T)(U)((U)x + (U)y); }

template<class T> bool lin(uint32_t done, T v, const std::vector<Rec<T> >& ops, T fin)
{
	if (done == (1u << ops.size()) - 1) return v == fin;
	for (size_t i = 0; i < ops.size(); i++) {
		if (done >> i & 1) continue;
		bool ok = true;
		for (size_t j = 0; j < ops.size(); j++) if (!(done >> j & 1) && ops[j].resp < ops[i].inv) ok = false;
		if (!ok || ops[i].ret != v) continue;
		T nv = ops[i].kind == 0 ? wrapAdd(v, ops[i].a) : ops[i].kind == 1 ? (v == ops[i].b ? ops[i].a : v) : ops[i].a;
		if (lin(done | 1u << i, nv, ops, fin)) return true;
	}
	return false;
}
template<class T> T doOp(T *p, int kind, T a, T b)
{
	return kind == 0 ? cybozu::AtomicAdd<T>(p, a) : kind == 1 ? cybozu::AtomicCompareExchange<T>(p, a, b) : cybozu::AtomicExchange<T>(p, a);
}
// programs over an alphabet of operations
template<class T> void programs(const char *tn, const std::vector<T>& vals)
{
	mc::Section s(std::string("programs_") + tn);
	struct O { int k; T a, b; };
	std::vector<O> al;
	al.push_back(O{ 0, vals[1], 0 }); al.push_back(O{ 0, vals[2], 0 });
	al.push_back(O{ 1, vals[3], vals[0] }); al.push_back(O{ 1, vals[0], vals[3] });
	al.push_back(O{ 2, vals[3], 0 }); al.push_back(O{ 2, vals[1], 0 });
	std::vector<std::vector<int> > ps;
	for (int i = 0; i < 6; i++) { ps.push_back({ i }); for (int j = 0; j < 6; j++) ps.push_back({ i, j }); }
	auto runp = [&](const std::vector<std::vector<int> >& th, int bound) {
		std::string nm = tn;
		for (auto& t : th) { nm += " |"; for (int x : t) nm += mc::fmt(" %d", x); }
		std::vector<Rec<T> > ops; int clk = 0; T fin = 0;
		Opts o; o.preempt = bound;
		explore(nm, [&] {
			{ Quiet q; ops.clear(); clk = 0; }
			T *v = new T(vals[0]);
			Fn f[3]; pthread_t h[3];
			for (size_t i = 0; i < th.size(); i++) {
				const std::vector<int> *prog = &th[i];
				{ Quiet q; f[i].f = [&, prog, v] {
					size_t n = prog->size();
					for (size_t k = 0; k < n; k++) {
						O op; size_t idx;
						{ Quiet q; op = al[(*prog)[k]]; idx = ops.size(); ops.push_back(Rec<T>{ op.k, op.a, op.b, 0, clk++, 0 }); }
						T r = doOp<T>(v, op.k, op.a, op.b);
						{ Quiet q; ops[idx].ret = r; ops[idx].resp = clk++; }
					}
				}; }
				pthread_create(&h[i], 0, Fn::run, &f[i]);
			}
			for (size_t i = 0; i < th.size(); i++) pthread_join(h[i], 0);
			T x = *v;
			{ Quiet q; fin = x; }
			delete v;
		}, [&](Run& r) {
			if (r.deadlock) return;
			if (!lin<T>(0, vals[0], ops, fin)) {
				std::string t; for (auto& x : ops) t += mc::fmt(" %s(%lld,%lld)=%lld", x.kind == 0 ? "add" : x.kind == 1 ? "cas" : "xchg", (long long)x.a, (long long)x.b, (long long)x.ret);
				mc::fail("not atomic: no order explains%s final=%lld", t.c_str(), (long long)fin);
			}
		}, o);
	};
	for (size_t a = 0; a < ps.size(); a++) for (size_t b = a; b < ps.size(); b++) if (s.pick()) runp({ ps[a], ps[b] }, 30);
	for (int a = 0; a < 6; a++) for (int b = a; b < 6; b++) for (int c = b; c < 6; c++) if (s.pick()) runp({ { a }, { b }, { c } }, mc::tier(3, 30));
	if (mc::thorough()) for (int a = 0; a < 6; a++) for (int b = a; b < 6; b++) for (int c = b; c < 6; c++) if (s.pick()) runp({ { a, b }, { b, c }, { c } }, 3);
}
// sequential meaning on every pair/triple of boundary values
template<class T> void boundary(const char *tn)
{
	mc::Section s(std::string("boundary_") + tn);
	std::vector<T> v;
	typedef typename std::make_unsigned<T>::type U;
	int bits = sizeof(T) * 8;
	for (int b = 0; b < bits; b++) { v.push_back((T)(U(1) << b)); v.push_back((T)((U(1) << b) - 1)); v.push_back((T)~(U(1) << b)); v.push_back((T)(0 - (U(1) << b))); }
	v.push_back(0); v.push_back((T)-1);
	std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
	for (size_t i = 0; i < v.size(); i++) if (s.pick()) for (size_t j = 0; j < v.size(); j++) {
		struct { T pre, x, post; } m = { (T)0x5a5a5a5a, 0, (T)0x3c3c3c3c };
		mc::what("%s x=%lld y=%lld", tn, (long long)v[i], (long long)v[j]);
		m.x = v[i]; T r = cybozu::AtomicAdd<T>(&m.x, v[j]);
		MC_CHECK(r == v[i] && m.x == wrapAdd(v[i], v[j]), "AtomicAdd returned %lld left %lld", (long long)r, (long long)m.x);
		m.x = v[i]; r = cybozu::AtomicExchange<T>(&m.x, v[j]);
		MC_CHECK(r == v[i] && m.x == v[j], "AtomicExchange returned %lld left %lld", (long long)r, (long long)m.x);
		m.x = v[i]; T nv = (T)(v[j] ^ 1); r = cybozu::AtomicCompareExchange<T>(&m.x, nv, v[j]);
		MC_CHECK(r == v[i] && m.x == (v[i] == v[j] ? nv : v[i]), "AtomicCompareExchange returned %lld left %lld", (long long)r, (long long)m.x);
		MC_CHECK(m.pre == (T)0x5a5a5a5a && m.post == (T)0x3c3c3c3c, "neighbouring memory changed");
		mc::eval(); mc::trans(3);
	}
}
#include <algorithm>
void mc_main()
{
	boundary<int>("int"); boundary<unsigned int>("uint32"); boundary<long>("long"); boundary<unsigned long>("ulong"); boundary<long long>("longlong"); boundary<uint64_t>("uint64");
	programs<int>("int", { 0, 1, -1, 7 });
	programs<unsigned int>("uint32", { 0xffffffffu, 1, 0x80000000u, 7 });
	programs<int64_t>("int64", { 0x7fffffffffffffffll, 1, -0x100000000ll, 0x100000007ll });
	programs<uint64_t>("uint64", { 0, 0x100000000ull, 0xffffffff00000001ull, 7 });
	{
		// message passing through the atomics: what was written before the exchange/add/cas is visible to the thread that observes it
		mc::Section s("publication");
		for (int k = 0; k < 3; k++) for (int w = 0; w < 3; w++) if (s.pick()) {
			Opts o; o.preempt = 20;
			explore(mc::fmt("publish with op %d observe with op %d", k, w), [&] {
				int data = 0; int flag = 0;
				Fn f; pthread_t h;
				{ Quiet q; f.f = [&] { data = 5; if (k == 0) cybozu::AtomicAdd<int>(&flag, 1); else if (k == 1) cybozu::AtomicCompareExchange<int>(&flag, 1, 0); else cybozu::AtomicExchange<int>(&flag, 1); }; }
				pthread_create(&h, 0, Fn::run, &f);
				for (;;) {
					int r = w == 0 ? cybozu::AtomicAdd<int>(&flag, 0) : w == 1 ? cybozu::AtomicCompareExchange<int>(&flag, 1, 1) : cybozu::AtomicExchange<int>(&flag, 0);
					if (r) break;
					yield();
				}
				if (data != 5) violation("stale data %d", data);
				pthread_join(h, 0);
			}, [&](Run&) { }, o);
		}
	}
}
