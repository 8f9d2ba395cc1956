// Tls: every (object, thread) pair is an independent cell, initially null, for all op sequences and schedules
#include "sched.hpp"
#include <cybozu/tls.hpp>
using namespace sched;
struct Fn { std::function<void()> f; static void *run(void *a) { ((Fn*)a)->f(); return 0; } };
static char g_obj[64];
CYBOZU_TLS int tlsVar;
struct Prog { std::string p; };
// ops: a=set A, b=set B, c=clear A, x=check both
static void runProg(cybozu::Tls *A, cybozu::Tls *B, const std::string& p, int id)
{
	void *va = 0, *vb = 0; int tv = 0;
	for (size_t i = 0; i < p.size(); i++) {
		char *u = g_obj + id * 16 + i;
		if (p[i] == 'a') { if (!A->set(u)) violation("set failed"); va = u; }
		else if (p[i] == 'b') { if (!B->set(u)) violation("set failed"); vb = u; }
		else if (p[i] == 'c') { if (!A->set(0)) violation("set failed"); va = 0; }
		tlsVar++; tv++;
		void *ga = A->get(), *gb = B->get();
		if (ga != va) violation("thread program %d: A is %p, this thread stored %p", id, ga, va);
		if (gb != vb) violation("thread program %d: B is %p, this thread stored %p", id, gb, vb);
		if (tlsVar != tv) violation("CYBOZU_TLS variable shared between threads");
	}
}
void mc_main()
{
	std::vector<std::string> ps;
	std::function<void(std::string, int)> rec = [&](std::string p, int L) { if (!p.empty()) ps.push_back(p); if ((int)p.size() < L) for (const char *c = "abcx"; *c; c++) rec(p + *c, L); };
	rec("", 2);
	{
		mc::Section s("two_threads_and_main");
		for (size_t i = 0; i < ps.size(); i++) for (size_t j = i; j < ps.size(); j++) if (s.pick()) {
			Opts o; o.preempt = mc::tier(1, 2);
			explore("programs " + ps[i] + " | " + ps[j], [&] {
				cybozu::Tls A, B; Fn f[2]; pthread_t h[2];
				{ Quiet q; f[0].f = [&] { runProg(&A, &B, ps[i], 0); }; f[1].f = [&] { runProg(&A, &B, ps[j], 1); }; }
				pthread_create(&h[0], 0, Fn::run, &f[0]);
				pthread_create(&h[1], 0, Fn::run, &f[1]);
				runProg(&A, &B, "a", 2);
				pthread_join(h[0], 0); pthread_join(h[1], 0);
			}, [&](Run&) { }, o);
		}
	}
	{
		mc::Section s("reuse"); // objects created and destroyed in every order of up to 4 steps never inherit a value
		for (int m = 0; m < 256; m++) if (s.pick()) {
			Opts o; o.preempt = 3;
			explore(mc::fmt("create/destroy pattern %d", m), [&] {
				cybozu::Tls keep; if (keep.get()) violation("not null initially");
				keep.set(g_obj);
				std::vector<cybozu::Tls*> v; 
				for (int k = 0; k < 8; k++) {
					if (m >> k & 1 || v.empty()) {
						cybozu::Tls *t = new cybozu::Tls(); if (t->get() != 0) violation("a new object starts with a value");
						if (!t->set(g_obj + 1 + k)) violation("set"); if (t->get() != g_obj + 1 + k) violation("get");
						v.push_back(t);
					} else { size_t x = k % v.size(); delete v[x]; v.erase(v.begin() + x); }
					if (keep.get() != g_obj) violation("destroying or creating one object changed another");
				}
				for (size_t k = 0; k < v.size(); k++) delete v[k];
			}, [&](Run&) { }, o);
		}
		if (s.pick()) { // value stored by a thread in a destroyed object is not seen through its successor
			Opts o; o.preempt = 30;
			explore("successor object in another thread", [&] {
				cybozu::Tls *t = new cybozu::Tls(); pthread_mutex_t m; pthread_mutex_init(&m, 0); int step = 0;
				Fn f; pthread_t h;
				{ Quiet q; f.f = [&] {
					t->set(g_obj);
					pthread_mutex_lock(&m); step = 1; pthread_mutex_unlock(&m);
					for (;;) { pthread_mutex_lock(&m); int s = step; pthread_mutex_unlock(&m); if (s == 2) break; yield(); }
					if (t->get() != 0) violation("value of the destroyed object reappears in its successor");
				}; }
				pthread_create(&h, 0, Fn::run, &f);
				for (;;) { pthread_mutex_lock(&m); int s = step; pthread_mutex_unlock(&m); if (s == 1) break; yield(); }
				delete t; t = new cybozu::Tls();
				if (t->get() != 0) violation("not null");
				pthread_mutex_lock(&m); step = 2; pthread_mutex_unlock(&m);
				pthread_join(h, 0);
				delete t;
			}, [&](Run&) { }, o);
		}
	}
	{
		mc::Section s("exhaustion"); // the model offers 16 keys
		if (s.pick()) {
			Opts o; o.preempt = 2;
			explore("more objects than keys", [&] {
				cybozu::Tls *v[18];
				int good = 0;
				for (int i = 0; i < 18; i++) v[i] = new cybozu::Tls();
				for (int i = 0; i < 18; i++) { if (v[i]->set(g_obj + i)) { good++; if (v[i]->get() != g_obj + i) violation("get after set"); } else if (v[i]->get() != 0) violation("an object without storage returns a value"); }
				if (good != 16) violation("%d objects work, 16 keys exist", good);
				for (int i = 0; i < 18; i++) delete v[i];
				cybozu::Tls again; if (!again.set(g_obj)) violation("keys are not given back");
			}, [&](Run&) { }, o);
		}
	}
}
