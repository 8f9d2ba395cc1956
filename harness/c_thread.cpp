// ThreadBase: every started entry runs exactly once, join waits and publishes, each thread is joined or detached exactly once; Sleep
#include "sched.hpp"
#include <cybozu/thread.hpp>
#include <mutex>
using namespace sched;

struct Log { int started, finished; int running; } g_l;

struct T1 : cybozu::ThreadBase {
	int plain; bool pause;
	T1() : plain(0), pause(false) { }
	void threadEntry()
	{
		{ Quiet q; g_l.started++; g_l.running++; note("entry"); }
		plain++;
		if (pause) point("work");
		plain++;
		{ Quiet q; g_l.running--; g_l.finished++; note("entry_end"); }
	}
	~T1() { }
};
struct Fn { std::function<void()> f; static void *run(void *a) { ((Fn*)a)->f(); return 0; } };

void mc_main()
{
	{
		// every sequence over begin/join/detach up to length L on one object; the model is: active handle yes/no
		mc::Section s("sequences");
		int L = mc::tier(4, 5);
		std::vector<std::string> seqs;
		std::function<void(std::string)> rec = [&](std::string p) { seqs.push_back(p); if ((int)p.size() < L) for (const char *c = "bBjJds"; *c; c++) rec(p + *c); };
		rec("");
		for (size_t q = 0; q < seqs.size(); q++) {
			std::string sq = seqs[q];
			// precondition of begin: no thread is attached
			{ bool act = false, ok = true; for (size_t i = 0; i < sq.size(); i++) { if (sq[i] == 'b' || sq[i] == 'B') { if (act) ok = false; act = true; } else if (sq[i] == 's') { if (act) ok = false; } else act = false; } if (!ok) continue; }
			for (int fail = 0; fail < 2; fail++) {
				if (!s.pick()) continue;
				Opts o; o.preempt = mc::tier(2, 4); o.createFail = fail ? 2 : 0; o.allowUnjoined = false;
				int begun = 0;
				explore("sequence " + sq + (fail ? " with creation failures" : ""), [&] {
					{ Quiet qq; memset(&g_l, 0, sizeof(g_l)); begun = 0; }
					T1 *t = new T1();
					bool act = false; int expectPlain = 0;
					for (size_t i = 0; i < sq.size(); i++) {
						if (sq[i] == 'b' || sq[i] == 'B') {
							int st0; { Quiet qq; st0 = begun; }
							t->pause = sq[i] == 'b';
							bool r = sq[i] == 'b' ? t->beginThread() : t->beginThread(1 << 16);
							if (r) { Quiet qq; begun++; act = true; expectPlain += 2; } else if (!fail) violation("beginThread failed");
							if (r) { size_t st; { Quiet qq; st = createdStack; } if (sq[i] == 'B' && st < 1 << 16) violation("the stack size asked for is 65536, the thread gets %zu", st); }
						} else if (sq[i] == 's') {
							if (t->beginThread(1)) violation("beginThread succeeds although its stack size is refused");
						} else if (sq[i] == 'j' || sq[i] == 'J') {
							bool r = sq[i] == 'j' ? t->joinThread() : t->joinThread(1000); // success with a time limit means the same
							if (!r) violation("joinThread returned false");
							if (act) {
								bool bad; { Quiet qq; bad = g_l.finished != begun; }
								if (bad) violation("joinThread returned before the entry finished");
								if (t->plain != expectPlain) violation("effects of the thread not visible after join");
							}
							act = false;
						} else {
							bool r = t->detachThread();
							if (r != act) violation("detachThread returned %d with %s thread attached", r, act ? "a" : "no");
							act = false;
							// a detached thread is on its own: wait for it by other means before touching the object again
							until("detached thread ends", [&] { return g_l.finished == begun; });
							// (synchronise through a real mutex-free edge is impossible here, so do not read plain data)
							expectPlain = -1;
							break;
						}
					}
					if (expectPlain >= 0) {
						if (act) { if (!t->joinThread()) violation("final join"); if (t->plain != expectPlain) violation("effects not visible"); }
						delete t;
					} else { Quiet qq; t->joinThread(); }
				}, [&](Run& r) {
					if (r.deadlock) return;
					MC_CHECK(g_l.started == begun && g_l.finished == begun, "begun %d, entries started %d, finished %d", begun, g_l.started, g_l.finished);
				}, o);
			}
		}
	}
	{
		// two other threads call join/detach on the same object concurrently: exactly one wins
		mc::Section s("concurrent_join_detach");
		for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) for (int c = 0; c < 3; c++) if (s.pick()) {
			Opts o; o.preempt = mc::tier(5, 30);
			int dets = 0;
			explore(mc::fmt("concurrent %s/%s%s", a ? "join" : "detach", b ? "join" : "detach", c == 0 ? "" : c == 1 ? "/join" : "/detach"), [&] {
				{ Quiet q; memset(&g_l, 0, sizeof(g_l)); dets = 0; }
				T1 *t = new T1(); 
				if (!t->beginThread()) violation("begin");
				Fn f[3]; pthread_t h[3]; int n = c == 0 ? 2 : 3;
				int kind[3] = { a, b, c == 1 };
				for (int i = 0; i < n; i++) {
					int k = kind[i];
					{ Quiet q; f[i].f = [t, k, &dets] { if (k) { if (!t->joinThread()) violation("joinThread false"); } else { bool r = t->detachThread(); Quiet q; if (r) dets++; } }; }
					pthread_create(&h[i], 0, Fn::run, &f[i]);
				}
				for (int i = 0; i < n; i++) pthread_join(h[i], 0);
				until("thread ends", [&] { return g_l.finished == 1; });
				if (!t->joinThread()) violation("join after all");
				Quiet q; // the object is deliberately not destroyed: a detached thread may not have left its frame
			}, [&](Run& r) {
				if (r.deadlock) return;
				MC_CHECK(dets <= 1, "two detach calls succeeded");
				MC_CHECK(g_l.started == 1 && g_l.finished == 1, "entry ran %d times", g_l.started);
			}, o);
		}
	}
	{
		// destruction waits for the thread
		mc::Section s("destructor_joins");
		struct T2 : cybozu::ThreadBase {
			std::mutex *m; bool *started;
			void threadEntry() { m->lock(); *started = true; m->unlock(); { Quiet q; g_l.started++; } point("w1"); point("w2"); { Quiet q; g_l.finished++; } }
		};
		if (s.pick()) {
			Opts o; o.preempt = 20;
			explore("destroy a running thread object", [&] {
				{ Quiet q; memset(&g_l, 0, sizeof(g_l)); }
				std::mutex m; bool started = false;
				{
					T2 t; t.m = &m; t.started = &started;
					t.beginThread();
					for (;;) { m.lock(); bool b = started; m.unlock(); if (b) break; yield(); }
				}
				bool fin; { Quiet q; fin = g_l.finished == 1; }
				if (!fin) violation("the destructor returned while the thread was still running");
			}, [&](Run&) { }, o);
		}
		if (s.pick()) {
			Opts o; o.preempt = 20; o.createFail = 1;
			explore("destroy after joins, never started, failed start", [&] {
				{ Quiet q; memset(&g_l, 0, sizeof(g_l)); }
				{ T1 t; }
				{ T1 t; t.beginThread(); t.joinThread(); t.joinThread(); }
				{ T1 t; if (t.detachThread()) violation("detach of nothing succeeded"); }
			}, [&](Run&) { }, o);
		}
	}
	{
		// several objects at once
		mc::Section s("many_objects");
		for (int n = 2; n <= 4; n++) if (s.pick()) {
			Opts o; o.preempt = mc::tier(n == 2 ? 4 : 2, n == 2 ? 8 : 4); o.delay = n == 4; o.createFail = 1;
			explore(mc::fmt("%d objects", n), [&] {
				{ Quiet q; memset(&g_l, 0, sizeof(g_l)); }
				T1 t[4]; bool ok[4]; 
				for (int i = 0; i < n; i++) ok[i] = t[i].beginThread();
				for (int i = n - 1; i >= 0; i--) { if (!t[i].joinThread()) violation("join %d", i); if (t[i].plain != (ok[i] ? 2 : 0)) violation("object %d: entry effect %d, begin=%d", i, t[i].plain, ok[i]); }
			}, [&](Run& r) { if (!r.deadlock) MC_CHECK(g_l.started == r.created, "started %d created %d", g_l.started, r.created); }, o);
		}
	}
	{
		// Sleep lasts at least the requested time however often it is interrupted
		mc::Section s("sleep");
		int ms[] = { 0, 1, 2, 3, 10, 999, 1000, 1001, 1999, 2500, 60000, 86400000 };
		for (size_t i = 0; i < sizeof(ms) / sizeof(ms[0]); i++) if (s.pick()) {
			Opts o; o.preempt = 4; o.eintr = 4;
			explore(mc::fmt("Sleep(%d)", ms[i]), [&] {
				uint64_t a = clockNs();
				cybozu::Sleep(ms[i]);
				uint64_t d = clockNs() - a;
				if (d < (uint64_t)ms[i] * 1000000ull) violation("slept %llu ns only", (unsigned long long)d);
				if (d > (uint64_t)ms[i] * 1000000ull + 1000) violation("overslept: %llu ns", (unsigned long long)d);
			}, [&](Run&) { }, o);
		}
	}
}
