// Mutex, CriticalSection, AutoLock, ConditionVariable, ConditionVariableCs
#include "sched.hpp"
#include <cybozu/mutex.hpp>
#include <cybozu/critical_section.hpp>
#include <cybozu/condition_variable.hpp>
#include <cybozu/condition_variable_cs.hpp>
#include <stdexcept>
using namespace sched;

struct MX { typedef cybozu::Mutex M; typedef cybozu::ConditionVariable C; typedef cybozu::AutoLock L; static const char *name() { return "Mutex"; } };
struct CS { typedef cybozu::CriticalSection M; typedef cybozu::ConditionVariableCs C; typedef cybozu::AutoLockCs L; static const char *name() { return "CriticalSection"; } };

struct Fn { std::function<void()> f; static void *run(void *a) { ((Fn*)a)->f(); return 0; } };
struct Pool {
	Fn fn[6]; pthread_t h[6]; int n;
	Pool() : n(0) { }
	void go(const std::function<void()>& f) { { Quiet q; fn[n].f = f; } pthread_create(&h[n], 0, Fn::run, &fn[n]); n++; }
	void join() { for (int i = 0; i < n; i++) pthread_join(h[i], 0); n = 0; }
};

// ---- mutual exclusion: every assignment of lock styles to 2..3 threads x rounds
template<class X> void exclusion()
{
	mc::Section s(std::string("exclusion_") + X::name());
	for (int nt = 2; nt <= 3; nt++) for (int rounds = 1; rounds <= 2; rounds++) for (int style = 0; style < 8; style++) {
		if (nt == 3 && rounds == 2 && !mc::thorough() && style > 3) continue;
		if (!s.pick()) continue;
		Opts o; o.preempt = nt == 2 ? mc::tier(6, 30) : mc::tier(2, 4);
		int inside = 0, maxInside = 0, total = 0;
		explore(mc::fmt("%s threads=%d rounds=%d style=%d", X::name(), nt, rounds, style), [&] {
			typename X::M m; int plain = 0; Pool p;
			{ Quiet q; inside = maxInside = total = 0; }
			for (int t = 0; t < nt; t++) p.go([&, t] {
				for (int r = 0; r < rounds; r++) {
					int st = (style >> t) & 1;
					if (st == 0) {
						m.lock();
						{ Quiet q; inside++; if (inside > maxInside) maxInside = inside; }
						plain++; point("critical");
						{ Quiet q; inside--; total++; }
						m.unlock();
					} else {
						try {
							typename X::L al(m);
							{ Quiet q; inside++; if (inside > maxInside) maxInside = inside; }
							plain++; point("critical");
							{ Quiet q; inside--; total++; }
							if (r == 0) throw std::runtime_error("leave by exception");
						} catch (std::runtime_error&) { }
					}
				}
			});
			p.join();
			if (plain != nt * rounds) violation("counter %d, expected %d", plain, nt * rounds);
		}, [&](Run& r) {
			if (r.deadlock) return;
			MC_CHECK(maxInside == 1, "%d threads inside the critical section", maxInside);
			MC_CHECK(total == nt * rounds, "only %d entries", total);
		}, o);
	}
	// independence: a held lock does not block another lock object
	if (s.pick()) {
		Opts o; o.preempt = 10;
		explore(std::string(X::name()) + " independent objects", [&] {
			typename X::M a, b; int x = 0; bool flag = false; Pool p;
			a.lock();
			p.go([&] { b.lock(); x++; b.unlock(); });
			p.join();
			a.unlock();
			{ typename X::L l1(a); typename X::L l2(b); x++; }
			a.lock(); a.unlock(); b.lock(); b.unlock();
			if (x != 2 || flag) violation("x=%d", x);
		}, [&](Run&) { }, o);
	}
}

// ---- bounded buffer: no item lost or duplicated, nobody sleeps forever
template<class X> void buffer()
{
	mc::Section s(std::string("buffer_") + X::name());
	for (int np = 1; np <= 2; np++) for (int nc = 1; nc <= 2; nc++) for (int cap = 1; cap <= 2; cap++) for (int items = 1; items <= 2; items++) for (int all = 0; all < 2; all++) {
		if ((np * items) % nc) continue;
		if (!s.pick()) continue;
		int per = np * items / nc;
		Opts o; o.delay = np + nc > 2; o.preempt = (np + nc == 2) ? mc::tier(3, 6) : (np + nc == 3) ? mc::tier(2, 4) : mc::tier(2, 3); o.spurious = 1;
		std::multiset<int> got;
		explore(mc::fmt("%s producers=%d consumers=%d cap=%d items=%d %s", X::name(), np, nc, cap, items, all ? "notifyAll" : "notifyOne x2 cv"), [&] {
			typename X::M m; typename X::C notFull, notEmpty; int buf[4]; int cnt = 0; Pool p;
			{ Quiet q; got.clear(); }
			for (int t = 0; t < np; t++) p.go([&, t] {
				for (int k = 0; k < items; k++) {
					typename X::L al(m);
					while (cnt == cap) notFull.wait(m);
					buf[cnt++] = t * 10 + k;
					if (all) notEmpty.notifyAll(); else notEmpty.notifyOne();
				}
			});
			for (int t = 0; t < nc; t++) p.go([&] {
				for (int k = 0; k < per; k++) {
					int v;
					m.lock();
					while (cnt == 0) notEmpty.wait(m);
					v = buf[--cnt];
					if (all) notFull.notifyAll(); else notFull.notifyOne();
					m.unlock();
					Quiet q; got.insert(v);
				}
			});
			p.join();
			if (cnt != 0) violation("%d items left", cnt);
		}, [&](Run& r) {
			if (r.deadlock) return;
			std::multiset<int> want; for (int t = 0; t < np; t++) for (int k = 0; k < items; k++) want.insert(t * 10 + k);
			MC_CHECK(got == want, "items lost or duplicated");
		}, o);
	}
}
// ---- gate: notifyAll releases every waiter, k notifyOne release k waiters, a notify without waiters is not an error
template<class X> void gate()
{
	mc::Section s(std::string("gate_") + X::name());
	for (int nw = 1; nw <= 3; nw++) for (int mode = 0; mode < 3; mode++) for (int early = 0; early < 2; early++) {
		if (!s.pick()) continue;
		Opts o; o.preempt = nw == 1 ? 8 : nw == 2 ? mc::tier(2, 4) : mc::tier(1, 2); o.spurious = nw < 3 ? 1 : 0;
		explore(mc::fmt("%s gate waiters=%d mode=%d early=%d", X::name(), nw, mode, early), [&] {
			typename X::M m; typename X::C cv; int tickets = 0; int passed = 0; int data = 0; Pool p;
			if (early) { cv.notifyOne(); cv.notifyAll(); }
			for (int t = 0; t < nw; t++) p.go([&] {
				typename X::L al(m);
				while (tickets == 0) cv.wait(m);
				if (mode != 0) tickets--;
				if (data != 7) violation("state written before the notification is not seen");
				passed++;
			});
			if (mode == 0) { typename X::L al(m); data = 7; tickets = 1; cv.notifyAll(); }
			else for (int k = 0; k < nw; k++) {
				{ typename X::L al(m); data = 7; tickets++; if (mode == 1) cv.notifyOne(); }
				if (mode == 2) cv.notifyOne();
			}
			p.join();
			if (passed != nw) violation("passed %d of %d", passed, nw);
		}, [&](Run&) { }, o);
	}
	// wait releases the lock while sleeping and owns it again afterwards
	if (s.pick()) {
		Opts o; o.preempt = 8; o.spurious = 2;
		explore(std::string(X::name()) + " wait releases and reacquires", [&] {
			typename X::M m; typename X::C cv; int st = 0; Pool p;
			p.go([&] { m.lock(); st = 1; cv.notifyOne(); while (st != 2) cv.wait(m); st = 3; cv.notifyAll(); m.unlock(); });
			m.lock();
			while (st != 1) cv.wait(m);
			st = 2; cv.notifyOne();
			while (st != 3) cv.wait(m);
			m.unlock();
			p.join();
		}, [&](Run&) { }, o);
	}
	// two condition variables do not steal each other's notifications
	if (s.pick()) {
		Opts o; o.preempt = mc::tier(2, 4);
		explore(std::string(X::name()) + " two condition variables", [&] {
			typename X::M m; typename X::C c1, c2; int a = 0, b = 0; Pool p;
			p.go([&] { typename X::L al(m); while (!a) c1.wait(m); });
			p.go([&] { typename X::L al(m); while (!b) c2.wait(m); });
			{ typename X::L al(m); a = 1; c1.notifyOne(); }
			{ typename X::L al(m); b = 1; c2.notifyOne(); }
			p.join();
		}, [&](Run&) { }, o);
	}
}
void mc_main()
{
	exclusion<MX>(); exclusion<CS>();
	gate<MX>(); gate<CS>();
	buffer<MX>(); buffer<CS>();
}
