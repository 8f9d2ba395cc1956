// parallel_for: every index once, private thread index, completion before return, errors reported
#include "sched.hpp"
#include <cybozu/parallel.hpp>
#include <stdexcept>
using namespace sched;

struct Ev { uint64_t i, th; int fiber; };
enum Mode { Plain, Stop, Throw, ThrowEmpty, ThrowCyb };
struct NoMsg : std::exception { const char *what() const noexcept { return ""; } };

template<class N>
struct Target {
	std::vector<Ev> *log;        // harness bookkeeping
	int *slot;                   // plain per index data: must be published to the caller
	int *perThread;              // plain per thread data: must never be shared by two running threads
	Mode mode; std::set<uint64_t> at; bool yieldInside;
	bool operator()(N i, N th)
	{
		{ Quiet q; Ev e = { (uint64_t)i, (uint64_t)th, self() }; log->push_back(e); note("call(%llu,%llu)", (unsigned long long)i, (unsigned long long)th); }
		slot[i]++;
		if ((uint64_t)th < 64) perThread[th]++;
		if (yieldInside) point("work");
		bool hit; { Quiet q; hit = at.count((uint64_t)i) != 0; }
		if (!hit) return true;
		switch (mode) {
		case Stop: return false;
		case Throw: throw std::runtime_error("boom");
		case ThrowEmpty: throw NoMsg();
		case ThrowCyb: throw cybozu::Exception("boom") << (int)i;
		default: return true;
		}
	}
};

template<class N>
void scenario(const char *tname, uint64_t n, uint64_t t, Mode mode, const std::set<uint64_t>& at, Opts o, bool yieldInside)
{
	std::string nm = mc::fmt("parallel_for<%s>(n=%llu,threads=%llu) mode=%d at=%s", tname, (unsigned long long)n, (unsigned long long)t, (int)mode, at.empty() ? "-" : "");
	for (std::set<uint64_t>::const_iterator i = at.begin(); i != at.end(); ++i) nm += mc::fmt("%llu,", (unsigned long long)*i);
	mc::setWhat(nm);
	std::vector<Ev> log;
	bool thrown = false; std::string msg;
	std::vector<int> slot(n + 1), per(64);
	bool threw[1] = { false };
	std::vector<int> seen;
	explore(nm, [&] {
		{ Quiet q; log.clear(); thrown = false; msg.clear(); slot.assign(n + 1, 0); per.assign(64, 0); seen.clear(); }
		Target<N> tg; 
		tg.log = &log; tg.slot = &slot[0]; tg.perThread = &per[0]; tg.mode = mode; { Quiet q; tg.at = at; } tg.yieldInside = yieldInside;
		try {
			cybozu::parallel_for(tg, (N)n, (N)t);
		} catch (std::exception& e) {
			Quiet q; thrown = true; msg = e.what(); note("threw %s", msg.c_str());
		}
		// the caller may read everything now: a missing join shows up as a data race here
		int sum = 0;
		for (uint64_t i = 0; i < n; i++) sum += slot[i];
		for (int i = 0; i < 64; i++) sum += per[i];
		if (sum < 0) note("-");
		{ Quiet q; tg.at.clear(); }
	}, [&](Run& r) {
		if (r.deadlock) return;
		uint64_t lim = t < n ? t : n;
		std::vector<int> cnt(n + 1);
		std::map<uint64_t, int> fiberOf;
		for (size_t k = 0; k < log.size(); k++) {
			if (log[k].i >= n) { mc::fail("called with index %llu", (unsigned long long)log[k].i); return; }
			if (log[k].th >= lim) { mc::fail("called with thread index %llu, only %llu threads", (unsigned long long)log[k].th, (unsigned long long)lim); return; }
			cnt[log[k].i]++;
			if (fiberOf.count(log[k].th) && fiberOf[log[k].th] != log[k].fiber) { mc::fail("thread index %llu used by two threads", (unsigned long long)log[k].th); return; }
			fiberOf[log[k].th] = log[k].fiber;
		}
		for (uint64_t i = 0; i < n; i++) if (cnt[i] > 1) { mc::fail("index %llu executed %d times", (unsigned long long)i, cnt[i]); return; }
		bool anyHit = false;
		for (std::set<uint64_t>::const_iterator i = at.begin(); i != at.end(); ++i) if (cnt[*i]) anyHit = true;
		bool isThrow = mode >= Throw;
		if (n > 0 && t == 0) { MC_CHECK(thrown, "zero threads accepted"); return; }
		if (r.createFailed) { MC_CHECK(thrown, "a thread could not be started, yet parallel_for returned normally (%zu of %llu indexes ran)", log.size(), (unsigned long long)n); return; }
		MC_CHECK(thrown == (isThrow && anyHit), "thrown=%d (%s) but a call raised=%d", thrown, msg.c_str(), isThrow && anyHit);
		if (thrown && mode != ThrowEmpty) MC_CHECK(msg.find("boom") != std::string::npos, "the message of the failing call is lost: %s", msg.c_str());
		// completeness: indexes whose share has no stop before them must have run
		// (a stop or an exception ends only the share of the thread it happened in: the share of one thread is what it ran so far plus nothing else,
		//  so every missing index must come after a stop index with no other thread's index in between)
		for (uint64_t i = 0; i < n; i++) {
			if (cnt[i]) continue;
			bool ok = false;
			for (uint64_t j = i; j-- > 0; ) {
				if (cnt[j] == 0) continue;
				ok = at.count(j) != 0; // nearest executed predecessor must be the one that stopped
				break;
			}
			if (mode == Plain || !ok) { mc::fail("index %llu never executed although its share was not stopped", (unsigned long long)i); return; }
		}
		// a stop affects one share only: shares are ceil/floor(n / threads)
		if (mode != Plain && at.size() == 1 && lim > 0) {
			size_t missing = 0; for (uint64_t i = 0; i < n; i++) if (!cnt[i]) missing++;
			MC_CHECK(missing < (n + lim - 1) / lim, "a single stop suppressed %zu indexes, more than the rest of one share", missing);
		}
		MC_CHECK((uint64_t)r.created == lim || lim == 0, "started %d threads, expected %llu", r.created, (unsigned long long)lim);
		MC_CHECK(r.openFds == 0, "fd leak");
	}, o);
}

void mc_main()
{
	using mc::Section;
	{
		Section s("partition"); // all sizes, default schedule
		for (uint64_t n = 0; n <= (uint64_t)mc::tier(33, 120); n++) for (uint64_t t = 0; t <= 10; t++) if (s.pick()) {
			Opts o; o.preempt = 0; o.delay = true; scenario<int>("int", n, t, Plain, {}, o, false);
			scenario<size_t>("size_t", n, t, Plain, {}, o, false);
			if (n < 200) scenario<uint8_t>("uint8_t", n, t, Plain, {}, o, false);
		}
		for (uint64_t n = 250; n <= 255; n++) for (uint64_t t = 1; t <= 10; t++) if (s.pick()) {
			Opts o; o.preempt = 0; o.delay = true;
			scenario<uint8_t>("uint8_t", n, t, Plain, {}, o, false);
			scenario<uint16_t>("uint16_t", n, t, Plain, {}, o, false);
		}
	}
	{
		Section s("schedules");
		for (uint64_t n = 0; n <= 5; n++) for (uint64_t t = 1; t <= 4; t++) if (s.pick()) {
			Opts o; o.preempt = mc::tier(t >= 3 ? 2 : 4, t >= 3 ? 4 : 20);
			scenario<int>("int", n, t, Plain, {}, o, n <= 3);
		}
	}
	{
		Section s("stops_and_exceptions");
		Mode ms[] = { Stop, Throw, ThrowEmpty, ThrowCyb };
		for (int m = 0; m < 4; m++) for (uint64_t n = 1; n <= 5; n++) for (uint64_t t = 1; t <= 3; t++)
			for (uint64_t mask = 1; mask < (1ull << n); mask++) {
				if (n > 3 && __builtin_popcountll(mask) > 2) continue;
				if (!s.pick()) continue;
				std::set<uint64_t> at; for (uint64_t i = 0; i < n; i++) if (mask >> i & 1) at.insert(i);
				Opts o; o.preempt = mc::tier(1, 3);
				scenario<size_t>("size_t", n, t, ms[m], at, o, false);
			}
	}
	{
		Section s("create_failure");
		for (uint64_t n = 1; n <= 5; n++) for (uint64_t t = 1; t <= 5; t++) for (int m = 0; m < 2; m++) if (s.pick()) {
			Opts o; o.preempt = mc::tier(3, 4); o.createFail = 2; o.delay = t >= 4;
			std::set<uint64_t> at; if (m) at.insert(0);
			scenario<int>("int", n, t, m ? Throw : Plain, at, o, false);
		}
	}
}
