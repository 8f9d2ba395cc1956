// Event: no lost and no invented wakeups, for every program of 2..3 threads over {wait, wakeup} and every schedule
#include "sched.hpp"
#include <cybozu/event.hpp>
#include <pthread.h>
using namespace sched;
extern "C" { void *event98_new(); void event98_delete(void*); void event98_wakeup(void*); void event98_wait(void*); }
struct Ev11 { static void *mk() { return new cybozu::Event(); } static void del(void *e) { delete (cybozu::Event*)e; }
	static void wakeup(void *e) { ((cybozu::Event*)e)->wakeup(); } static void wait(void *e) { ((cybozu::Event*)e)->wait(); } };
struct Ev98 { static void *mk() { return event98_new(); } static void del(void *e) { event98_delete(e); }
	static void wakeup(void *e) { event98_wakeup(e); } static void wait(void *e) { event98_wait(e); } };

struct Op { bool isWait; int inv, resp; int th; };
static std::vector<Op> g_ops; static int g_clk;
static void *g_ev;
static int g_data[4]; static bool g_useData;

// is there an order of the completed operations, consistent with real time, in which every completed wait finds a
// remembered wakeup (consecutive wakeups may coalesce), and no wakeup is left over while a wait is blocked?
static bool lin(uint32_t done, int s, const std::vector<Op>& ops, bool blocked)
{
	bool all = true;
	for (size_t i = 0; i < ops.size(); i++) if (!(done >> i & 1) && ops[i].resp >= 0) { all = false; break; }
	if (all && !(blocked && s > 0)) return true;
	for (size_t i = 0; i < ops.size(); i++) {
		if (done >> i & 1) continue;
		if (ops[i].resp < 0 && ops[i].isWait) continue; // a wait that never returned
		bool ok = true;
		for (size_t j = 0; j < ops.size(); j++) if (!(done >> j & 1) && j != i && ops[j].resp >= 0 && ops[j].resp < ops[i].inv) { ok = false; break; }
		if (!ok) continue;
		if (ops[i].isWait) { if (s > 0 && lin(done | 1u << i, s - 1, ops, blocked)) return true; }
		else {
			if (lin(done | 1u << i, s + 1, ops, blocked)) return true;
			if (s > 0 && lin(done | 1u << i, s, ops, blocked)) return true; // coalesced
		}
	}
	return false;
}

template<class E> struct Th { const char *prog; int id; static void *run(void *a) {
	Th *t = (Th*)a;
	for (const char *p = t->prog; *p; p++) {
		size_t k;
		{ Quiet q; Op o = { *p == 'A', g_clk++, -1, t->id }; k = g_ops.size(); g_ops.push_back(o); note("%s(", *p == 'A' ? "wait" : "wakeup"); }
		if (*p == 'A') { E::wait(g_ev); if (g_useData) { int x = g_data[0]; if (x == -1) note("-"); } }
		else { if (g_useData) g_data[0]++; E::wakeup(g_ev); }
		{ Quiet q; g_ops[k].resp = g_clk++; note(")"); }
	}
	return 0;
} };

template<class E>
void scenario(const char *impl, const std::vector<std::string>& progs, Opts o, bool useData)
{
	std::string nm = std::string(impl) + " ";
	for (size_t i = 0; i < progs.size(); i++) nm += (i ? "|" : "") + progs[i];
	o.allowBlocked = true;
	explore(nm, [&] {
		Th<E> th[4]; pthread_t h[4];
		{ Quiet q; g_ops.clear(); g_clk = 0; g_useData = useData; memset(g_data, 0, sizeof(g_data)); }
		g_ev = E::mk();
		size_t n = progs.size();
		for (size_t i = 0; i < n; i++) { th[i].prog = progs[i].c_str(); th[i].id = (int)i; pthread_create(&h[i], 0, Th<E>::run, &th[i]); }
		for (size_t i = 0; i < n; i++) pthread_join(h[i], 0);
		E::del(g_ev);
	}, [&](Run& r) {
		bool blocked = false;
		for (size_t i = 0; i < g_ops.size(); i++) if (g_ops[i].resp < 0) {
			if (!g_ops[i].isWait) { mc::fail("wakeup blocked forever | trace: %s", r.trace.c_str()); return; }
			blocked = true;
		}
		if (r.deadlock && !blocked) { mc::fail("blocked outside wait | trace: %s", r.trace.c_str()); return; }
		if (!lin(0, 0, g_ops, blocked)) {
			std::string s; for (size_t i = 0; i < g_ops.size(); i++) s += mc::fmt(" T%d.%s[%d,%d]", g_ops[i].th + 1, g_ops[i].isWait ? "wait" : "wakeup", g_ops[i].inv, g_ops[i].resp);
			mc::fail("lost or invented wakeup: no order of%s explains this history | trace: %s", s.c_str(), r.trace.c_str());
			return;
		}
		if (!r.deadlock) { MC_CHECK(r.openFds == 0, "leaks %d descriptors", r.openFds); MC_CHECK(r.leakedBlocks == 0, "leaks memory"); }
	}, o);
}

static void allProgs(std::vector<std::string>& v, int maxLen)
{
	v.clear();
	for (int l = 1; l <= maxLen; l++) for (int m = 0; m < (1 << l); m++) { std::string s; for (int i = 0; i < l; i++) s += m >> i & 1 ? 'A' : 'W'; v.push_back(s); }
}
template<class E> void all(const char *impl, bool cxx11)
{
	std::vector<std::string> p;
	{
		mc::Section s(std::string("two_threads_") + impl);
		allProgs(p, mc::tier(3, 4));
		for (size_t a = 0; a < p.size(); a++) for (size_t b = a; b < p.size(); b++) if (s.pick()) {
			Opts o; o.preempt = mc::tier(1, 3); if (p[a].size() + p[b].size() <= 4) o.preempt = mc::tier(2, 4); if (p[a].size() + p[b].size() <= 3) o.preempt = mc::tier(4, 30);
			if (cxx11) o.spurious = 1; else o.eintr = 1;
			std::vector<std::string> v; v.push_back(p[a]); v.push_back(p[b]);
			scenario<E>(impl, v, o, false);
		}
	}
	{
		mc::Section s(std::string("three_threads_") + impl);
		allProgs(p, 2);
		for (size_t a = 0; a < p.size(); a++) for (size_t b = a; b < p.size(); b++) for (size_t c = b; c < p.size(); c++) if (s.pick()) {
			Opts o; o.preempt = mc::tier(1, 2); if (p[a].size() + p[b].size() + p[c].size() <= 3) o.preempt = mc::tier(2, 5);
			if (cxx11) o.spurious = 1; else o.eintr = 1;
			std::vector<std::string> v; v.push_back(p[a]); v.push_back(p[b]); v.push_back(p[c]);
			scenario<E>(impl, v, o, false);
		}
		for (int w = 1; w <= 3; w++) if (s.pick()) { // one waiter thread each, all woken by the fourth
			Opts o; o.preempt = mc::tier(1, 2);
			std::vector<std::string> v; for (int i = 0; i < w; i++) v.push_back("A");
			v.push_back(std::string(w, 'W'));
			scenario<E>(impl, v, o, false);
		}
	}
	{
		mc::Section s(std::string("publication_") + impl); // what the waker wrote before wakeup is visible after wait
		const char *t[][2] = { { "W", "A" }, { "WA", "A" } };
		if (s.pick()) { Opts o; o.preempt = 30; if (cxx11) o.spurious = 2; std::vector<std::string> v; v.push_back("W"); v.push_back("A"); scenario<E>(impl, v, o, true); }
		(void)t;
	}
}
void mc_main()
{
	all<Ev11>("cxx11", true);
	all<Ev98>("cxx98", false);
}
