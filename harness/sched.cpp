#define MC_NO_MAIN
#include "sched.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <time.h>
#include <link.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <new>
#include <deque>
#include <unordered_map>
#include <algorithm>

namespace {
using namespace sched;

const int MAXT = 12;
const size_t STACK = 256 * 1024;

struct VC {
	uint32_t c[MAXT];
	VC() { memset(c, 0, sizeof(c)); }
	void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
struct Fiber {
	int id;
	void *sp;
	char *stack;
	bool live, finished, detached, joined, joining;
	bool blocked;
	std::function<bool()> pred;
	bool canTimeout, timedOut;
	bool inCond, signaled, spurious;
	const char *op;
	bool yielded;
	void *(*fn)(void*);
	void *arg;
	void *ret;
	VC vc, acqPend, relFence; // what relaxed loads have seen, and what a release fence publishes
	std::map<unsigned, std::pair<uint64_t, void*> > spec;
	char eh[16];
	std::vector<char> tls;
	std::vector<std::pair<void(*)(void*), void*> > atexits;
	int consec;
	int quiet;
	int inrt;
};
struct MutexS { int owner; int count; int kind; bool destroyed; VC vc; MutexS() : owner(-1), count(0), kind(0), destroyed(false) { } };
struct CondS { std::vector<Fiber*> waiters; bool destroyed; CondS() : destroyed(false) { } };
struct RwS { int writer; int readers; VC vc; RwS() : writer(-1), readers(0) { } };
struct SemS { int v; VC vc; SemS() : v(0) { } };
struct PipeS { std::deque<unsigned char> q; int rd, wr; VC vc; bool rdOpen, wrOpen; };
struct Cell { uint32_t gen; uint8_t state; uint8_t wt[8]; uint32_t wc[8]; uint32_t rc[8][MAXT]; uint32_t ar[MAXT]; uint32_t aw[MAXT]; };

struct Eng {
	bool active;
	int inrt;                 // inside the runtime
	mc::Chooser *ch;
	Opts o;
	std::vector<Fiber*> fs;   // of this run
	std::vector<Fiber*> pool;
	Fiber *cur;
	void *rootSp;
	Run run;
	std::string name;
	uint64_t steps;
	int spuriousLeft, createFailLeft, eintrLeft;
	std::map<const void*, MutexS> mu;
	std::map<const void*, CondS> cv;
	std::map<const void*, RwS> rw;
	std::map<const void*, SemS> sem;
	std::map<const void*, int> once;
	std::map<const void*, VC> atom;
	std::map<unsigned, std::pair<uint64_t, void(*)(void*)> > keys; uint64_t keySeq;
	std::map<int, PipeS*> fds; std::vector<PipeS*> pipes; int nextFd;
	VC fenceAll;
	std::unordered_map<uintptr_t, Cell> shadow; uint32_t gen;
	std::map<uintptr_t, size_t> blocks;  // live operator new blocks of this run
	std::vector<void*> deferred;
	std::vector<std::string> trace;
	uint64_t now;
	char *tlsAddr; size_t tlsSize; std::vector<char> tlsInit;
	std::set<uint64_t> traces; uint64_t thash;
	int bogus;
};
Eng *g_eng; bool g_engInit;
Eng& E() { if (!g_eng) { void *p = calloc(1, sizeof(Eng)); g_eng = (Eng*)p; g_engInit = true; new(p) Eng(); } return *g_eng; }

struct RT { RT() { E().inrt++; } ~RT() { E().inrt--; } };

extern "C" void mc_switch(void **save, void *to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size mc_switch,.-mc_switch
)");

void fiberMain();

void initOnce()
{
	static bool done; if (done) return; done = true;
	Eng& e = E();
	struct Cb { static int f(struct dl_phdr_info *i, size_t, void *p) {
		Eng& e = *(Eng*)p;
		for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) {
			e.tlsAddr = (char*)i->dlpi_tls_data; e.tlsSize = i->dlpi_phdr[k].p_memsz;
			e.tlsInit.assign(e.tlsSize, 0);
			memcpy(e.tlsInit.data(), (char*)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_phdr[k].p_filesz);
		}
		return 1; // first = main executable only
	} };
	dl_iterate_phdr(Cb::f, &e);
}

void saveCtx(Fiber *f)
{
	memcpy(f->eh, abi::__cxa_get_globals(), 16);
	if (E().tlsSize) memcpy(f->tls.data(), E().tlsAddr, E().tlsSize);
}
void loadCtx(Fiber *f)
{
	memcpy(abi::__cxa_get_globals(), f->eh, 16);
	if (E().tlsSize) memcpy(E().tlsAddr, f->tls.data(), E().tlsSize);
}
std::vector<char> g_rootTls; char g_rootEh[16];

Fiber *newFiber()
{
	Eng& e = E();
	Fiber *f;
	if (e.pool.empty()) {
		f = new Fiber();
		f->stack = (char*)mmap(0, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		mprotect(f->stack, 4096, PROT_NONE);
	} else { f = e.pool.back(); e.pool.pop_back(); }
	char *st = f->stack;
	*f = Fiber();
	f->stack = st;
	f->id = (int)e.fs.size();
	f->live = true;
	f->tls = e.tlsInit;
	uintptr_t *sp = (uintptr_t*)((uintptr_t)(st + STACK + 4096 - 64) & ~15ull);
	*--sp = 0;                    // fake return address keeps alignment
	*--sp = (uintptr_t)fiberMain;
	for (int i = 0; i < 6; i++) *--sp = 0;
	f->sp = sp;
	f->op = "start";
	e.fs.push_back(f);
	return f;
}

void switchTo(Fiber *f)
{
	Eng& e = E();
	Fiber *old = e.cur;
	if (f == old) return;
	saveCtx(old);
	old->inrt = e.inrt;
	e.cur = f;
	loadCtx(f);
	mc_switch(&old->sp, f->sp);
	e.inrt = old->inrt;
}
void toRoot()
{
	Eng& e = E();
	Fiber *old = e.cur;
	saveCtx(old);
	memcpy(abi::__cxa_get_globals(), g_rootEh, 16);
	if (e.tlsSize) memcpy(e.tlsAddr, g_rootTls.data(), e.tlsSize);
	mc_switch(&old->sp, e.rootSp);
}

std::string traceStr()
{
	Eng& e = E();
	std::string s;
	size_t n = e.trace.size(), b = n > 60 ? n - 60 : 0;
	for (size_t i = b; i < n; i++) { if (i > b) s += "; "; s += e.trace[i]; }
	return s;
}
void tr(const std::string& s)
{
	Eng& e = E();
	e.thash = (e.thash ^ std::hash<std::string>()(s)) * 1099511628211ULL;
	if (e.trace.size() < 4000) e.trace.push_back(s);
}
void viol(const std::string& s)
{
	RT rt;
	mc::setWhat(E().name + " schedule " + E().ch->path());
	mc::fail("%s | trace: %s", s.c_str(), traceStr().c_str());
}

struct Cand { Fiber *f; int kind; }; // kind 0 normal, 1 timeout, 2 spurious
// choose the next fiber; called with cur possibly blocked/finished
void reschedule(bool curCanRun)
{
	Eng& e = E();
	e.steps++;
	if (e.steps > 20000) { viol("no termination within 20000 scheduling steps (livelock)"); e.run.deadlock = true; toRoot(); }
	std::vector<Cand> c;
	bool forceOut = curCanRun && e.cur->consec > 400;
	bool curYield = curCanRun && e.cur->yielded;
	if (curCanRun && !curYield && !forceOut) { Cand x = { e.cur, 0 }; c.push_back(x); }
	// others in a rotating order so that default choices are fair
	int n = (int)e.fs.size();
	std::vector<Cand> late;
	for (int k = 1; k <= n; k++) {
		Fiber *f = e.fs[(e.cur->id + k) % n];
		if (f == e.cur && curCanRun) continue;
		if (f->finished) continue;
		if (f->blocked) {
			if (f->pred()) { Cand x = { f, 0 }; c.push_back(x); }
			else {
				if (f->inCond && !f->signaled && e.spuriousLeft > 0) {
					// a spurious wakeup still has to get the mutex; modelled by marking it signaled
					Cand x = { f, 2 }; late.push_back(x);
				}
				if (f->canTimeout) { Cand x = { f, 1 }; late.push_back(x); }
			}
		} else if (!f->yielded) { Cand x = { f, 0 }; c.push_back(x); }
	}
	if (c.empty()) {
		// only yielded fibers left runnable: let them all go
		if (curCanRun) { Cand x = { e.cur, 0 }; c.push_back(x); }
		for (int k = 1; k <= n; k++) {
			Fiber *f = e.fs[(e.cur->id + k) % n];
			if (f == e.cur || f->finished || f->blocked) continue;
			Cand x = { f, 0 }; c.push_back(x);
		}
		// prefer the others over the one which just yielded
		if (curCanRun && (curYield || forceOut) && c.size() > 1) std::rotate(c.begin(), c.begin() + 1, c.end());
		for (size_t i = 0; i < e.fs.size(); i++) e.fs[i]->yielded = false;
	}
	size_t norm = c.size();
	c.insert(c.end(), late.begin(), late.end());
	if (c.empty()) { // deadlock
		e.run.deadlock = true;
		for (size_t i = 0; i < e.fs.size(); i++) if (!e.fs[i]->finished) e.run.blocked.push_back(e.fs[i]->id);
		toRoot();
		return;
	}
	int v;
	bool curFirst = curCanRun && !curYield && !forceOut;
	if (curFirst || e.o.delay) v = e.ch->choose((int)c.size());
	else if (norm == 0) v = e.ch->any((int)c.size());
	else {
		// current cannot continue: picking another runnable thread is free, a timeout/spurious wakeup costs
		v = e.ch->any((int)norm + (late.empty() ? 0 : 1));
		if (v == (int)norm) { int w = e.ch->choose((int)late.size() + 1); v = w == 0 ? 0 : (int)norm + w - 1; }
	}
	Cand x = c[v];
	if (x.kind == 1) { x.f->timedOut = true; tr(mc::fmt("T%d:timeout", x.f->id)); }
	if (x.kind == 2) {
		x.f->signaled = true; x.f->spurious = true; e.spuriousLeft--; tr(mc::fmt("T%d:spurious", x.f->id));
		for (std::map<const void*, CondS>::iterator i = e.cv.begin(); i != e.cv.end(); ++i) {
			std::vector<Fiber*>& w = i->second.waiters; w.erase(std::remove(w.begin(), w.end(), x.f), w.end());
		}
		if (!x.f->pred()) { // mutex taken: it stays blocked, pick again
			reschedule(curCanRun);
			return;
		}
	}
	if (x.f != e.cur) { e.cur->consec = 0; for (size_t i = 0; i < e.fs.size(); i++) if (e.fs[i] != x.f) e.fs[i]->yielded = false; } else e.cur->consec++;
	x.f->yielded = false;
	x.f->blocked = false;
	switchTo(x.f);
}

bool on() { Eng& e = E(); return e.active && e.inrt == 0 && e.cur && e.cur->quiet == 0; }

// scheduling point before a visible operation
void pt(const char *op, const void *obj = 0)
{
	Eng& e = E();
	e.cur->op = op;
	reschedule(true);
	tr(mc::fmt("T%d:%s", e.cur->id, op));
	e.cur->vc.c[e.cur->id]++;
}
// wait until p() (scheduling point already taken)
void block(const char *op, const std::function<bool()>& p, bool timed = false)
{
	Eng& e = E();
	Fiber *f = e.cur;
	f->timedOut = false;
	if (p()) return;
	f->op = op; f->pred = p; f->canTimeout = timed; f->blocked = true;
	reschedule(false);
	f->blocked = false; f->canTimeout = false; f->pred = nullptr;
	f->vc.c[f->id]++;
}

void runKeysDtors(Fiber *f)
{
	Eng& e = E();
	for (int round = 0; round < 4; round++) {
		bool any = false;
		std::map<unsigned, std::pair<uint64_t, void*> > sp = f->spec;
		for (std::map<unsigned, std::pair<uint64_t, void*> >::iterator i = sp.begin(); i != sp.end(); ++i) {
			std::map<unsigned, std::pair<uint64_t, void(*)(void*)> >::iterator k = e.keys.find(i->first);
			if (k == e.keys.end() || k->second.first != i->second.first || !k->second.second || !i->second.second) continue;
			f->spec[i->first].second = 0;
			any = true;
			int sv = e.inrt; e.inrt = 0;
			k->second.second(i->second.second);
			e.inrt = sv;
		}
		if (!any) break;
	}
}

void fiberExit()
{
	Eng& e = E();
	Fiber *f = e.cur;
	{
		int sv = e.inrt; e.inrt = 0;
		while (!f->atexits.empty()) { std::pair<void(*)(void*), void*> p = f->atexits.back(); f->atexits.pop_back(); p.first(p.second); }
		e.inrt = sv;
	}
	e.inrt++;
	runKeysDtors(f);
	tr(mc::fmt("T%d:exit", f->id));
	f->vc.c[f->id]++;
	f->finished = true;
	if (f->id == 0) { /* main finished; the others run to completion */ }
	bool all = true;
	for (size_t i = 0; i < e.fs.size(); i++) if (!e.fs[i]->finished) all = false;
	e.inrt--;
	if (all) { RT rt; toRoot(); }
	{ RT rt; reschedule(false); }
	abort();
}
void fiberMain()
{
	Eng& e = E();
	Fiber *f = e.cur;
	{ e.inrt = 0; }
	try {
		f->ret = f->fn(f->arg);
	} catch (std::exception& ex) {
		viol(std::string("exception escaped from a thread (std::terminate): ") + ex.what());
	} catch (const char *) { // pthread_exit
	} catch (...) {
		viol("exception escaped from a thread (std::terminate)");
	}
	fiberExit();
}

// ---- race detection -------------------------------------------------
static uintptr_t g_loose; static size_t g_looseN;
static bool isLoose(uintptr_t a) { return g_looseN && a >= g_loose && a < g_loose + g_looseN; }
Cell& cell(uintptr_t w)
{
	Eng& e = E();
	Cell& c = e.shadow[w];
	if (c.gen != e.gen) { memset(&c, 0, sizeof(c)); c.gen = e.gen; }
	return c;
}
void access(const void *p, size_t n, bool wr)
{
	Eng& e = E();
	RT rt;
	uintptr_t a = (uintptr_t)p;
	if (e.tlsSize && a >= (uintptr_t)e.tlsAddr && a < (uintptr_t)e.tlsAddr + e.tlsSize) return;
	if (isLoose(a)) { pt(wr ? "plain_write" : "plain_read"); return; }
	int t = e.cur->id;
	VC& vc = e.cur->vc;
	for (size_t i = 0; i < n; ) {
		Cell& c = cell((a + i) >> 3);
		if (c.state == 1) {
			viol(mc::fmt("T%d %s freed memory", t, wr ? "writes" : "reads"));
			return;
		}
		for (int u = 0; u < MAXT; u++) if (u != t) {
			if (c.aw[u] > vc.c[u] || (wr && c.ar[u] > vc.c[u])) {
				viol(mc::fmt("data race: T%d %s plainly what T%d accesses atomically, without synchronisation", t, wr ? "writes" : "reads", u));
				return;
			}
		}
		for (; i < n; ) {
			int b = (a + i) & 7;
			if (c.wc[b] && c.wt[b] != t && c.wc[b] > vc.c[c.wt[b]]) {
				viol(mc::fmt("data race: T%d %s %zu byte(s) written by T%d without synchronisation", t, wr ? "writes" : "reads", n, c.wt[b]));
				return;
			}
			if (wr) {
				for (int u = 0; u < MAXT; u++) if (u != t && c.rc[b][u] > vc.c[u]) {
					viol(mc::fmt("data race: T%d writes %zu byte(s) read by T%d without synchronisation", t, n, u));
					return;
				}
				c.wt[b] = (uint8_t)t; c.wc[b] = vc.c[t];
			} else c.rc[b][t] = vc.c[t];
			i++;
			if (((a + i) & 7) == 0) break;
		}
	}
}
void clearRange(uintptr_t a, size_t n, int state)
{
	Eng& e = E();
	for (uintptr_t w = a >> 3; w <= (a + (n ? n - 1 : 0)) >> 3; w++) {
		std::unordered_map<uintptr_t, Cell>::iterator i = e.shadow.find(w);
		if (i == e.shadow.end() && state == 0) continue;
		Cell& c = cell(w);
		memset(&c, 0, sizeof(c)); c.gen = e.gen; c.state = (uint8_t)state;
	}
}
VC& atomVC(const volatile void *p) { return E().atom[(const void*)p]; }
bool isAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool isRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

} // anon

// ================= public API =================
namespace sched {
size_t createdStack;
bool active() { return E().active; }
int self() { return E().cur ? E().cur->id : 0; }
void pushQuiet() { if (E().cur) E().cur->quiet++; }
void popQuiet() { if (E().cur) E().cur->quiet--; }
uint64_t clockNs() { return E().now; }
int choose(int n) { RT rt; return E().ch->choose(n); }
int any(int n) { RT rt; return E().ch->any(n); }
void plainRead(const void *p, size_t n) { if (on()) access(p, n, false); }
void plainWrite(const void *p, size_t n) { if (on()) access(p, n, true); }
void loose(const void *p, size_t n) { g_loose = (uintptr_t)p; g_looseN = n; }
void note(const char *f, ...)
{
	RT rt; va_list ap; va_start(ap, f); std::string s = mc::fmtv(f, ap); va_end(ap);
	tr(mc::fmt("T%d:%s", self(), s.c_str()));
}
void violation(const char *f, ...)
{
	RT rt; va_list ap; va_start(ap, f); std::string s = mc::fmtv(f, ap); va_end(ap);
	viol(s);
}
void point(const char *w) { if (on()) { RT rt; pt(w); } }
void yield() { if (on()) { RT rt; E().cur->yielded = true; pt("yield"); } }
void until(const char *w, const std::function<bool()>& p)
{
	RT rt; pt(w);
	block(w, p);
}

static std::function<void()> *g_body;
static void *bodyEntry(void*) { (*g_body)(); return 0; }

uint64_t explore(const std::string& name, const std::function<void()>& body, const std::function<void(Run&)>& after, const Opts& o)
{
	RT rt;
	initOnce();
	Eng& e = E();
	mc::Chooser ch;
	e.ch = &ch; e.o = o; e.name = name;
	std::function<void()> b = body;
	e.traces.clear();
	ch.run([&] {
		// fresh execution
		for (size_t i = 0; i < e.fs.size(); i++) { e.fs[i]->pred = nullptr; e.pool.push_back(e.fs[i]); }
		e.fs.clear();
		e.mu.clear(); e.cv.clear(); e.rw.clear(); e.sem.clear(); e.once.clear(); e.atom.clear(); e.keys.clear(); e.keySeq = 0;
		for (size_t i = 0; i < e.pipes.size(); i++) delete e.pipes[i];
		e.pipes.clear(); e.fds.clear(); e.nextFd = 1000;
		e.fenceAll = VC();
		e.gen++; if (e.shadow.size() > 200000) e.shadow.clear();
		for (size_t i = 0; i < e.deferred.size(); i++) free(e.deferred[i]);
		e.deferred.clear();
		e.blocks.clear();
		e.trace.clear(); e.thash = 1469598103934665603ULL; e.now = 1000000000ull; e.bogus = 0;
		e.run = Run(); e.steps = 0; e.spuriousLeft = o.spurious; e.createFailLeft = o.createFail; e.eintrLeft = o.eintr;
		Fiber *f = newFiber();
		f->fn = bodyEntry; f->arg = 0; f->vc.c[0] = 1;
		g_body = &b;
		e.cur = f;
		e.active = true;
		int sv = e.inrt;
		g_rootTls.assign(e.tlsAddr, e.tlsAddr + e.tlsSize);
		memcpy(g_rootEh, abi::__cxa_get_globals(), 16);
		loadCtx(f);
		mc_switch(&e.rootSp, f->sp);
		e.inrt = sv;
		e.active = false;
		e.cur = 0;
		e.run.steps = e.steps;
		e.run.trace = traceStr();
		e.run.leakedBlocks = e.blocks.size();
		e.run.openFds = (int)e.fds.size();
		mc::setWhat(name + " schedule " + ch.path());
		if (e.run.deadlock && !o.allowBlocked) {
			std::string s;
			for (size_t i = 0; i < e.run.blocked.size(); i++) { Fiber *f = e.fs[e.run.blocked[i]]; s += mc::fmt(" T%d@%s", f->id, f->op); }
			mc::fail("deadlock: blocked forever:%s | trace: %s", s.c_str(), e.run.trace.c_str());
		}
		if (!e.run.deadlock && !o.allowUnjoined) {
			for (size_t i = 1; i < e.fs.size(); i++) if (!e.fs[i]->joined && !e.fs[i]->detached)
				mc::fail("thread T%d was neither joined nor detached | trace: %s", e.fs[i]->id, e.run.trace.c_str());
		}
		after(e.run);
		mc::eval(e.run.created > 0);
		mc::state(e.steps);
		if (e.traces.size() < 2000000) e.traces.insert(e.thash);
		if (ch.runs < 1 || (ch.runs & 1023) == 17) mc::sample(name + " " + ch.path() + " => " + e.run.trace.substr(0, 400));
	}, o.preempt);
	mc::g().notes["schedules:" + name] += ch.runs;
	mc::g().notes["distinct_traces"] += e.traces.size();
	return ch.runs;
}
} // sched

// ================= memory =================
#include <malloc.h>
extern "C" void __libc_free(void*);
extern "C" void *__libc_realloc(void*, size_t);
// malloc'd memory (exception objects, C library): forget its history when it is released
extern "C" void free(void *p)
{
	if (p && g_eng && g_eng->active && g_eng->inrt == 0) { RT rt; clearRange((uintptr_t)p, malloc_usable_size(p), 0); }
	__libc_free(p);
}
extern "C" void *realloc(void *p, size_t n)
{
	if (p && g_eng && g_eng->active && g_eng->inrt == 0) { RT rt; clearRange((uintptr_t)p, malloc_usable_size(p), 0); }
	return __libc_realloc(p, n);
}
static void *rtAlloc(size_t n)
{
	void *p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	Eng& e = E();
	if (e.active && e.inrt == 0) { RT rt; clearRange((uintptr_t)p, n, 0); if (!e.cur || !e.cur->quiet) e.blocks[(uintptr_t)p] = n; }
	return p;
}
static void rtFree(void *p)
{
	if (!p) return;
	Eng& e = E();
	if (e.active && e.inrt == 0) {
		RT rt;
		std::map<uintptr_t, size_t>::iterator i = e.blocks.find((uintptr_t)p);
		if (i != e.blocks.end()) {
			if (e.cur && !e.cur->quiet) access(p, i->second, true); // freeing conflicts with every unordered access
			clearRange((uintptr_t)p, i->second, 1);
			e.blocks.erase(i);
		}
		e.deferred.push_back(p);
		return;
	}
	free(p);
}
void *operator new(size_t n) { return rtAlloc(n); }
void *operator new[](size_t n) { return rtAlloc(n); }
void *operator new(size_t n, const std::nothrow_t&) noexcept { return rtAlloc(n); }
void *operator new[](size_t n, const std::nothrow_t&) noexcept { return rtAlloc(n); }
void operator delete(void *p) noexcept { rtFree(p); }
void operator delete[](void *p) noexcept { rtFree(p); }
void operator delete(void *p, size_t) noexcept { rtFree(p); }
void operator delete[](void *p, size_t) noexcept { rtFree(p); }
void operator delete(void *p, const std::nothrow_t&) noexcept { rtFree(p); }
void operator delete[](void *p, const std::nothrow_t&) noexcept { rtFree(p); }

// ================= pthread =================
extern "C" {
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))

static MutexS *mget(const void *m, const char *op)
{
	MutexS& s = E().mu[m];
	if (s.destroyed) { viol(mc::fmt("%s on a destroyed mutex", op)); s = MutexS(); }
	return &s;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	memset(m, 0, sizeof(*m));
	if (!E().active) return 0;
	RT rt;
	MutexS s;
	int kind = 0; if (a) pthread_mutexattr_gettype(a, &kind);
	s.kind = kind;
	m->__data.__kind = kind;
	E().mu[m] = s;
	return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m)
{
	if (!on()) return 0;
	RT rt;
	MutexS *s = mget(m, "destroy");
	if (s->owner >= 0) viol("destroy of a locked mutex");
	s->destroyed = true;
	return 0;
}
static int mtxlock(pthread_mutex_t *m, bool timed, bool tryOnly)
{
	RT rt; Eng& e = E();
	pt(tryOnly ? "mutex_trylock" : "mutex_lock", m);
	MutexS *s = mget(m, "lock");
	if (s->kind == 0) s->kind = m->__data.__kind & 3;
	if (s->owner == e.cur->id) {
		if (s->kind == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
		if (tryOnly) return EBUSY;
		if (s->kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
	}
	if (tryOnly && s->owner >= 0) return EBUSY;
	block("mutex_lock", [m] { return E().mu[m].owner < 0; }, timed);
	s = mget(m, "lock");
	if (e.cur->timedOut && s->owner >= 0) return ETIMEDOUT;
	s->owner = e.cur->id; s->count = 1;
	e.cur->vc.join(s->vc);
	return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) { if (!on()) return 0; return mtxlock(m, false, false); }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!on()) return 0; return mtxlock(m, false, true); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec*) { if (!on()) return 0; return mtxlock(m, true, false); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec*) { if (!on()) return 0; return mtxlock(m, true, false); }
int pthread_mutex_unlock(pthread_mutex_t *m)
{
	if (!on()) return 0;
	RT rt; Eng& e = E();
	MutexS *s = mget(m, "unlock");
	if (s->owner != e.cur->id) { viol("unlock of a mutex not owned by this thread"); return EPERM; }
	if (--s->count > 0) return 0;
	e.cur->vc.c[e.cur->id]++;
	s->vc = e.cur->vc;
	e.cur->vc.c[e.cur->id]++; // what follows is not published by this release
	s->owner = -1;
	tr(mc::fmt("T%d:mutex_unlock", e.cur->id));
	return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t*)
{
	memset(c, 0, sizeof(*c));
	if (!E().active) return 0;
	RT rt; E().cv[c] = CondS();
	return 0;
}
int pthread_cond_destroy(pthread_cond_t *c)
{
	if (!on()) return 0;
	RT rt;
	CondS& s = E().cv[c];
	if (!s.waiters.empty()) viol("destroy of a condition variable with waiters");
	s.destroyed = true;
	return 0;
}
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, bool timed)
{
	RT rt; Eng& e = E();
	pt("cond_wait");
	MutexS *s = mget(m, "cond_wait");
	if (s->owner != e.cur->id) { viol("cond_wait without holding the mutex"); return EPERM; }
	CondS& cs = e.cv[c];
	if (cs.destroyed) { viol("wait on a destroyed condition variable"); return EINVAL; }
	e.cur->vc.c[e.cur->id]++;
	int cnt = s->count;
	s->vc = e.cur->vc; s->owner = -1; s->count = 0; e.cur->vc.c[e.cur->id]++;
	Fiber *f = e.cur;
	f->inCond = true; f->signaled = false; f->spurious = false;
	cs.waiters.push_back(f);
	// phase 1: signalled (or timed out); then compete for the mutex
	block("cond_wait", [f, m] { return f->signaled && E().mu[m].owner < 0; }, timed);
	bool to = f->timedOut && !f->signaled;
	f->inCond = false;
	{ std::vector<Fiber*>& w = e.cv[c].waiters; w.erase(std::remove(w.begin(), w.end(), f), w.end()); }
	block("cond_relock", [m] { return E().mu[m].owner < 0; });
	s = mget(m, "cond_relock");
	s->owner = f->id; s->count = cnt;
	f->vc.join(s->vc);
	tr(mc::fmt("T%d:cond_woken", f->id));
	return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!on()) return 0; return cwait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec*) { if (!on()) return ETIMEDOUT; return cwait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec*) { if (!on()) return ETIMEDOUT; return cwait(c, m, true); }
int pthread_cond_signal(pthread_cond_t *c)
{
	if (!on()) return 0;
	RT rt; Eng& e = E();
	pt("cond_signal");
	CondS& s = e.cv[c];
	if (s.destroyed) { viol("signal on a destroyed condition variable"); return EINVAL; }
	if (!s.waiters.empty()) {
		int v = e.ch->any((int)s.waiters.size());
		Fiber *f = s.waiters[v];
		s.waiters.erase(s.waiters.begin() + v);
		f->signaled = true;
	}
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
	if (!on()) return 0;
	RT rt; Eng& e = E();
	pt("cond_broadcast");
	CondS& s = e.cv[c];
	if (s.destroyed) { viol("broadcast on a destroyed condition variable"); return EINVAL; }
	for (size_t i = 0; i < s.waiters.size(); i++) s.waiters[i]->signaled = true;
	s.waiters.clear();
	return 0;
}
static const uintptr_t HB = 0x7a110000;
static Fiber *fromHandle(pthread_t t, const char *op)
{
	uintptr_t v = (uintptr_t)t;
	Eng& e = E();
	if (v < HB || v - HB >= e.fs.size()) { viol(mc::fmt("%s on an invalid thread handle (%#lx)", op, (unsigned long)v)); return 0; }
	return e.fs[v - HB];
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void*), void *arg)
{
	if (!on()) { return REAL(pthread_create)(t, a, fn, arg); }
	Eng& e = E();
	int det = 0;
	{
		RT rt;
		pt("create");
		if (a) pthread_attr_getdetachstate(a, &det); sched::createdStack = 0; if (a) pthread_attr_getstacksize(a, &sched::createdStack);
		if (e.createFailLeft > 0 && e.ch->choose(2) == 1) {
			e.createFailLeft--; e.run.createFailed++;
			// glibc stores the handle before it finds out that the thread cannot be started
			*t = (pthread_t)(0xdead0000 + ++e.bogus);
			tr(mc::fmt("T%d:create_fails", e.cur->id));
			return EAGAIN;
		}
		if ((int)e.fs.size() >= MAXT) { viol("harness limit: too many threads"); return EAGAIN; }
	}
	access(t, sizeof(*t), true);
	RT rt;
	Fiber *f = newFiber();
	f->fn = fn; f->arg = arg; f->detached = det == PTHREAD_CREATE_DETACHED;
	e.cur->vc.c[e.cur->id]++;
	f->vc = e.cur->vc; f->vc.c[f->id] = 1;
	e.cur->vc.c[e.cur->id]++;
	*t = (pthread_t)(HB + f->id);
	e.run.created++;
	return 0;
}
int pthread_join(pthread_t t, void **ret)
{
	if (!on()) { return REAL(pthread_join)(t, ret); }
	RT rt; Eng& e = E();
	pt("join");
	Fiber *f = fromHandle(t, "join");
	if (!f) return ESRCH;
	if (f->joined || f->joining) { viol(mc::fmt("thread T%d joined twice", f->id)); return EINVAL; }
	if (f->detached) { viol(mc::fmt("join of detached thread T%d", f->id)); return EINVAL; }
	if (f == e.cur) return EDEADLK;
	f->joining = true;
	block("join", [f] { return f->finished; });
	f->joined = true;
	e.cur->vc.join(f->vc);
	if (ret) *ret = f->ret;
	return 0;
}
int pthread_detach(pthread_t t)
{
	if (!on()) { return REAL(pthread_detach)(t); }
	RT rt; Eng& e = E();
	pt("detach");
	Fiber *f = fromHandle(t, "detach");
	if (!f) return ESRCH;
	if (f->joined || f->joining || f->detached) { viol(mc::fmt("detach of thread T%d already joined or detached", f->id)); return EINVAL; }
	f->detached = true;
	return 0;
}
pthread_t pthread_self(void)
{
	if (!E().active || !E().cur) { return REAL(pthread_self)(); }
	return (pthread_t)(HB + E().cur->id);
}
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
void pthread_exit(void *r) { E().cur->ret = r; throw "pthread_exit"; }

int pthread_key_create(pthread_key_t *k, void (*d)(void*))
{
	if (!E().active || E().inrt) { return REAL(pthread_key_create)(k, d); }
	RT rt; Eng& e = E();
	pt("key_create");
	unsigned i = 0; while (e.keys.count(i)) i++;
	if (i >= 16) return EAGAIN;
	e.keys[i] = std::make_pair(++e.keySeq, d);
	*k = i;
	return 0;
}
int pthread_key_delete(pthread_key_t k)
{
	if (!E().active || E().inrt) { return REAL(pthread_key_delete)(k); }
	RT rt;
	pt("key_delete");
	if (!E().keys.count(k)) { viol("delete of an invalid thread-specific key"); return EINVAL; }
	E().keys.erase(k);
	return 0;
}
int pthread_setspecific(pthread_key_t k, const void *v)
{
	if (!E().active || E().inrt) { return REAL(pthread_setspecific)(k, v); }
	RT rt; Eng& e = E();
	pt("setspecific");
	if (!e.keys.count(k)) { viol("setspecific on an invalid key"); return EINVAL; }
	e.cur->spec[k] = std::make_pair(e.keys[k].first, (void*)v);
	return 0;
}
void *pthread_getspecific(pthread_key_t k)
{
	if (!E().active || E().inrt) { return REAL(pthread_getspecific)(k); }
	RT rt; Eng& e = E();
	pt("getspecific");
	if (!e.keys.count(k)) { viol("getspecific on an invalid key"); return 0; }
	std::map<unsigned, std::pair<uint64_t, void*> >::iterator i = e.cur->spec.find(k);
	if (i == e.cur->spec.end() || i->second.first != e.keys[k].first) return 0;
	return i->second.second;
}
int __cxa_thread_atexit(void (*f)(void*), void *o, void *d)
{
	if (E().active && E().cur && !E().inrt) { RT rt; E().cur->atexits.push_back(std::make_pair(f, o)); return 0; }
	typedef int (*F)(void(*)(void*), void*, void*);
	return ((F)dlsym(RTLD_NEXT, "__cxa_thread_atexit"))(f, o, d);
}
int pthread_once(pthread_once_t *o, void (*f)(void))
{
	if (!on()) { if (*o == 0) { *o = 2; f(); } return 0; }
	{
		RT rt; pt("once");
		int& s = E().once[o];
		if (s == 2) { E().cur->vc.join(E().atom[o]); return 0; }
		if (s == 1) { block("once", [o] { return E().once[o] == 2; }); E().cur->vc.join(E().atom[o]); return 0; }
		s = 1;
	}
	f();
	RT rt; E().once[o] = 2; *o = 2;
	E().cur->vc.c[E().cur->id]++; E().atom[o].join(E().cur->vc); E().cur->vc.c[E().cur->id]++;
	return 0;
}
// static local initialisation
int __cxa_guard_acquire(long long *g)
{
	if (*(char*)g) { if (on()) { RT rt; E().cur->vc.join(E().atom[g]); } return 0; }
	if (!on()) return 1;
	RT rt; pt("guard");
	if (*(char*)g) { E().cur->vc.join(E().atom[g]); return 0; }
	int& s = E().once[g];
	if (s == 1) { block("guard", [g] { return E().once[g] != 1; }); if (*(char*)g) { E().cur->vc.join(E().atom[g]); return 0; } }
	E().once[g] = 1;
	return 1;
}
void __cxa_guard_release(long long *g)
{
	*(char*)g = 1;
	if (!E().active || !E().cur) return;
	RT rt; E().once[g] = 2; E().cur->vc.c[E().cur->id]++; E().atom[g].join(E().cur->vc); E().cur->vc.c[E().cur->id]++;
}
void __cxa_guard_abort(long long *g) { if (E().active) { RT rt; E().once[g] = 0; } }

// rwlock / spin / sem
static int rdlock(pthread_rwlock_t *l, bool tr_)
{
	RT rt; pt("rdlock");
	if (tr_ && E().rw[l].writer >= 0) return EBUSY;
	block("rdlock", [l] { return E().rw[l].writer < 0; });
	E().rw[l].readers++; E().cur->vc.join(E().rw[l].vc); return 0;
}
static int wrlock(pthread_rwlock_t *l, bool tr_)
{
	RT rt; pt("wrlock");
	if (tr_ && (E().rw[l].writer >= 0 || E().rw[l].readers)) return EBUSY;
	block("wrlock", [l] { return E().rw[l].writer < 0 && E().rw[l].readers == 0; });
	E().rw[l].writer = E().cur->id; E().cur->vc.join(E().rw[l].vc); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return on() ? rdlock(l, false) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return on() ? rdlock(l, true) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return on() ? wrlock(l, false) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return on() ? wrlock(l, true) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
	if (!on()) return 0;
	RT rt; RwS& s = E().rw[l];
	E().cur->vc.c[E().cur->id]++; s.vc.join(E().cur->vc);
	if (s.writer == E().cur->id) s.writer = -1; else s.readers--;
	pt("after_rwunlock"); return 0;
}
int pthread_spin_init(pthread_spinlock_t *s, int) { *(int*)s = 1; return 0; }
int pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int pthread_spin_lock(pthread_spinlock_t *l)
{
	if (!on()) return 0;
	RT rt; pt("spin_lock"); const void *k = (const void*)l;
	block("spin_lock", [k] { return E().mu[k].owner < 0; });
	E().mu[k].owner = E().cur->id; E().cur->vc.join(E().mu[k].vc); return 0;
}
int pthread_spin_trylock(pthread_spinlock_t *l)
{
	if (!on()) return 0;
	RT rt; pt("spin_trylock"); const void *k = (const void*)l;
	if (E().mu[k].owner >= 0) return EBUSY;
	E().mu[k].owner = E().cur->id; E().cur->vc.join(E().mu[k].vc); return 0;
}
int pthread_spin_unlock(pthread_spinlock_t *l)
{
	if (!on()) return 0;
	RT rt; const void *k = (const void*)l; E().cur->vc.c[E().cur->id]++; E().mu[k].vc = E().cur->vc; E().cur->vc.c[E().cur->id]++; E().mu[k].owner = -1; return 0;
}
int sem_init(sem_t *s, int, unsigned v) { RT rt; SemS x; x.v = (int)v; E().sem[s] = x; return 0; }
int sem_destroy(sem_t *) { return 0; }
int sem_wait(sem_t *s)
{
	if (!on()) return 0;
	RT rt; pt("sem_wait");
	if (E().eintrLeft > 0 && E().ch->choose(2)) { E().eintrLeft--; errno = EINTR; return -1; }
	block("sem_wait", [s] { return E().sem[s].v > 0; });
	E().sem[s].v--; E().cur->vc.join(E().sem[s].vc); return 0;
}
int sem_trywait(sem_t *s) { if (!on()) return 0; RT rt; pt("sem_trywait"); if (E().sem[s].v <= 0) { errno = EAGAIN; return -1; } E().sem[s].v--; E().cur->vc.join(E().sem[s].vc); return 0; }
int sem_post(sem_t *s) { if (!on()) return 0; RT rt; pt("sem_post"); E().sem[s].v++; E().cur->vc.c[E().cur->id]++; E().sem[s].vc.join(E().cur->vc); E().cur->vc.c[E().cur->id]++; return 0; }

int sched_yield(void) { if (on()) sched::yield(); return 0; }
static int slp(const struct timespec *req, struct timespec *rem)
{
	RT rt; Eng& e = E();
	uint64_t ns = (uint64_t)req->tv_sec * 1000000000ull + req->tv_nsec;
	if (req->tv_nsec < 0 || req->tv_nsec >= 1000000000 || req->tv_sec < 0) { errno = EINVAL; return -1; }
	e.cur->yielded = true;
	pt("sleep");
	if (e.eintrLeft > 0 && ns > 0 && e.ch->choose(2)) {
		e.eintrLeft--;
		uint64_t done = ns / 3; e.now += done; ns -= done;
		if (rem) { rem->tv_sec = ns / 1000000000ull; rem->tv_nsec = ns % 1000000000ull; }
		errno = EINTR; return -1;
	}
	e.now += ns;
	return 0;
}
int nanosleep(const struct timespec *req, struct timespec *rem) { if (!on()) return REAL(nanosleep)(req, rem); return slp(req, rem); }
int clock_nanosleep(clockid_t, int fl, const struct timespec *req, struct timespec *rem)
{
	if (!on()) return 0;
	if (fl & TIMER_ABSTIME) { uint64_t t = (uint64_t)req->tv_sec * 1000000000ull + req->tv_nsec; RT rt; E().cur->yielded = true; pt("sleep_abs"); if (t > E().now) E().now = t; return 0; }
	return slp(req, rem) == 0 ? 0 : errno;
}
int usleep(useconds_t us) { if (!on()) { struct timespec t = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; return REAL(nanosleep)(&t, 0); } struct timespec t = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; return slp(&t, 0); }
int __wrap_clock_gettime(clockid_t, struct timespec *t) { t->tv_sec = E().now / 1000000000ull; t->tv_nsec = E().now % 1000000000ull; return 0; }

// ---- pipes (only fds created by the scenario are handled here) ----
int __real_close(int); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
int __wrap_pipe(int fd[2])
{
	RT rt; Eng& e = E();
	PipeS *p = new PipeS(); p->rdOpen = p->wrOpen = true;
	p->rd = e.nextFd++; p->wr = e.nextFd++;
	e.pipes.push_back(p); e.fds[p->rd] = p; e.fds[p->wr] = p;
	fd[0] = p->rd; fd[1] = p->wr;
	return 0;
}
int __wrap_pipe2(int fd[2], int) { return __wrap_pipe(fd); }
int __wrap_close(int fd)
{
	RT rt; Eng& e = E();
	std::map<int, PipeS*>::iterator i = e.fds.find(fd);
	if (i == e.fds.end()) { if (fd >= 1000 || e.active) { viol(mc::fmt("close of fd %d which is not open", fd)); errno = EBADF; return -1; } return __real_close(fd); }
	if (fd == i->second->rd) i->second->rdOpen = false; else i->second->wrOpen = false;
	e.fds.erase(i);
	return 0;
}
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	if (!on() || fd < 1000) return __real_read(fd, b, n);
	RT rt; Eng& e = E();
	pt("read");
	std::map<int, PipeS*>::iterator i = e.fds.find(fd);
	if (i == e.fds.end() || i->second->rd != fd) { viol("read on a closed fd"); errno = EBADF; return -1; }
	PipeS *p = i->second;
	if (p->q.empty() && e.eintrLeft > 0 && e.ch->choose(2)) { e.eintrLeft--; tr("EINTR"); errno = EINTR; return -1; }
	block("read", [p] { return !p->q.empty() || !p->wrOpen; });
	size_t k = 0;
	while (k < n && !p->q.empty()) { ((unsigned char*)b)[k++] = p->q.front(); p->q.pop_front(); }
	e.cur->vc.join(p->vc);
	return k;
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	if (!on() || fd < 1000) return __real_write(fd, b, n);
	RT rt; Eng& e = E();
	pt("write");
	std::map<int, PipeS*>::iterator i = e.fds.find(fd);
	if (i == e.fds.end() || i->second->wr != fd) { viol("write on a closed fd"); errno = EBADF; return -1; }
	if (e.eintrLeft > 0 && e.ch->choose(2)) { e.eintrLeft--; tr("EINTR"); errno = EINTR; return -1; }
	PipeS *p = i->second;
	for (size_t k = 0; k < n; k++) p->q.push_back(((const unsigned char*)b)[k]);
	e.cur->vc.c[e.cur->id]++; p->vc.join(e.cur->vc); e.cur->vc.c[e.cur->id]++;
	return n;
}

// ================= __tsan entry points =================
void __tsan_init(void) { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit(void) { }
void __tsan_vptr_update(void **p, void *v) { if (on() && *p != v) access(p, 8, true); }
void __tsan_vptr_read(void **p) { if (on()) access(p, 8, false); }
#define ACC(n) \
	void __tsan_read##n(void *p) { if (on()) access(p, n, false); } \
	void __tsan_write##n(void *p) { if (on()) access(p, n, true); } \
	void __tsan_volatile_read##n(void *p) { if (on()) access(p, n, false); } \
	void __tsan_volatile_write##n(void *p) { if (on()) access(p, n, true); } \
	void __tsan_unaligned_read##n(void *p) { if (on()) access(p, n, false); } \
	void __tsan_unaligned_write##n(void *p) { if (on()) access(p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, size_t n) { if (on()) access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { if (on()) access(p, n, true); }

void __tsan_atomic_thread_fence(int mo)
{
	if (!on()) return;
	RT rt; pt("fence");
	if (isRel(mo)) { E().cur->vc.c[E().cur->id]++; E().fenceAll.join(E().cur->vc); E().cur->relFence = E().cur->vc; E().cur->vc.c[E().cur->id]++; }
	if (isAcq(mo)) { E().cur->vc.join(E().fenceAll); E().cur->vc.join(E().cur->acqPend); }
}
void __tsan_atomic_signal_fence(int) { }

static void chkAtomic(const volatile void *p, size_t n, bool wr)
{
	if (isLoose((uintptr_t)p)) return;
	Cell& c = cell((uintptr_t)p >> 3);
	if (c.state == 1) { viol("atomic access to freed memory"); return; }
	int t = E().cur->id; VC& vc = E().cur->vc;
	for (size_t i = 0; i < n; i++) {
		int b = ((uintptr_t)p + i) & 7;
		if (c.wc[b] && c.wt[b] != t && c.wc[b] > vc.c[c.wt[b]]) { viol(mc::fmt("data race: T%d accesses atomically what T%d wrote plainly, without synchronisation", t, c.wt[b])); return; }
		if (wr) for (int u = 0; u < MAXT; u++) if (u != t && c.rc[b][u] > vc.c[u]) { viol(mc::fmt("data race: T%d writes atomically what T%d read plainly, without synchronisation", t, u)); return; }
	}
	c.ar[t] = vc.c[t]; if (wr) c.aw[t] = vc.c[t];
}
static void rmw(const volatile void *p, size_t n, int mo)
{
	// read-modify-write instructions are taken for full barriers, unless the order asked for is relaxed
	VC& v = atomVC(p);
	if (mo == 0) { E().cur->acqPend.join(v); chkAtomic(p, n, true); v.join(E().cur->relFence); return; }
	E().cur->vc.join(v);
	chkAtomic(p, n, true);
	v.join(E().cur->vc);
	E().cur->vc.c[E().cur->id]++;
}
#define ATOM(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *p, int mo) { if (!on()) return *p; RT rt; pt("atomic_load"); (isAcq(mo) ? E().cur->vc : E().cur->acqPend).join(atomVC(p)); chkAtomic(p, sizeof(T), false); return *p; } \
void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { if (!on()) { *p = v; return; } RT rt; pt("atomic_store"); chkAtomic(p, sizeof(T), true); atomVC(p).join(isRel(mo) ? E().cur->vc : E().cur->relFence); E().cur->vc.c[E().cur->id]++; *p = v; } \
T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { if (!on()) { T o = *p; *p = v; return o; } RT rt; pt("atomic_exchange"); rmw(p, sizeof(T), mo); T o = *p; *p = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { if (!on()) { T o = *p; *p = o + v; return o; } RT rt; pt("atomic_fetch_add"); rmw(p, sizeof(T), mo); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { if (!on()) { T o = *p; *p = o - v; return o; } RT rt; pt("atomic_fetch_sub"); rmw(p, sizeof(T), mo); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { if (!on()) { T o = *p; *p = o & v; return o; } RT rt; pt("atomic_fetch_and"); rmw(p, sizeof(T), mo); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { if (!on()) { T o = *p; *p = o | v; return o; } RT rt; pt("atomic_fetch_or"); rmw(p, sizeof(T), mo); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { if (!on()) { T o = *p; *p = o ^ v; return o; } RT rt; pt("atomic_fetch_xor"); rmw(p, sizeof(T), mo); T o = *p; *p = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int mo) { if (!on()) { T o = *p; *p = ~(o & v); return o; } RT rt; pt("atomic_fetch_nand"); rmw(p, sizeof(T), mo); T o = *p; *p = ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int) { if (on()) { RT rt; pt("atomic_cas"); rmw(p, sizeof(T), mo); } if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int) { if (on()) { RT rt; pt("atomic_cas"); rmw(p, sizeof(T), mo); } if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T c, T v, int mo, int) { if (on()) { RT rt; pt("atomic_cas"); rmw(p, sizeof(T), mo); } T o = *p; if (o == c) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
} // extern "C"
