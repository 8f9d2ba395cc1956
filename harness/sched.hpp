#pragma once
/*
  Controlled scheduler: stateless model checking of real C++ code.

  The harness and the library headers are compiled with -fsanitize=thread; the object is linked with sched.cpp, which
  supplies the __tsan_* entry points, all pthread_* entry points and a few system calls.  Threads become fibers of one OS thread;
  before every synchronisation operation the explorer decides which fiber runs next.  Plain accesses are checked for
  happens-before races and use-after-free/destroy, which is what makes "switch only at synchronisation" complete.
*/
#include "mc.hpp"
namespace sched {

extern size_t createdStack; // stack size asked for by the last pthread_create
struct Opts {
	int preempt;      // bound on deviations from run-to-completion (preemptions, early timeouts, spurious wakeups, faults)
	int spurious;     // spurious wakeups allowed per execution
	int createFail;   // how many pthread_create calls may fail per execution
	int eintr;        // how many blocking read/write/sleep calls may be interrupted per execution
	bool allowBlocked;// executions may end with blocked threads (judged by the scenario)
	bool allowUnjoined;
	bool delay;       // delay bounding: every departure from the round robin schedule costs one, also at blocking points
	Opts() : preempt(2), spurious(0), createFail(0), eintr(0), allowBlocked(false), allowUnjoined(false), delay(false) { }
};
struct Run {
	bool deadlock;               // ended with blocked threads
	std::vector<int> blocked;    // their ids (0 = main)
	uint64_t steps;
	int created;                 // threads successfully created
	int createFailed;
	uint64_t leakedBlocks;       // operator new blocks not freed by the scenario
	int openFds;
	std::string trace;
};
// explore every schedule of body within the bounds; after() judges each finished execution
uint64_t explore(const std::string& name, const std::function<void()>& body, const std::function<void(Run&)>& after, const Opts& o);

int self();                 // fiber id
void note(const char *f, ...); // add to the trace
void violation(const char *f, ...);
void yield();
bool active();
void pushQuiet(); void popQuiet();
// harness bookkeeping: no scheduling, no race checking
struct Quiet { Quiet() { pushQuiet(); } ~Quiet() { popQuiet(); } };
// a scheduling point of the harness itself (e.g. inside a critical section)
void point(const char *what);
// block harness thread until pred()
void until(const char *what, const std::function<bool()>& pred);
uint64_t clockNs();
int choose(int n);  // environment choice counted as deviation
int any(int n);
// plain shared accesses by the harness that must be ordered by the code under test
void plainRead(const void *p, size_t n);
void plainWrite(const void *p, size_t n);
// plain accesses to this memory are scheduling points instead of being race-checked: every order of them is explored
void loose(const void *p, size_t n);
} // sched
