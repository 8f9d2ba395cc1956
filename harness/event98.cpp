// the pre-C++11 implementation of Event, compiled as C++98
#include <cybozu/event.hpp>
#include <cybozu/tls.hpp>
#include <cybozu/condition_variable.hpp>
#if __cplusplus >= 201103L
#error "compile as C++98"
#endif
extern "C" {
void *event98_new() { return new cybozu::Event(); }
void event98_delete(void *e) { delete (cybozu::Event*)e; }
void event98_wakeup(void *e) { ((cybozu::Event*)e)->wakeup(); }
void event98_wait(void *e) { ((cybozu::Event*)e)->wait(); }
}
