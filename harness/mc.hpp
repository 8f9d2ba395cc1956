#pragma once
/*
  mc.hpp - explicit enumeration core shared by all harnesses.

  A harness is a program that enumerates a bounded space of executions of the real code and judges each.
  It is run as   prog --tier quick|thorough --shard I N --out FILE [--only SECTION:INDEX] [--known FILE]
  * Section     : a named family of top level cases; cases are numbered deterministically, shard I takes those = I mod N.
  * Chooser     : prefix-replay depth first search over choice points ("which answer does the environment give now").
  * fail()      : records a violation; SECTION:INDEX (and the choice list) is enough to replay it.
*/
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <exception>

namespace mc {

struct Shared { // survives the death of the exploring process
	volatile uint64_t beat;       // progress counter
	volatile uint64_t states, transitions, evaluations, nontrivial, validated;
	volatile uint64_t failed;
	char section[128];
	volatile uint64_t index;
	char what[4096];              // description of the case being executed
	char firstFail[8192];
};

struct G {
	bool thorough;
	int shard, shards;
	std::string out, only, knownFile;
	std::string onlySec; uint64_t onlyIdx; bool hasOnly;
	std::vector<std::string> samples;
	std::map<std::string, uint64_t> perSection;
	std::map<std::string, uint64_t> notes;
	std::set<std::string> known;
	std::map<std::string, std::string> knownSeen;
	std::vector<std::string> fails;
	Shared *sh;
	int maxFails;
	bool wantSample;
};
inline G& g() { static G x; return x; }
inline bool thorough() { return g().thorough; }
template<class T> inline T tier(T quick, T thor) { return g().thorough ? thor : quick; }

inline std::string fmtv(const char *f, va_list ap)
{
	va_list ap2; va_copy(ap2, ap);
	int n = vsnprintf(0, 0, f, ap2); va_end(ap2);
	std::string s(n + 1, 0);
	vsnprintf(&s[0], n + 1, f, ap);
	s.resize(n);
	return s;
}
__attribute__((format(printf, 1, 2))) inline std::string fmt(const char *f, ...)
{
	va_list ap; va_start(ap, f); std::string s = fmtv(f, ap); va_end(ap); return s;
}
inline std::string hex(const void *p, size_t n)
{
	std::string s; const unsigned char *b = (const unsigned char*)p;
	for (size_t i = 0; i < n; i++) { char t[8]; snprintf(t, 8, "%02x", b[i]); s += t; if (i > 200) { s += ".."; break; } }
	return s;
}
inline std::string hex(const std::string& s) { return hex(s.data(), s.size()); }
// printable rendering of a byte string
inline std::string show(const std::string& s)
{
	std::string r = "\"";
	for (size_t i = 0; i < s.size(); i++) {
		unsigned char c = s[i];
		if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '"') r += "\\\"";
		else if (c == '\\') r += "\\\\";
		else if (c >= 0x20 && c < 0x7f) r += c; else { char t[8]; snprintf(t, 8, "\\x%02x", c); r += t; }
		if (i > 300) { r += "..."; break; }
	}
	return r + "\"";
}

inline void state(uint64_t n = 1) { g().sh->states += n; }
inline void trans(uint64_t n = 1) { g().sh->transitions += n; }
inline void beat() { g().sh->beat++; }
// one judged execution of the real code
inline void sample(const std::string& s);
inline void eval(bool nontrivial = true) { G& x = g(); x.sh->evaluations++; x.sh->validated++; if (nontrivial) x.sh->nontrivial++; x.sh->beat++; if (x.wantSample && nontrivial) { x.wantSample = false; sample(x.sh->what); } }

inline void setWhat(const std::string& s)
{
	size_t n = s.size(); if (n >= sizeof(g().sh->what)) n = sizeof(g().sh->what) - 1;
	memcpy(g().sh->what, s.data(), n); g().sh->what[n] = 0;
}
__attribute__((format(printf, 1, 2))) inline void what(const char *f, ...)
{
	va_list ap; va_start(ap, f); vsnprintf(g().sh->what, sizeof(g().sh->what), f, ap); va_end(ap);
}
inline void sample(const std::string& s)
{
	static std::map<std::string, int> per;
	int& n = per[g().sh->section];
	if (n < 2 && g().samples.size() < 16) { n++; g().samples.push_back(std::string(g().sh->section) + ": " + s); }
}
inline void writeOut(const char *status);

// Record a violation.  key identifies the specific failing input/call for the known-findings file.
inline void failk(const std::string& key, const std::string& msg)
{
	std::string full = fmt("%s:%llu | %s | %s", g().sh->section, (unsigned long long)g().sh->index, g().sh->what, msg.c_str());
	if (g().known.count(key)) { if (!g().knownSeen.count(key)) g().knownSeen[key] = full; return; }
	g().sh->failed++;
	g().fails.push_back("key=" + key + " " + full);
	if (g().sh->firstFail[0] == 0) snprintf(g().sh->firstFail, sizeof(g().sh->firstFail), "%s", g().fails.back().c_str());
	if ((int)g().fails.size() >= g().maxFails) { writeOut("violation"); _exit(1); }
}
__attribute__((format(printf, 1, 2))) inline void fail(const char *f, ...)
{
	va_list ap; va_start(ap, f); std::string s = fmtv(f, ap); va_end(ap);
	std::string key = std::string(g().sh->section) + "|" + g().sh->what;
	failk(key, s);
}
#define MC_CHECK(cond, ...) do { if (!(cond)) { mc::fail(__VA_ARGS__); } } while (0)

// top level case numbering and sharding
class Section {
	std::string name_;
	uint64_t n_;
public:
	explicit Section(const std::string& name) : name_(name), n_(0) { }
	bool skip() const { return g().hasOnly && g().onlySec != name_; }
	// true if the next case is ours
	bool pick()
	{
		uint64_t i = n_++;
		if (g().hasOnly) { if (g().onlySec != name_ || (g().onlyIdx != ~0ULL && g().onlyIdx != i)) return false; }
		else if ((int)((i * 2654435761ULL >> 7) % g().shards) != g().shard) return false;
		Shared *s = g().sh;
		if (strcmp(s->section, name_.c_str())) snprintf(s->section, sizeof(s->section), "%s", name_.c_str());
		s->index = i; s->what[0] = 0;
		g().wantSample = ++g().perSection[name_] <= 2;
		s->states++;
		s->beat++;
		return true;
	}
	uint64_t count() const { return n_; }
};

/*
  Choice-point explorer: run() executes f repeatedly; f calls choose(n) at each choice point; answer 0 is the default;
  `dev` bounds the number of non-default answers in one execution (delay/fault bounding).  Complete within the bound.
*/
class Chooser {
	struct P { int n, v; bool free_; };
	std::vector<P> path_;
	size_t pos_;
	int devs_, bound_;
	uint64_t limit_;
public:
	uint64_t runs;
	bool truncated;
	Chooser() : pos_(0), devs_(0), bound_(1 << 30), limit_(~0ULL), runs(0), truncated(false) { }
	// choose one of n; each nonzero answer costs one deviation
	int choose(int n)
	{
		if (n <= 1) return 0;
		if (pos_ < path_.size()) { int v = path_[pos_++].v; if (v) devs_++; return v; }
		P p; p.n = (devs_ >= bound_) ? 1 : n; p.v = 0; p.free_ = false;
		path_.push_back(p); pos_++;
		return 0;
	}
	// free choice (not counted as a deviation)
	int any(int n)
	{
		if (n <= 1) return 0;
		if (pos_ < path_.size()) return path_[pos_++].v;
		P p; p.n = n; p.v = 0; p.free_ = true;
		path_.push_back(p); pos_++;
		return 0;
	}
	std::string path() const
	{
		std::string s = "[";
		for (size_t i = 0; i < pos_ && i < path_.size(); i++) { if (i) s += ","; s += fmt("%d", path_[i].v); }
		return s + "]";
	}
	template<class F>
	void run(F f, int bound = 1 << 30, uint64_t limit = ~0ULL)
	{
		path_.clear(); bound_ = bound; limit_ = limit; runs = 0; truncated = false;
		for (;;) {
			pos_ = 0; devs_ = 0;
			f();
			runs++;
			trans(pos_); beat();
			path_.resize(pos_ < path_.size() ? pos_ : path_.size());
			while (!path_.empty() && path_.back().v + 1 >= path_.back().n) path_.pop_back();
			if (path_.empty()) break;
			path_.back().v++;
			if (runs >= limit_) { truncated = true; break; }
		}
	}
};

inline std::string jesc(const std::string& s)
{
	std::string r;
	for (size_t i = 0; i < s.size(); i++) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 0x20 || c >= 0x7f) { char t[8]; snprintf(t, 8, "\\u%04x", c); r += t; }
		else r += c;
	}
	return r;
}
inline void writeOut(const char *status)
{
	if (g().out.empty()) return;
	std::string tmp = g().out + ".tmp";
	FILE *fp = fopen(tmp.c_str(), "w");
	if (!fp) return;
	Shared *s = g().sh;
	fprintf(fp, "{\"status\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"evaluations\":%llu,\"nontrivial\":%llu,\"validated\":%llu,\n",
		status, (unsigned long long)s->states, (unsigned long long)s->transitions, (unsigned long long)s->evaluations,
		(unsigned long long)s->nontrivial, (unsigned long long)s->validated);
	fprintf(fp, "\"sections\":{");
	bool first = true;
	for (std::map<std::string, uint64_t>::iterator i = g().perSection.begin(); i != g().perSection.end(); ++i) {
		fprintf(fp, "%s\"%s\":%llu", first ? "" : ",", jesc(i->first).c_str(), (unsigned long long)i->second); first = false;
	}
	fprintf(fp, "},\n\"notes\":{"); first = true;
	for (std::map<std::string, uint64_t>::iterator i = g().notes.begin(); i != g().notes.end(); ++i) {
		fprintf(fp, "%s\"%s\":%llu", first ? "" : ",", jesc(i->first).c_str(), (unsigned long long)i->second); first = false;
	}
	fprintf(fp, "},\n\"samples\":[");
	for (size_t i = 0; i < g().samples.size(); i++) fprintf(fp, "%s\"%s\"", i ? "," : "", jesc(g().samples[i]).c_str());
	fprintf(fp, "],\n\"known_seen\":{"); first = true;
	for (std::map<std::string, std::string>::iterator i = g().knownSeen.begin(); i != g().knownSeen.end(); ++i) {
		fprintf(fp, "%s\"%s\":\"%s\"", first ? "" : ",", jesc(i->first).c_str(), jesc(i->second).c_str()); first = false;
	}
	fprintf(fp, "},\n\"fails\":[");
	for (size_t i = 0; i < g().fails.size(); i++) fprintf(fp, "%s\"%s\"", i ? "," : "", jesc(g().fails[i]).c_str());
	fprintf(fp, "]}\n");
	fclose(fp);
	rename(tmp.c_str(), g().out.c_str());
}

} // mc

void mc_main(); // supplied by the harness
#ifndef MC_NO_MAIN

#ifndef MC_HANG_SEC
#define MC_HANG_SEC 60
#endif

int main(int argc, char **argv)
{
	using namespace mc;
	G& x = g();
	x.thorough = false; x.shard = 0; x.shards = 1; x.hasOnly = false; x.maxFails = 1;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--tier") x.thorough = std::string(argv[++i]) == "thorough";
		else if (a == "--shard") { x.shard = atoi(argv[i + 1]); x.shards = atoi(argv[i + 2]); i += 2; }
		else if (a == "--out") x.out = argv[++i];
		else if (a == "--known") x.knownFile = argv[++i];
		else if (a == "--maxfails") x.maxFails = atoi(argv[++i]);
		else if (a == "--only") {
			x.only = argv[++i]; x.hasOnly = true;
			size_t p = x.only.rfind(':');
			if (p == std::string::npos) { x.onlySec = x.only; x.onlyIdx = ~0ULL; }
			else { x.onlySec = x.only.substr(0, p); x.onlyIdx = strtoull(x.only.c_str() + p + 1, 0, 10); }
		}
	}
	if (!x.knownFile.empty()) {
		FILE *fp = fopen(x.knownFile.c_str(), "r");
		if (fp) {
			char *line = 0; size_t cap = 0; ssize_t n;
			while ((n = getline(&line, &cap, fp)) > 0) { if (line[n - 1] == '\n') line[--n] = 0; if (n) x.known.insert(line); }
			free(line); fclose(fp);
		}
	}
	x.sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	fflush(0);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); return 3; }
	if (pid == 0) {
		mc_main();
		writeOut(g().fails.empty() ? "ok" : "violation");
		fflush(0);
		_exit(g().fails.empty() ? 0 : 1);
	}
	// supervisor: a case that crashes or never finishes is a violation, found with the description of that case
	uint64_t last = 0; int idle = 0, st = 0;
	for (;;) {
		pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid) break;
		usleep(idle < 20 ? 2000 : 100000);
		static uint64_t ticks; ticks++;
		uint64_t b = x.sh->beat;
		static struct timeval t0; struct timeval t1; gettimeofday(&t1, 0);
		if (b != last || t0.tv_sec == 0) { last = b; t0 = t1; idle = 0; } else idle++;
		if (t1.tv_sec - t0.tv_sec > MC_HANG_SEC) {
			kill(pid, SIGKILL); waitpid(pid, &st, 0);
			x.fails.push_back(fmt("key=hang %s:%llu | %s | no progress for %d s in this one case (does not terminate)",
				x.sh->section, (unsigned long long)x.sh->index, x.sh->what, MC_HANG_SEC));
			writeOut("violation");
			return 1;
		}
	}
	if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 1) ) {
		if (access(x.out.c_str(), F_OK) == 0 || x.out.empty()) return WEXITSTATUS(st);
	}
	std::string how = WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st)) : fmt("exited with status %d", WEXITSTATUS(st));
	x.fails.push_back(fmt("key=crash %s:%llu | %s | the process running this case %s (sanitizer report, crash or exit() in the library)",
		x.sh->section, (unsigned long long)x.sh->index, x.sh->what, how.c_str()));
	writeOut(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ? "killed" : "violation");
	return 1;
}
#endif // MC_NO_MAIN
