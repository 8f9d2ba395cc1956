// C14: Process - real children under injected failures of pipe/fcntl/fork/exec/read
#include "mc.hpp"
#include <errno.h>
#include <dirent.h>
#include <poll.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <cybozu/process.hpp>
static mc::Chooser *CH; static bool g_on; static pid_t g_parent; static uint64_t g_inj, g_eintr; static bool g_stdio; static int g_childFail, g_opens, g_dups; static volatile int *g_fired; // shared with the child
extern "C" {
int __real_pipe(int*); int __real_pipe2(int*, int); pid_t __real_fork(); ssize_t __real_read(int, void*, size_t); int __real_fcntl(int, int, ...); int __real_fcntl64(int, int, ...);
static bool inj(int n = 2) { if (!g_on || getpid() != g_parent) return false; if (CH->choose(2)) { g_inj++; return true; } return false; }
int __wrap_pipe(int *p) { if (inj()) { errno = EMFILE; return -1; } return __real_pipe(p); }
int __wrap_pipe2(int *p, int f) { if (inj()) { errno = EMFILE; return -1; } return __real_pipe2(p, f); }
pid_t __wrap_fork() { if (inj()) { errno = EAGAIN; return -1; } g_childFail = g_on && getpid() == g_parent && g_stdio ? CH->choose(7) : 0; g_opens = g_dups = 0; return __real_fork(); }
// failures of the redirection in the child: the k-th open or the k-th dup2
static bool childFail(int& n, int base) { if (!g_on || getpid() == g_parent || g_childFail <= base || g_childFail > base + 3 || ++n != g_childFail - base) return false; *g_fired = 1; return true; }
int __real_open(const char*, int, ...); int __real_open64(const char*, int, ...); int __real_dup2(int, int);
int __wrap_open(const char *f, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (childFail(g_opens, 0)) { errno = EMFILE; return -1; } return __real_open(f, fl, m); }
int __wrap_open64(const char *f, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (childFail(g_opens, 0)) { errno = EMFILE; return -1; } return __real_open(f, fl, m); }
int __wrap_dup2(int a, int b) { if (childFail(g_dups, 3)) { errno = EBUSY; return -1; } return __real_dup2(a, b); }
int __wrap_fcntl(int fd, int c, ...) { va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap); if ((c == F_SETFD || c == F_DUPFD || c == F_DUPFD_CLOEXEC) && inj()) { errno = EIO; return -1; } return __real_fcntl(fd, c, a); }
int __wrap_fcntl64(int fd, int c, ...) { va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap); if ((c == F_SETFD || c == F_DUPFD || c == F_DUPFD_CLOEXEC) && inj()) { errno = EIO; return -1; } return __real_fcntl(fd, c, a); }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (g_on && getpid() == g_parent && g_eintr < 2 && CH->choose(2)) { g_eintr++; errno = EINTR; return -1; } return __real_read(fd, b, n); }
}
static std::string fds() { std::string s; DIR *d = opendir("/proc/self/fd"); std::set<int> f; if (!d) return "?"; int me = dirfd(d); while (dirent *e = readdir(d)) if (isdigit(e->d_name[0]) && atoi(e->d_name) != me) f.insert(atoi(e->d_name)); closedir(d); for (std::set<int>::iterator i = f.begin(); i != f.end(); ++i) s += mc::fmt("%d,", *i); return s; }
static std::string slurp(const char *n) { std::string s; FILE *fp = fopen(n, "rb"); if (!fp) return "<none>"; int c; while ((c = fgetc(fp)) != EOF) s += (char)c; fclose(fp); return s; }
// the program that is started: writes its arguments, its descriptors and where they lead, then exits with a code
static const char *helper = "#!/bin/sh\n# $1 = report file, $2 = exit code\nr=$1; c=$2; (ls -l /proc/$$/fd > $r.fds 2>/dev/null; :); w=0; while [ ! -e go ] && [ $w -lt 1500 ]; do sleep 0.02; w=$((w+1)); done; o=$(readlink /proc/$$/fd/1); i=$(readlink /proc/$$/fd/0); e=; if [ \"$i$o\" = /dev/null/dev/null ]; then /bin/echo y || e=1; /bin/echo y >&2 || e=${e}2; /bin/cat || e=${e}0; fi; { for a in \"$@\"; do printf '[%s]' \"$a\"; done; printf '|out=%s;err=%s;' \"$o\" \"$e\"; for f in /proc/$$/fd/*; do n=${f##*/}; t=$(readlink $f); case \"$t\" in */helper.sh|pipe:*|*/rep*.tmp) ;; *) printf '%s=%s;' \"$n\" \"$t\";; esac; done; } > $r.tmp; mv $r.tmp $r; exit $c\n";
static int waitEnd(cybozu::Process& p, int *code) { for (int i = 0; i < 3000; i++) { if (!p.isAlive(code)) return 0; usleep(2000); } return -1; }

// lim: limit of descriptors of the caller, which holds its topmost one if leakFd; shut: which of 0, 1, 2 the caller has closed; form 1: run(exe, p1, p2, ...)
static void run(const std::vector<std::string>& extra, int code, bool closeStdio, int target, int leakFd, int bound, int lim = 256, int shut = 0, int form = 0)
{
	struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = rl.rlim_max == RLIM_INFINITY || rl.rlim_max > (rlim_t)lim ? lim : rl.rlim_max; setrlimit(RLIMIT_NOFILE, &rl); lim = (int)rl.rlim_cur;
	// target 0: the helper, 1: missing program, 2: not executable
	mc::Chooser ch; CH = &ch;
	ch.run([&] {
		unlink("rep"); unlink("rep.fds"); unlink("buffered"); unlink("outbuf"); unlink("go"); *g_fired = 0; g_childFail = 0; g_stdio = closeStdio || form == 2;
		mc::what("Start target=%d code=%d closeStdio=%d extraArgs=%zu limit=%d closed=%d form=%d path=%s", target, code, closeStdio, extra.size(), lim, shut, form, ch.path().c_str());
		char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) return;
		std::string exe = std::string(cwd) + (target == 0 ? "/helper.sh" : target == 1 ? "/missing" : "/plain");
		std::vector<std::string> arg; arg.push_back("rep"); arg.push_back(std::to_string(code)); arg.insert(arg.end(), extra.begin(), extra.end());
		int leak = leakFd ? open("plain", O_RDONLY) : -1;
		int far = leakFd ? fcntl(leak, F_DUPFD, leakFd == 1 ? 70 : lim - 1) : -1, farther = leakFd > 1 && lim > 1024 ? fcntl(leak, F_DUPFD, 1024) : -1;
		FILE *fp = fopen("buffered", "w"); fputs("once", fp); // pending output of the caller must not be written twice
		int keep[3] = { -1, -1, -1 }; for (int i = 0; i < 3; i++) if (shut >> i & 1) { keep[i] = fcntl(i, F_DUPFD_CLOEXEC, 90); close(i); }
		int out0 = -1; // the caller's stdout has pending output, too
		if (!(shut & 2)) { fflush(stdout); out0 = fcntl(1, F_DUPFD_CLOEXEC, 90); int o = open("outbuf", O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(o, 1); close(o); fputs("pending", stdout); }
		std::string before = fds();
		g_inj = g_eintr = 0; g_parent = getpid(); g_on = true;
		cybozu::Process p; bool ok; std::vector<std::string> a = arg; a.resize(9);
		if (form == 0) ok = p.run(exe, arg, closeStdio); else if (form == 1) ok = p.run(exe, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); else ok = p.run(exe, arg);
		g_on = false;
		mc::what("Start target=%d code=%d closeStdio=%d extraArgs=%zu limit=%d closed=%d form=%d path=%s -> %d", target, code, closeStdio, extra.size(), lim, shut, form, ch.path().c_str(), ok);
		std::string after = fds();
		bool alive = !ok || p.isAlive(); // it waits for the file go
		{ int o = open("go", O_CREAT | O_WRONLY, 0600); close(o); }
		if (out0 >= 0) { fflush(stdout); dup2(out0, 1); close(out0); std::string t = slurp("outbuf"); MC_CHECK(t == "pending" , "pending stdout of the caller written as '%s'", t.c_str()); }
		for (int i = 0; i < 3; i++) if (keep[i] >= 0) { dup2(keep[i], i); close(keep[i]); }
		MC_CHECK(before == after, "descriptors of the caller before %s after %s", before.c_str(), after.c_str());
		MC_CHECK(ok == (g_inj == 0 && !*g_fired && target == 0), "reports %s", ok ? "success" : "failure");
		MC_CHECK(p.isValid() == ok, "isValid()=%d", p.isValid());
		if (ok) {
			MC_CHECK(alive, "run() waits for the end of the program or isAlive() is false while it runs"); int c = -77; MC_CHECK(waitEnd(p, &c) == 0, "child never ends"); MC_CHECK(c == code, "exit code %d", c);
			std::string rep = slurp("rep"); std::string exp; for (size_t i = 0; i < arg.size(); i++) exp += "[" + arg[i] + "]";
			size_t bar = rep.rfind('|'); MC_CHECK(bar != std::string::npos && rep.substr(0, bar) == exp, "child got arguments %s, expected %s", rep.c_str(), exp.c_str());
			std::string f = bar == std::string::npos ? "" : rep.substr(bar + 1);
			if (closeStdio) MC_CHECK(f.find("0=/dev/null;") != std::string::npos && f.find("out=/dev/null;") != std::string::npos && f.find("2=/dev/null;") != std::string::npos, "stdio of the child: %s", f.c_str());
			if (closeStdio) MC_CHECK(f.find("err=;") != std::string::npos, "stdio of the child is not usable: %s", f.c_str());
			{ std::string l = slurp("rep.fds"), bad; size_t p0 = 0; while (p0 < l.size()) { size_t e = l.find('\n', p0); if (e == std::string::npos) e = l.size(); std::string ln = l.substr(p0, e - p0); p0 = e + 1; size_t ar = ln.find(" -> "); if (ar == std::string::npos) continue; size_t b = ln.rfind(' ', ar - 1); if (atoi(ln.c_str() + b + 1) > 2 && ln.find("/helper.sh") == std::string::npos) bad += ln.substr(b) + ";"; } MC_CHECK(bad.empty(), "the program is started with descriptors%s", bad.c_str()); }
			MC_CHECK(f.find("plain") == std::string::npos && f.find("buffered") == std::string::npos, "child inherits descriptors of the caller: %s", f.c_str());
		} else {
			errno = 0; pid_t w = waitpid(-1, 0, WNOHANG); MC_CHECK(w == -1 && errno == ECHILD, "a failed start leaves a child process behind (%d)", (int)w);
			MC_CHECK(slurp("rep") == "<none>", "the program ran although start failed");
		}
		fclose(fp);
		MC_CHECK(slurp("buffered") == "once", "output of the caller written twice: %s", slurp("buffered").c_str());
		if (leak >= 0) close(leak); if (far >= 0) close(far); if (farther >= 0) close(farther);
		while (waitpid(-1, 0, WNOHANG) > 0) { }
		mc::eval();
	}, bound);
}
void mc_main()
{
	g_fired = (volatile int*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (fcntl(1, F_GETFD) < 0) open("/dev/null", O_WRONLY);
	FILE *fp = fopen("helper.sh", "w"); fputs(helper, fp); fclose(fp); chmod("helper.sh", 0755);
	fp = fopen("plain", "w"); fputs("x", fp); fclose(fp); chmod("plain", 0644);
	mc::Section s("start");
	std::vector<std::vector<std::string> > ex;
	{ std::vector<std::string> v; ex.push_back(v); v.push_back("a b"); ex.push_back(v); v.push_back(""); v.push_back("\"q\\"); ex.push_back(v); v.push_back("*;$x'"); v.push_back(std::string(2000, 'z')); ex.push_back(v); }
	for (int t = 0; t < 3; t++) for (size_t e = 0; e < ex.size(); e++) for (int c = 0; c < 3; c++) for (int st = 0; st < 2; st++) for (int l = 0; l < 2; l++) {
		if (!s.pick()) continue;
		const int codes[] = { 0, 1, 255 };
		run(ex[e], codes[c], st, t, l, mc::tier(2, 3)); mc::sample(mc::g().sh->what);
	}
	mc::Section q("caller"); // descriptor limit, topmost descriptors in use, closed stdio, both forms of run
	for (int t = 0; t < 3; t++) for (int lim : { 256, 1024, 1025, 4096, 70000, 140000 }) for (int shut = 0; shut < 8; shut++) for (int st = 0; st < 2; st++) {
		if (lim > 4096 && (shut || t)) continue;
		if (!q.pick()) continue;
		run(ex[1], 3, st, t, 2, mc::tier(1, 2), lim, shut); mc::sample(mc::g().sh->what);
	}
	mc::Section f("forms");
	for (int t = 0; t < 3; t++) for (int n = 0; n < 8; n++) for (int fm = 1; fm < 3; fm++) {
		if (!f.pick()) continue;
		std::vector<std::string> v; for (int i = 0; i < n; i++) v.push_back(mc::fmt("arg %d", i)); run(v, 5, fm == 2, t, 1, mc::tier(1, 2), 256, 0, fm); mc::sample(mc::g().sh->what);
	}
}
