// logger, format: what is in the log after every history of messages, priorities, targets and failures
#include "util.hpp"
#include <string>
#include <vector>
#include <sys/stat.h>
static std::vector<std::string> g_sys; static int g_closeFail, g_writeFail; static long g_files;
extern "C" void __wrap_syslog(int pri, const char *f, ...) { va_list ap; va_start(ap, f); std::string s = mc::fmtv(f, ap); va_end(ap); g_sys.push_back(mc::fmt("%d:", pri) + s); }
extern "C" FILE *__real_fopen(const char *, const char *); extern "C" int __real_fclose(FILE *);
static bool g_on; static std::set<FILE*> g_open; static std::set<std::string> g_deny;
extern "C" FILE *__wrap_fopen(const char *p, const char *m) { if (g_on && g_deny.count(p)) return 0; FILE *f = __real_fopen(p, m); if (g_on && f) g_open.insert(f); return f; }
extern "C" FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
extern "C" int __wrap_fclose(FILE *f) { int r; bool mine = g_open.erase(f); r = __real_fclose(f); if (mine && g_closeFail) return EOF; return r; }
#include <sstream>
#include <syslog.h>
#include <cybozu/log.hpp>
using namespace cybozu;
static std::string slurp(const std::string& p) { std::string s; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return s; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s; }
// "2020-01-02 03:04:05[.678] text\n" ...; gives the texts, or reports a malformed log
static std::vector<std::string> texts(const std::string& s, const std::vector<std::string>& want, bool *bad)
{
	std::vector<std::string> r; size_t p = 0; *bad = false; for (size_t k = 0; p < s.size(); k++) { const char *f = "dddd-dd-dd dd:dd:dd"; size_t i = 0; for (; f[i]; i++) if (p + i >= s.size() || (f[i] == 'd' ? !isdigit((unsigned char)s[p + i]) : s[p + i] != f[i])) { *bad = true; return r; } p += i; if (p < s.size() && s[p] == '.') { if (p + 4 > s.size() || !isdigit((unsigned char)s[p + 1]) || !isdigit((unsigned char)s[p + 2]) || !isdigit((unsigned char)s[p + 3])) { *bad = true; return r; } p += 4; r.push_back("m"); } else r.push_back("-"); if (p >= s.size() || s[p] != ' ') { *bad = true; return r; } p++; size_t n = k < want.size() ? want[k].size() - 1 : 0; if (k < want.size() && s.compare(p, n, want[k], 1, n) == 0) { r.back() += want[k].substr(1); p += n; } else { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); r.back() += s.substr(p, e - p); p = e; } if (p >= s.size() || s[p] != '\n') { *bad = true; return r; } p++; } return r;
}
static std::string join(const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += "[" + x.substr(0, 60) + "]"; return r; }
static std::string g_dir;
struct Model { std::vector<std::string> file[3]; std::vector<std::string> sys; int target; /* 0 A 1 B 2 own FILE 3 none */ int pri; bool ms, useSys; };
static void judge(const Model& m, const char *w)
{
	for (int i = 0; i < 3; i++) { std::string s = slurp(g_dir + "/" + "ABC"[i]); bool bad; std::vector<std::string> t = texts(s, m.file[i], &bad); MC_CHECK(!bad && t == m.file[i], "%s: log %c is %s, expected %s", w, "ABC"[i], bad ? "malformed" : join(t).c_str(), join(m.file[i]).c_str()); } MC_CHECK(g_sys == m.sys, "%s: syslog %s, expected %s", w, join(g_sys).c_str(), join(m.sys).c_str());
}
static void put(Model& m, int pri, const std::string& t, int how)
{
	if (how == 0) PutLog((LogPriority)pri, "%s", t.c_str()); else if (how == 1) { Log l((LogPriority)pri); l << t; } else { size_t h = t.size() / 2; Log((LogPriority)pri) << t.substr(0, h) << t.substr(h); } if (pri < m.pri) return; if (m.target < 3) m.file[m.target].push_back((m.ms ? "m" : "-") + t); if (m.useSys) { static const int p[] = { LOG_DEBUG, LOG_INFO, LOG_WARNING, LOG_CRIT }; m.sys.push_back(mc::fmt("%d:", p[pri]) + t + "\n"); }
}
void mc_main()
{
	char tmpl[] = "/tmp/mclogXXXXXX"; g_dir = mkdtemp(tmpl); std::string A = g_dir + "/A", B = g_dir + "/B", C = g_dir + "/C", D = g_dir + "/nodir/x"; int n = 0;
	{ mc::Section s("history"); mc::forSeqUpTo(12, mc::tier(4, 6), [&](const std::vector<int>& q) { if (!s.pick()) return; std::string w; for (int i : q) w += (char)('a' + i); mc::what("ops %s", w.c_str()); unlink(A.c_str()); unlink(B.c_str()); unlink(C.c_str()); FILE *own = __real_fopen(C.c_str(), "wb"); g_sys.clear(); g_open.clear(); g_on = true; Model m; m.target = 0; m.pri = LogInfo; m.ms = false; m.useSys = false; SetLogPriority(LogInfo); SetLogUseMsec(false); OpenLogFile(A); int k = 0;
		for (int op : q) { k++; bool thr = false; switch (op) { case 0: put(m, LogInfo, mc::fmt("info %d", k), 0); break; case 1: put(m, LogDebug, mc::fmt("debug %d", k), 1); break; case 2: put(m, LogError, std::string(5000 + k, 'e') + "\n%s%d second line", 2); break; case 3: put(m, LogWarning, "", k % 3); break; case 4: OpenLogFile(A); m.target = 0; m.useSys = false; break; case 5: OpenLogFile(B); m.target = 1; m.useSys = false; break; case 6: SetLogFILE(own); m.target = 2; m.useSys = false; break; case 7: try { OpenLogFile(D); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "unusable path accepted"); break; case 8: m.pri = (m.pri + 2) % 4; SetLogPriority((LogPriority)m.pri); break; case 9: m.ms = !m.ms; SetLogUseMsec(m.ms); break; case 10: m.useSys = !m.useSys; useSyslog(m.useSys); break; default: SetLogFILE(0); m.target = 3; m.useSys = false; } judge(m, mc::fmt("after step %d", k).c_str()); MC_CHECK(g_open.size() == (m.target < 2 ? 1u : 0u), "%zu log files open", g_open.size()); mc::state(); }
		put(m, LogError, "last", 1); judge(m, "at the end"); SetLogFILE(0); MC_CHECK(g_open.empty(), "log file left open"); g_on = false; MC_CHECK(fclose(own) == 0, "own FILE was closed"); mc::eval(!q.empty()); }); }
	// a message is in the file when the call returns: the process may die at once
	{ mc::Section s("crash"); for (int how = 0; how < 3; how++) for (int c = 0; c < 3; c++) for (int cnt = 1; cnt <= 4; cnt++) { if (!s.pick()) continue; mc::what("%d messages (form %d), then the process dies (%d)", cnt, how, c); unlink(A.c_str()); Model m; m.target = 0; m.pri = 0; m.ms = false; m.useSys = false; SetLogPriority(LogDebug); SetLogUseMsec(false); for (int i = 0; i < cnt; i++) m.file[0].push_back("-" + mc::fmt("message %d ", i) + std::string(i * 900, 'x')); pid_t p = fork(); if (p == 0) { OpenLogFile(A); for (int i = 0; i < cnt; i++) { Model d = m; d.pri = 9; put(d, LogInfo, m.file[0][i].substr(1), how); } if (c == 0) _exit(0); if (c == 1) kill(getpid(), SIGKILL); signal(SIGSEGV, SIG_DFL); kill(getpid(), SIGSEGV); _exit(0); } int st; waitpid(p, &st, 0); bool bad; std::vector<std::string> t = texts(slurp(A), m.file[0], &bad); MC_CHECK(!bad && t == m.file[0], "%zu of %d messages survived", t.size(), cnt); mc::eval(); } }
	// two processes and one file: lines are appended, none overwritten
	{ mc::Section s("append"); mc::forSeq(2, mc::tier(6, 8), [&](const std::vector<int>& q) { if (!s.pick()) return; std::string w; for (int i : q) w += (char)('0' + i); mc::what("writers %s", w.c_str()); unlink(A.c_str()); g_on = true; g_open.clear(); { log_local::Logger l[2]; l[0].openFile(A); l[1].openFile(A); std::vector<std::string> want; for (size_t i = 0; i < q.size(); i++) { std::string t = mc::fmt("w%d n%zu", q[i], i); l[q[i]].put(LogInfo, t); want.push_back("-" + t); bool bad; std::vector<std::string> g = texts(slurp(A), want, &bad); MC_CHECK(!bad && g == want, "log is %s", join(g).c_str()); } } MC_CHECK(g_open.empty(), "%zu log files left open", g_open.size()); g_on = false; mc::eval(); }); }
	// a failing target does not throw into the caller and does not stop later messages elsewhere
	{ mc::Section s("failure"); for (int how = 0; how < 3; how++) for (int len : { 1, 100, 5000 }) { if (!s.pick()) continue; mc::what("full device, form %d, %d bytes", how, len); bool thr = false; try { OpenLogFile("/dev/full"); Model m; m.pri = 9; m.target = 3; put(m, LogError, std::string(len, 'x'), how); unlink(A.c_str()); try { OpenLogFile(A); } catch (cybozu::Exception&) { OpenLogFile(A); } m.pri = 0; m.target = 0; m.ms = false; m.useSys = false; SetLogUseMsec(false); put(m, LogError, "after", how); bool bad; MC_CHECK(texts(slurp(A), m.file[0], &bad) == m.file[0], "later message lost"); } catch (std::exception&) { thr = true; } MC_CHECK(!thr, "exception"); SetLogFILE(0); mc::eval(); }
		for (int how = 0; how < 2; how++) { if (!s.pick()) continue; mc::what("close of the old log fails, how %d", how); g_on = true; g_open.clear(); OpenLogFile(A); g_closeFail = 1; bool thr = false; try { if (how) OpenLogFile(B); else SetLogFILE(0); } catch (cybozu::Exception&) { thr = true; } MC_CHECK(thr, "error lost"); g_closeFail = 0; MC_CHECK(g_open.empty(), "%zu files left open", g_open.size()); PutLog(LogError, "%s", "no target"); unlink(B.c_str()); OpenLogFile(B); Model m; m.pri = 0; m.target = 1; m.ms = false; m.useSys = false; put(m, LogError, "usable again", 0); bool bad; MC_CHECK(texts(slurp(B), m.file[1], &bad) == m.file[1], "log not usable"); SetLogFILE(0); g_on = false; mc::eval(); } }
	{ mc::Section s("priorities"); const LogPriority PR[] = { LogDebug, LogInfo, LogWarning, LogError }; for (int set = 0; set < 4; set++) for (int msg = 0; msg < 4; msg++) for (int how = 0; how < 3; how++) for (int sy = 0; sy < 2; sy++) { if (!s.pick()) continue; mc::what("priority %d message %d form %d syslog %d", set, msg, how, sy); unlink(A.c_str()); g_sys.clear(); OpenLogFile(A); useSyslog(sy != 0); SetLogPriority(PR[set]); SetLogUseMsec(); Model m; m.target = 3; m.pri = 9; m.ms = true; m.useSys = false; if (how == 2) { if (PR[msg] == LogInfo) Log() << "x"; else Log(PR[msg]) << "x"; } else put(m, PR[msg], "x", how); std::vector<std::string> want; if (msg >= set) want.push_back("mx"); bool bad; std::vector<std::string> t = texts(slurp(A), want, &bad); MC_CHECK(!bad && t == want, "log is %s", join(t).c_str()); static const int p[] = { LOG_DEBUG, LOG_INFO, LOG_WARNING, LOG_CRIT }; std::vector<std::string> ws; if (sy && msg >= set) ws.push_back(mc::fmt("%d:x\n", p[msg])); MC_CHECK(g_sys == ws, "syslog is %s", join(g_sys).c_str()); SetLogFILE(0); SetLogUseMsec(false); mc::eval(); } }
	{ mc::Section s("fresh"); const LogPriority PR[] = { LogDebug, LogInfo, LogWarning, LogError }; for (int msg = 0; msg < 4; msg++) { if (!s.pick()) continue; mc::what("new Logger, message of priority %d", msg); unlink(C.c_str()); g_sys.clear(); fflush(stderr); int keep = dup(2), fd = open(C.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600); dup2(fd, 2); close(fd); { log_local::Logger l; l.put(PR[msg], "first"); } fprintf(stderr, "still open"); fflush(stderr); dup2(keep, 2); close(keep); std::string g = slurp(C); size_t e = g.rfind("still open"); MC_CHECK(e != std::string::npos, "stderr was closed"); std::vector<std::string> want; if (msg >= 1) want.push_back("-first"); bool bad; std::vector<std::string> t = texts(g.substr(0, e == std::string::npos ? 0 : e), want, &bad); MC_CHECK(!bad && t == want, "stderr gets %s", g.c_str()); MC_CHECK(g_sys.size() == want.size(), "%zu messages in syslog", g_sys.size()); mc::eval(); } }
	{ mc::Section s("format"); for (int n = 0; n <= mc::tier(600, 5000); n++) { if (!s.pick()) continue; mc::what("format of %d bytes", n); std::string x(n, 'f'); std::string g = cybozu::format("%s", x.c_str()); MC_CHECK(g == x, "format"); std::string h = "old contents that are longer than the new"; cybozu::format(h, "<%*d|%s>", n % 97, n, x.c_str()); std::string e = mc::fmt("<%*d|%s>", n % 97, n, x.c_str()); MC_CHECK(h == e, "format(str)"); MC_CHECK(cybozu::format("%c%c%s", 'a', 0, x.c_str()) == std::string("a\0", 2) + x, "NUL"); MC_CHECK(cybozu::format("100%%") == "100%", "percent"); mc::eval(n > 0); } if (s.pick()) { mc::what("impossible width"); bool thr = false; try { cybozu::format("%2147483647d%2147483647d", 1, 1); } catch (cybozu::Exception&) { thr = true; } catch (std::bad_alloc&) { thr = true; } MC_CHECK(thr, "no exception"); mc::eval(); } }
	unlink(A.c_str()); unlink(B.c_str()); unlink(C.c_str()); rmdir(g_dir.c_str());
}
