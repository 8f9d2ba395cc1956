// C13: Mmap and whole-file helpers
#include "fakeos.hpp"
#include <cybozu/mmap.hpp>
#include <dirent.h>
#include <sys/stat.h>
#include <cybozu/file.hpp>
#include <set>
using namespace fos;
static std::string bytes(size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = char(i * 131 + (i >> 8)); return s; }
static void model(size_t n, bool exists)
{
	mc::Chooser ch;
	ch.run([&] {
		OS& o = os(); o.base = 0; o.reset(&ch); o.on = true;
		std::string d = bytes(n);
		if (exists) { o.files["m"] = std::make_shared<Inode>(); o.files["m"]->data = d; }
		o.fOpen = o.fMeta = o.fClose = true;
		bool threw = false;
		try {
			cybozu::Mmap m("m");
			mc::what("Mmap of %zu bytes path=%s", n, ch.path().c_str());
			MC_CHECK(exists, "mapped a missing file");
			MC_CHECK(m.size() == n, "size()=%llu", (unsigned long long)m.size());
			if (n) MC_CHECK(std::string(m.get(), m.size()) == d, "wrong contents");
			MC_CHECK(o.fds.empty(), "descriptor kept open");
			MC_CHECK(o.maps.size() == (n ? 1u : 0u), "%zu mappings", o.maps.size());
		} catch (std::exception&) { threw = true; }
		mc::what("Mmap of %zu bytes exists=%d path=%s", n, exists, ch.path().c_str());
		if (threw) MC_CHECK(o.injected || !exists, "threw though nothing failed");
		MC_CHECK(o.fds.empty() && o.maps.empty(), "%zu descriptors, %zu mappings leaked", o.fds.size(), o.maps.size());
		MC_CHECK(o.badness.empty(), "%s", o.badness.c_str());
		mc::eval(n > 0);
		o.on = false;
	});
}
static void realMap(size_t n)
{
	os().on = false;
	mc::what("real Mmap of %zu bytes", n);
	std::string d = bytes(n);
	{ cybozu::File f("mm", std::ios::out); f.write(d.data(), n); }
	cybozu::Mmap m("mm");
	MC_CHECK(m.size() == n && (n == 0 || std::string(m.get(), n) == d), "wrong contents");
	MC_CHECK(cybozu::GetFileSize("mm") == n, "GetFileSize");
	cybozu::RemoveFile("mm");
	mc::eval(n > 0);
}
static void bigMap(uint64_t n) // sparse files beyond 2 and 4 GiB
{
	os().on = false; mc::what("real Mmap of %llu bytes", (unsigned long long)n); int fd = open("bm", O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0 || ftruncate64(fd, n) || pwrite64(fd, "xyz", 3, n - 3) != 3) { if (fd >= 0) close(fd); unlink("bm"); return; } close(fd);
	try { cybozu::Mmap m("bm"); MC_CHECK(m.size() == n && cybozu::GetFileSize("bm") == n, "size %llu", (unsigned long long)m.size()); if (m.size() == n) MC_CHECK(!memcmp(m.get() + n - 3, "xyz", 3) && m.get()[0] == 0 && m.get()[n - 4] == 0, "wrong contents"); } catch (std::exception& e) { mc::fail("refused: %s", e.what()); }
	unlink("bm"); mc::eval();
}
// names: helpers against their definition
static void names(const std::string& s)
{
	const std::string exts[] = { "", "a", "b", "ab", ".", ".a", "a.b" };
	for (int i = 0; i < 7; i++) {
		mc::what("HasExtension(%s, %s)", mc::show(s).c_str(), exts[i].c_str());
		std::string t = "." + exts[i];
		bool exp = exts[i].empty() || (s.size() >= t.size() && s.substr(s.size() - t.size()) == t);
		MC_CHECK(cybozu::HasExtension(s, exts[i]) == exp, "gives %d", !exp);
	}
	mc::what("GetBaseName(%s)", mc::show(s).c_str());
	std::string suf = "zz"; std::string b = cybozu::GetBaseName(s, &suf); size_t p = s.rfind('.');
	MC_CHECK(b == s.substr(0, p) && suf == (p == std::string::npos ? "" : s.substr(p + 1)) && cybozu::GetBaseName(s) == b, "base %s suffix %s", b.c_str(), suf.c_str());
	std::string r = s; cybozu::ReplaceBackSlash(r); std::string e = s; for (size_t i = 0; i < e.size(); i++) if (e[i] == '\\') e[i] = '/';
	MC_CHECK(r == e, "ReplaceBackSlash gives %s", r.c_str());
	mc::eval(!s.empty());
}
// RenameFile / RemoveFile / DoesFileExist / GetFileList: every sequence over a small directory, against a set model
static void dirOps(const std::vector<int>& ops)
{
	os().on = false;
	if (system("rm -rf d && mkdir d")) { }
	std::map<std::string, std::string> m; const char *nm[] = { "x", "y.a", "z.b" };
	std::string tr;
	int cnt = 0;
	for (size_t k = 0; k < ops.size(); k++) {
		int op = ops[k] / 9, i = ops[k] % 9 / 3, j = ops[k] % 3;
		std::string a = nm[i], b = nm[j], pa = "d/" + a, pb = "d/" + b;
		tr += mc::fmt(" %s(%s,%s)", op == 0 ? "create" : op == 1 ? "rename" : op == 2 ? "remove" : "mkdir", a.c_str(), b.c_str()); mc::setWhat("directory:" + tr);
		bool threw = false, want = false;
		try {
			if (op == 0) { std::string c = mc::fmt("content%d", cnt++); cybozu::File f(pa, std::ios::out); f.write(c.data(), c.size()); m[a] = c; }
			if (op == 1) { want = m.count(b) || !m.count(a); if (!want) { m[b] = m[a]; m.erase(a); } cybozu::RenameFile(pa, pb); }
			if (op == 2) { want = !m.count(a); m.erase(a); cybozu::RemoveFile(pa); }
		} catch (std::exception&) { threw = true; }
		MC_CHECK(threw == want, "threw=%d", threw);
		for (int q = 0; q < 3; q++) {
			std::string p = std::string("d/") + nm[q];
			MC_CHECK(cybozu::DoesFileExist(p) == (m.count(nm[q]) != 0), "DoesFileExist(%s) wrong", nm[q]);
			if (m.count(nm[q])) { MC_CHECK(cybozu::GetFileSize(p) == m[nm[q]].size(), "size of %s", nm[q]); std::string c(m[nm[q]].size(), 0); cybozu::File f(p, std::ios::in); f.read(&c[0], c.size()); MC_CHECK(c == m[nm[q]], "contents of %s", nm[q]); }
			else { bool t = false; try { cybozu::GetFileSize(p); } catch (std::exception&) { t = true; } MC_CHECK(t, "GetFileSize of a missing file"); }
		}
		const char *ex[] = { "", "a", "b" };
		for (int e = 0; e < 3; e++) {
			cybozu::FileList l = cybozu::GetFileList("d", ex[e]); std::multiset<std::string> got, exp;
			for (size_t q = 0; q < l.size(); q++) { got.insert(l[q].name); MC_CHECK(l[q].isFile() && !l[q].isDirectory(), "type of %s", l[q].name.c_str()); }
			for (std::map<std::string, std::string>::iterator it = m.begin(); it != m.end(); ++it) if (!*ex[e] || (it->first.size() > 2 && it->first.substr(it->first.size() - 2) == std::string(".") + ex[e])) exp.insert(it->first);
			MC_CHECK(got == exp, "GetFileList(%s) gives %zu names instead of %zu", ex[e], got.size(), exp.size());
		}
		mc::eval();
	}
}
// the directory reading calls, with failures
static int g_dirFail = -1, g_dirCalls, g_dirOpen;
extern "C" { DIR *__real_opendir(const char *); DIR *__wrap_opendir(const char *n) { DIR *d = __real_opendir(n); if (d) g_dirOpen++; return d; } int __real_closedir(DIR *); int __wrap_closedir(DIR *d) { g_dirOpen--; return __real_closedir(d); }
struct dirent *__real_readdir(DIR *); struct dirent *__wrap_readdir(DIR *d) { if (g_dirFail >= 0 && g_dirCalls++ == g_dirFail) { errno = EIO; return 0; } return __real_readdir(d); }
struct dirent64 *__real_readdir64(DIR *); struct dirent64 *__wrap_readdir64(DIR *d) { if (g_dirFail >= 0 && g_dirCalls++ == g_dirFail) { errno = EIO; return 0; } return __real_readdir64(d); }
static std::string g_exe; static bool g_exeOn, g_exeFail;
ssize_t __real_readlink(const char *p, char *b, size_t n); ssize_t __wrap_readlink(const char *p, char *b, size_t n) { if (!g_exeOn) return __real_readlink(p, b, n); if (g_exeFail) { errno = EACCES; return -1; } size_t m = g_exe.size() < n ? g_exe.size() : n; memcpy(b, g_exe.data(), m); return (ssize_t)m; } }
static bool notA(const std::string& name, const std::string& ext) { return name != ext; }
static void tree(int mask)
{
	os().on = false; if (system("rm -rf t && mkdir t")) { } const char *nm[] = { "f", "g.a", mask & 64 ? "..h" : ".h", "s.a", "l", "p.b" }; std::map<std::string, int> m; for (int i = 0; i < 6; i++) if (mask >> i & 1) { std::string q = std::string("t/") + nm[i]; m[nm[i]] = i; if (i < 3) { FILE *f = fopen(q.c_str(), "w"); fclose(f); } else if (i == 3) mkdir(q.c_str(), 0700); else if (i == 4) { if (symlink("f", q.c_str())) { } } else mkfifo(q.c_str(), 0600); }
	mc::what("GetFileList of entries %x", mask); const char *ex[] = { "", "a", "b", "f" };
	for (int how = 0; how < 3; how++) for (const char *e : ex) for (int fail = -1; fail <= (int)m.size() + 2; fail++) { g_dirFail = fail; g_dirCalls = 0; g_dirOpen = 0; cybozu::FileList l; bool ok = false; mc::what("GetFileList of entries %x extension %s way %d, readdir fails at %d", mask, e, how, fail); try { if (how == 0) { l = cybozu::GetFileList("t", e); ok = true; } else { l.push_back(cybozu::FileInfo("keep", DT_REG)); ok = how == 1 ? cybozu::GetFileList(l, "t", e) : cybozu::GetFileList(l, "t", e, notA); } } catch (std::exception&) { } g_dirFail = -1;
		MC_CHECK(g_dirOpen == 0, "%d directories left open", g_dirOpen); MC_CHECK(ok == (fail < 0), fail < 0 ? "failed" : "an incomplete list was reported as success"); if (!ok) { mc::eval(); continue; } std::multiset<std::string> got, exp; if (how) exp.insert("keep"); for (auto& x : l) { got.insert(x.name); if (x.name == "keep") continue; int k = m.count(x.name) ? m[x.name] : -1; MC_CHECK(x.isUnknown() || (x.isFile() == (k >= 0 && k < 3) && x.isDirectory() == (k == 3)), "type of %s", x.name.c_str()); } for (auto& x : m) { std::string t = std::string(".") + e; if (how == 2 ? x.first != e : !*e || (x.first.size() >= t.size() && x.first.substr(x.first.size() - t.size()) == t)) exp.insert(x.first); } MC_CHECK(got == exp, "%zu names, expected %zu", got.size(), exp.size()); mc::eval(!m.empty()); }
	{ g_dirOpen = 0; cybozu::FileList l; bool thr = false; mc::what("GetFileList of a missing directory"); int fd = dup(2), nul = open("/dev/null", O_WRONLY); dup2(nul, 2); close(nul); bool r = cybozu::GetFileList(l, "t/none"); try { cybozu::GetFileList("t/none"); } catch (cybozu::Exception&) { thr = true; } dup2(fd, 2); close(fd); MC_CHECK(!r && l.empty() && thr && g_dirOpen == 0, "success"); mc::eval(); }
	for (int i = 0; i < 6; i++) { std::string q = std::string("t/") + nm[i]; bool h = mask >> i & 1; if (i == 4) h = h && (mask & 1); mc::what("DoesFileExist(%s) of entries %x", q.c_str(), mask); MC_CHECK(cybozu::DoesFileExist(q) == h && cybozu::DoesFileExist(q + "x") == false, "wrong"); if (i == 3) MC_CHECK(cybozu::DoesFileExist(q + "/") == h, "with a slash"); mc::eval(h); }
	for (int i = 0; i < 6; i++) if (mask >> i & 1) { if (i == 4 && !(mask & 1)) continue; std::string q = std::string("t/") + nm[i]; { FILE *f = fopen("src", "w"); fputs("data", f); fclose(f); } struct stat a, b; memset(&a, 0, sizeof(a)); memset(&b, 0, sizeof(b)); if (lstat(q.c_str(), &a)) { } mc::what("RenameFile onto %s of entries %x", q.c_str(), mask); bool thr = false; try { cybozu::RenameFile("src", q); } catch (cybozu::Exception&) { thr = true; } if (lstat(q.c_str(), &b)) { } MC_CHECK(thr && a.st_ino == b.st_ino && cybozu::DoesFileExist("src"), "an existing file was replaced"); unlink("src"); mc::eval(); }
	MC_CHECK(cybozu::DoesFileExist("/") && cybozu::DoesFileExist("t") && cybozu::DoesFileExist("t/") && !cybozu::DoesFileExist("") && cybozu::DoesFileExist("."), "DoesFileExist of a directory or the empty name");
}
static void exePath()
{
	const char *dirs[] = { "/", "/a/", "/a.exe/b/", "/x y/\\z.d/" }; const char *names[] = { "p", "p.exe", "p.q.exe", "p.EXE", "exe", ".exe", "p.exe.q", "pexe" };
	for (const char *d : dirs) for (const char *n : names) { g_exe = std::string(d) + n; g_exeOn = true; mc::what("GetExePath of %s", g_exe.c_str()); std::string b = "old", w = n; if (w.size() >= 4 && w.substr(w.size() - 4) == ".exe") w = w.substr(0, w.size() - 4); std::string r = cybozu::GetExePath(&b), r2 = cybozu::GetExePath(); g_exeOn = false; MC_CHECK(r == d && r2 == d && b == w, "%s and %s", r.c_str(), b.c_str()); mc::eval(); }
	g_exeOn = g_exeFail = true; mc::what("GetExePath if readlink fails"); std::string r = cybozu::GetExePath(); g_exeOn = g_exeFail = false; MC_CHECK(r.empty(), "%s", r.c_str()); mc::eval();
	std::string b, own = cybozu::GetExePath(&b); char t[4096]; ssize_t k = readlink("/proc/self/exe", t, sizeof(t)); mc::what("GetExePath of this program"); MC_CHECK(own + b == std::string(t, k > 0 ? k : 0), "%s%s", own.c_str(), b.c_str()); mc::eval();
	for (int n = 14; n <= 40; n++) for (int m = n - 2; m <= n + 2; m++) { std::string a(n, 'e'), x(m, 'e'); mc::what("HasExtension, %d and %d characters", n, m); MC_CHECK(!cybozu::HasExtension(a, x) && cybozu::HasExtension(a + "." + x, x) && !cybozu::HasExtension(x, a + "." + x), "wrong"); mc::eval(); }
}
void mc_main()
{
	{ mc::Section s("tree"); for (int k = 0; k < 128; k++) if (s.pick()) tree(k); }
	{ mc::Section s("exe"); if (s.pick()) exePath(); }
	{ mc::Section s("model"); for (size_t n = 0; n <= 6; n++) for (int e = 0; e < 2; e++) if (s.pick()) { model(n, e); mc::sample(mc::g().sh->what); } const size_t t[] = { 4095, 4096, 4097, 65536 }; for (int i = 0; i < 4; i++) if (s.pick()) model(t[i], true); }
	{ mc::Section s("real"); const size_t t[] = { 0, 1, 2, 4095, 4096, 4097, 8191, 8192, 8193, 100000 }; for (int i = 0; i < 10; i++) if (s.pick()) { realMap(t[i]); mc::sample(mc::g().sh->what); } }
	{ mc::Section s("big"); for (uint64_t n : { (uint64_t)0x80000001ull, (uint64_t)0x100000003ull, (uint64_t)0x1c0000003ull }) if (s.pick()) bigMap(n); }
	{ mc::Section s("names"); const char al[] = "a.b/\\"; const int L = mc::tier(6, 8); for (int n = 0; n <= L; n++) { size_t tot = 1; for (int i = 0; i < n; i++) tot *= 5; for (size_t c = 0; c < tot; c++) if (s.pick()) { std::string x; size_t y = c; for (int i = 0; i < n; i++) { x += al[y % 5]; y /= 5; } names(x); } } }
	{ mc::Section s("directory"); std::vector<int> al; for (int i = 0; i < 3; i++) al.push_back(i * 3); for (int i = 0; i < 9; i++) al.push_back(9 + i); for (int i = 0; i < 3; i++) al.push_back(18 + i * 3);
		std::vector<int> v(3); for (size_t a = 0; a < al.size(); a++) for (size_t b = 0; b < al.size(); b++) for (size_t c = 0; c < al.size(); c++) if (s.pick()) { v[0] = al[a]; v[1] = al[b]; v[2] = al[c]; dirOps(v); mc::sample(mc::g().sh->what); } }
}
