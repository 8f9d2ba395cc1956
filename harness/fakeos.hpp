#pragma once
/*
  fakeos.hpp - a small POSIX kernel behind the linker's --wrap: descriptors, files with volatile and durable content,
  stream sockets, select/poll.  Every answer POSIX leaves open (short counts, EINTR, errors, readiness, timeouts) is a
  choice point, so a harness can enumerate them.  With fos::on == false every call goes to the real system.
*/
#include "mc.hpp"
#include <errno.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <memory>

namespace fos {
typedef std::string Str;
struct Inode { Str data, durable; bool seekable = true, syncable = true; };
typedef std::shared_ptr<Inode> Ino;
enum Kind { FREE, FILE_, SOCK };
enum Conn { UNCONN, CONNECTING, CONNECTED, CONNFAIL, LISTENING };
struct Fd {
	Kind kind = FREE;
	Ino ino; int flags = 0; uint64_t pos = 0;
	Conn conn = UNCONN; bool nonblock = false; bool bound = false, shutWr = false;
	int sockErr = 0;
	Str rx; size_t rxPos = 0; bool rxEof = true; Str tx; uint64_t txLen = 0;
	std::map<std::pair<int,int>, Str> opt;
	int family = 0; Str addr; uint64_t id = 0;
};
struct OS {
	bool on = false;
	mc::Chooser *ch = 0;
	std::map<int, Fd> fds;
	std::map<Str, Ino> files;
	int base = 100;
	uint64_t nextId = 1;
	uint64_t opened = 0, closed = 0, fullSyncs = 0;
	Str badness;                 // misuse of the system by the code under test
	std::map<void*, size_t> maps;
	// fault switches
	bool fShort = false, fEintr = false, fErr = false, fClose = false, fSync = false, fOpen = false, fMeta = false;
	bool fSock = false, fConnErr = false;
	bool huge = false;           // addresses are only compared, never dereferenced
	const char *hugeBase = 0; uint64_t hugeMax = 0;
	int acceptFamily = AF_INET; Str acceptPeer; // address of the next peer (empty: loopback)
	Str rxTemplate;              // what a new connection will receive
	bool rxTemplateEof = true;
	long lastSec = -1, lastUsec = -1; int selCalls = 0; bool lastSelRead = false;
	bool connectAsync = true;
	uint64_t calls = 0;
	int eintrLeft = 2;
	uint64_t injected = 0;       // failures (not EINTR, not short counts) given to the code under test
	int lastRealBind = -1;
	bool bindFailed = false;     // a bind or listen was refused
	int ioErr = 0;               // errno of injected read/write failures (0: the usual one)
	int connErr = 0;             // SO_ERROR of a connection attempt that fails later
	void reset(mc::Chooser *c) { OS n; n.ch = c; n.base = base; *this = n; }
	void bad(const Str& s) { if (badness.empty()) badness = s; }
	int choose(int n) { calls++; return ch ? ch->choose(n) : 0; }
	int alloc(Kind k) { int fd = base; while (fds.count(fd)) fd++; Fd& f = fds[fd]; f.kind = k; f.id = nextId++; opened++; return fd; }
	Fd *get(int fd) { std::map<int, Fd>::iterator i = fds.find(fd); return i == fds.end() ? 0 : &i->second; }
};
inline OS& os() { static OS x; return x; }
struct On { bool old; On(bool v = true) : old(os().on) { os().on = v; } ~On() { os().on = old; } };
inline int err(int e) { errno = e; return -1; }
inline int inj(int e) { os().injected++; errno = e; return -1; }
} // fos

#define FOS (fos::os())
extern "C" {
#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__); ret __wrap_##name(__VA_ARGS__)
int __real_open(const char*, int, ...); int __real_open64(const char*, int, ...);
int __real_ioctl(int, unsigned long, ...); int __real_fcntl(int, int, ...); int __real_fcntl64(int, int, ...);

static int fos_open(const char *name, int flags)
{
	fos::OS& o = FOS;
	if (o.fOpen) { static const int e[] = { 0, EACCES, EMFILE }; int k = o.choose(3); if (k) return fos::inj(e[k]); }
	std::map<fos::Str, fos::Ino>::iterator i = o.files.find(name);
	if (i == o.files.end()) {
		if (!(flags & O_CREAT)) return fos::err(ENOENT);
		o.files[name] = std::make_shared<fos::Inode>();
		i = o.files.find(name);
	} else if ((flags & O_CREAT) && (flags & O_EXCL)) return fos::err(EEXIST);
	if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) i->second->data.clear();
	int fd = o.alloc(fos::FILE_);
	o.fds[fd].ino = i->second; o.fds[fd].flags = flags;
	return fd;
}
int __wrap_open(const char *n, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return FOS.on ? fos_open(n, fl) : __real_open(n, fl, m); }
int __wrap_open64(const char *n, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return FOS.on ? fos_open(n, fl) : __real_open(n, fl, m); }

REAL(int, close, int fd)
{
	if (!FOS.on) return __real_close(fd);
	fos::OS& o = FOS;
	if (!o.get(fd)) { o.bad(mc::fmt("close(%d): not an open descriptor (closed twice or never opened)", fd)); return fos::err(EBADF); }
	o.fds.erase(fd); o.closed++;
	if (o.fClose) { int k = o.choose(3); if (k) return fos::inj(k == 1 ? EIO : EINTR); } // Linux releases the descriptor in either case
	return 0;
}
static ssize_t fos_read(int fd, void *buf, size_t n)
{
	fos::OS& o = FOS; fos::Fd *f = o.get(fd);
	if (!f) { if (fd >= 0) o.bad(mc::fmt("read on descriptor %d which is not open", fd)); return fos::err(EBADF); }
	enum { FULL, EINTR_, ERR_, SHORT };
	if (f->kind == fos::FILE_ && (f->flags & O_ACCMODE) == O_WRONLY) return fos::err(EBADF);
	uint64_t avail; const char *src = 0;
	if (o.huge) { avail = n > 0x7ffff000 ? 0x7ffff000 : n; }
	else if (f->kind == fos::FILE_) { avail = f->pos < f->ino->data.size() ? f->ino->data.size() - f->pos : 0; src = f->ino->data.data() + f->pos; }
	else { avail = f->rx.size() - f->rxPos; src = f->rx.data() + f->rxPos; if (avail == 0 && !f->rxEof) return fos::err(EAGAIN); }
	uint64_t m = avail < n ? avail : n;
	int shortN = o.fShort && m > 1 ? (int)(o.huge ? 2 : m - 1) : 0;
	bool canI = o.fEintr && o.eintrLeft > 0;
	int k = o.choose(1 + canI + o.fErr + shortN);
	if (k > 0 && canI) { if (k == 1) { o.eintrLeft--; return fos::err(EINTR); } k--; }
	if (k > 0 && o.fErr) { if (k == 1) { if (o.injected > 50) { o.bad("a failing read is retried forever"); return 0; } return fos::inj(o.ioErr ? o.ioErr : f->kind == fos::SOCK ? ECONNRESET : EIO); } k--; }
	if (k > 0) { if (o.huge) m = k == 1 ? 1 : m / 2; else m = k; }
	if (o.huge) {
		uint64_t off = (const char*)buf - o.hugeBase;
		if (off != f->rxPos || off + n > o.hugeMax) o.bad(mc::fmt("read of %llu bytes at offset %llu, expected offset %llu within %llu", (unsigned long long)n, (unsigned long long)off, (unsigned long long)f->rxPos, (unsigned long long)o.hugeMax));
	} else if (m) memcpy(buf, src, m);
	if (f->kind == fos::FILE_ && !o.huge) f->pos += m; else f->rxPos += m;
	return (ssize_t)m;
}
static ssize_t fos_write(int fd, const void *buf, size_t n)
{
	fos::OS& o = FOS; fos::Fd *f = o.get(fd);
	if (!f) { if (fd >= 0) o.bad(mc::fmt("write on descriptor %d which is not open", fd)); return fos::err(EBADF); }
	if (f->kind == fos::FILE_ && (f->flags & O_ACCMODE) == O_RDONLY) return fos::err(EBADF);
	if (f->shutWr) return fos::err(EPIPE);
	uint64_t m = n; if (o.huge && m > 0x7ffff000) m = 0x7ffff000;
	int shortN = o.fShort && m > 1 ? (int)(o.huge ? 2 : m - 1) : 0;
	bool canI = o.fEintr && o.eintrLeft > 0;
	int k = o.choose(1 + canI + o.fErr + shortN);
	if (k > 0 && canI) { if (k == 1) { o.eintrLeft--; return fos::err(EINTR); } k--; }
	if (k > 0 && o.fErr) { if (k == 1) { if (o.injected > 50) { o.bad("a failing write is retried forever"); return m; } return fos::inj(o.ioErr ? o.ioErr : f->kind == fos::SOCK ? EPIPE : ENOSPC); } k--; }
	if (k > 0) { if (o.huge) m = k == 1 ? 1 : m / 2; else m = k; }
	if (o.huge) {
		uint64_t off = (const char*)buf - o.hugeBase;
		if (off != f->txLen || off + n > o.hugeMax) o.bad(mc::fmt("write of %llu bytes at offset %llu, expected offset %llu within %llu", (unsigned long long)n, (unsigned long long)off, (unsigned long long)f->txLen, (unsigned long long)o.hugeMax));
		f->txLen += m;
		return (ssize_t)m;
	}
	if (f->kind == fos::SOCK) { f->tx.append((const char*)buf, m); f->txLen += m; return (ssize_t)m; }
	fos::Str& d = f->ino->data;
	if (f->flags & O_APPEND) f->pos = d.size();
	if (f->pos + m > d.size()) d.resize(f->pos + m);
	memcpy(&d[f->pos], buf, m); f->pos += m;
	return (ssize_t)m;
}
REAL(ssize_t, read, int fd, void *buf, size_t n) { return FOS.on ? fos_read(fd, buf, n) : __real_read(fd, buf, n); }
REAL(ssize_t, write, int fd, const void *buf, size_t n) { return FOS.on ? fos_write(fd, buf, n) : __real_write(fd, buf, n); }
REAL(ssize_t, recv, int fd, void *buf, size_t n, int fl) { return FOS.on ? fos_read(fd, buf, n) : __real_recv(fd, buf, n, fl); }
REAL(ssize_t, send, int fd, const void *buf, size_t n, int fl) { return FOS.on ? fos_write(fd, buf, n) : __real_send(fd, buf, n, fl); }
static off_t fos_lseek(int fd, off_t off, int wh)
{
	fos::OS& o = FOS; fos::Fd *f = o.get(fd);
	if (!f) { if (fd >= 0) o.bad(mc::fmt("lseek on descriptor %d which is not open", fd)); return fos::err(EBADF); }
	if (f->kind != fos::FILE_ || !f->ino->seekable) return fos::err(ESPIPE);
	if (o.fMeta) { if (o.choose(2)) return fos::inj(EIO); }
	int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)f->pos : (int64_t)f->ino->data.size();
	if (b + off < 0) return fos::err(EINVAL);
	f->pos = b + off; return f->pos;
}
REAL(off_t, lseek, int fd, off_t off, int wh) { return FOS.on ? fos_lseek(fd, off, wh) : __real_lseek(fd, off, wh); }
REAL(off_t, lseek64, int fd, off_t off, int wh) { return FOS.on ? fos_lseek(fd, off, wh) : __real_lseek(fd, off, wh); }
static int fos_sync(int fd)
{
	fos::OS& o = FOS; fos::Fd *f = o.get(fd);
	if (!f) { if (fd >= 0) o.bad(mc::fmt("fsync on descriptor %d which is not open", fd)); return fos::err(EBADF); }
	if (f->kind != fos::FILE_ || !f->ino->syncable) return fos::err(EINVAL);
	if (o.fSync) { if (o.choose(2)) return fos::inj(EIO); }
	f->ino->durable = f->ino->data; return 0;
}
REAL(int, fsync, int fd) { if (!FOS.on) return __real_fsync(fd); int r = fos_sync(fd); if (r == 0) FOS.fullSyncs++; return r; }
REAL(int, fdatasync, int fd) { return FOS.on ? fos_sync(fd) : __real_fdatasync(fd); }
static int fos_fstat(int fd, struct stat *st)
{
	fos::OS& o = FOS; fos::Fd *f = o.get(fd);
	if (!f) { if (fd >= 0) o.bad(mc::fmt("fstat on descriptor %d which is not open", fd)); return fos::err(EBADF); }
	if (o.fMeta) { if (o.choose(2)) return fos::inj(EIO); }
	memset(st, 0, sizeof(*st));
	st->st_mode = f->kind == fos::FILE_ ? S_IFREG | 0644 : S_IFSOCK;
	st->st_size = f->kind == fos::FILE_ ? f->ino->data.size() : 0;
	return 0;
}
REAL(int, fstat, int fd, struct stat *st) { return FOS.on ? fos_fstat(fd, st) : __real_fstat(fd, st); }
REAL(int, fstat64, int fd, struct stat *st) { return FOS.on ? fos_fstat(fd, st) : __real_fstat(fd, st); }
static void *fos_mmap(size_t n, int fd)
{
	fos::OS& o = FOS; fos::Fd *f = o.get(fd);
	if (!f) { o.bad("mmap of a descriptor that is not open"); errno = EBADF; return MAP_FAILED; }
	if (n == 0) { errno = EINVAL; return MAP_FAILED; }
	if (o.fMeta) { if (o.choose(2)) { o.injected++; errno = ENOMEM; return MAP_FAILED; } }
	char *p = (char*)malloc(n); // exact size: reading beyond is reported
	memset(p, 0, n);
	memcpy(p, f->ino->data.data(), n < f->ino->data.size() ? n : f->ino->data.size());
	o.maps[p] = n; return p;
}
REAL(void*, mmap, void *a, size_t n, int pr, int fl, int fd, off_t off) { return FOS.on ? fos_mmap(n, fd) : __real_mmap(a, n, pr, fl, fd, off); }
REAL(void*, mmap64, void *a, size_t n, int pr, int fl, int fd, off_t off) { return FOS.on ? fos_mmap(n, fd) : __real_mmap(a, n, pr, fl, fd, off); }
REAL(int, munmap, void *p, size_t n)
{
	if (!FOS.on) return __real_munmap(p, n);
	fos::OS& o = FOS;
	if (!o.maps.count(p)) { o.bad("munmap of memory that is not mapped"); return fos::err(EINVAL); }
	if (o.maps[p] != n) o.bad(mc::fmt("munmap of %zu bytes of a mapping of %zu", n, o.maps[p]));
	o.maps.erase(p); free(p); return 0;
}
REAL(int, socket, int dom, int type, int proto)
{
	if (!FOS.on) return __real_socket(dom, type, proto);
	fos::OS& o = FOS;
	if (o.fSock && o.choose(2)) return fos::inj(EMFILE);
	int fd = o.alloc(fos::SOCK); o.fds[fd].family = dom;
	o.fds[fd].rx = o.rxTemplate; o.fds[fd].rxEof = o.rxTemplateEof;
	return fd;
}
REAL(int, connect, int fd, const struct sockaddr *a, socklen_t l)
{
	if (!FOS.on) return __real_connect(fd, a, l);
	fos::OS& o = FOS; fos::Fd *f = o.get(fd);
	if (!f || f->kind != fos::SOCK) { o.bad("connect on a descriptor that is not open"); return fos::err(EBADF); }
	f->addr.assign((const char*)a, l);
	if (f->nonblock) {
		int k = o.fConnErr ? o.choose(4) : 0; // in progress / refused / at once / interrupted
		if (k == 1) { f->conn = fos::CONNFAIL; return fos::inj(ECONNREFUSED); }
		if (k == 2) { f->conn = fos::CONNECTED; return 0; }
		if (k == 3) { f->conn = fos::CONNECTING; return fos::err(EINTR); }
		f->conn = fos::CONNECTING; return fos::err(EINPROGRESS);
	}
	int k = o.fConnErr ? o.choose(4) : 0;
	if (k == 1) { f->conn = fos::CONNFAIL; return fos::inj(ECONNREFUSED); }
	if (k == 2) { f->conn = fos::CONNECTING; return fos::err(EINTR); }
	if (k == 3) { f->conn = fos::CONNFAIL; return fos::inj(ETIMEDOUT); }
	f->conn = fos::CONNECTED; return 0;
}
REAL(int, bind, int fd, const struct sockaddr *a, socklen_t l)
{
	if (!FOS.on) { FOS.lastRealBind = fd; return __real_bind(fd, a, l); }
	fos::OS& o = FOS; fos::Fd *f = o.get(fd);
	if (!f || f->kind != fos::SOCK) { o.bad("bind on a descriptor that is not open"); return fos::err(EBADF); }
	if (a->sa_family != f->family) return fos::err(EAFNOSUPPORT);
	if (o.fSock && o.choose(2)) { o.bindFailed = true; return fos::inj(EADDRINUSE); }
	f->addr.assign((const char*)a, l); f->bound = true; return 0;
}
REAL(int, listen, int fd, int n)
{
	if (!FOS.on) return __real_listen(fd, n);
	fos::OS& o = FOS; fos::Fd *f = o.get(fd);
	if (!f || f->kind != fos::SOCK) { o.bad("listen on a descriptor that is not open"); return fos::err(EBADF); }
	if (o.fSock && o.choose(2)) { o.bindFailed = true; return fos::inj(EADDRINUSE); }
	f->conn = fos::LISTENING; return 0;
}
static int fos_accept(int fd, struct sockaddr *a, socklen_t *l)
{
	fos::OS& o = FOS; fos::Fd *f = o.get(fd);
	if (fd == -1) return fos::err(EBADF);
	if (!f || f->kind != fos::SOCK) { o.bad("accept on a descriptor that is not open"); return fos::err(EBADF); }
	if (f->conn != fos::LISTENING) return fos::err(EINVAL);
	if (o.fSock && o.choose(2)) return fos::inj(ECONNABORTED);
	int n = o.alloc(fos::SOCK); fos::Fd& c = o.fds[n]; c.conn = fos::CONNECTED; c.family = o.acceptFamily;
	c.rx = o.rxTemplate; c.rxEof = o.rxTemplateEof;
	if (a && l) {
		struct sockaddr_in6 s6; struct sockaddr_in s4; const void *src; socklen_t sl;
		memset(&s6, 0, sizeof s6); memset(&s4, 0, sizeof s4);
		if (!o.acceptPeer.empty()) { src = o.acceptPeer.data(); sl = (socklen_t)o.acceptPeer.size(); }
		else if (o.acceptFamily == AF_INET6) { s6.sin6_family = AF_INET6; s6.sin6_port = htons(4321); s6.sin6_addr.s6_addr[15] = 1; src = &s6; sl = sizeof s6; }
		else { s4.sin_family = AF_INET; s4.sin_port = htons(4321); s4.sin_addr.s_addr = htonl(0x7f000001); src = &s4; sl = sizeof s4; }
		memcpy(a, src, sl < *l ? sl : *l); *l = sl;
	}
	return n;
}
REAL(int, accept, int fd, struct sockaddr *a, socklen_t *l) { return FOS.on ? fos_accept(fd, a, l) : __real_accept(fd, a, l); }
REAL(int, accept4, int fd, struct sockaddr *a, socklen_t *l, int fl) { return FOS.on ? fos_accept(fd, a, l) : __real_accept4(fd, a, l, fl); }
// is the descriptor ready?  0: times out, 1: ready, -1: error
static int fos_ready(int fd, bool rd, bool wr)
{
	fos::OS& o = FOS; fos::Fd *f = o.get(fd);
	if (!f) { o.bad(mc::fmt("waiting on descriptor %d which is not open", fd)); return fos::err(EBADF); }
	o.selCalls++; o.lastSelRead = rd;
	bool canI = o.fEintr && o.eintrLeft > 0;
	int k = o.fConnErr ? o.choose(2 + (f->conn == fos::CONNECTING) + canI) : 0;
	if (k == 0) { if (f->conn == fos::CONNECTING && wr) f->conn = fos::CONNECTED; return 1; }
	if (k == 1) return 0;
	if (k == 2 && f->conn == fos::CONNECTING) { f->conn = fos::CONNFAIL; f->sockErr = o.connErr ? o.connErr : ECONNREFUSED; return 1; }
	o.eintrLeft--;
	return fos::err(EINTR);
}
REAL(int, select, int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
	if (!FOS.on) return __real_select(n, r, w, e, t);
	fos::OS& o = FOS;
	o.lastSec = t ? t->tv_sec : -1; o.lastUsec = t ? t->tv_usec : -1;
	if (t && (t->tv_usec < 0 || t->tv_usec >= 1000000 || t->tv_sec < 0)) return fos::err(EINVAL);
	int fd = -1; bool rd = false, wr = false; int cnt = 0;
	for (int i = 0; i < FD_SETSIZE; i++) {
		bool a = r && FD_ISSET(i, r), b = w && FD_ISSET(i, w);
		if (a || b) { cnt++; fd = i; rd = a; wr = b; if (i >= n) o.bad("select: nfds too small for the descriptor"); }
	}
	if (cnt != 1) { o.bad(mc::fmt("select on %d descriptors", cnt)); return fos::err(EINVAL); }
	int x = fos_ready(fd, rd, wr);
	if (x <= 0) { if (r) FD_ZERO(r); if (w) FD_ZERO(w); }
	return x;
}
REAL(int, poll, struct pollfd *p, nfds_t n, int ms)
{
	if (!FOS.on) return __real_poll(p, n, ms);
	fos::OS& o = FOS;
	o.lastSec = ms < 0 ? -1 : ms / 1000; o.lastUsec = ms < 0 ? -1 : ms % 1000 * 1000;
	if (n != 1) { o.bad("poll on several descriptors"); return fos::err(EINVAL); }
	int x = fos_ready(p->fd, p->events & POLLIN, p->events & POLLOUT);
	p->revents = x > 0 ? p->events : 0;
	return x;
}
static int fos_ioctl(int fd, unsigned long req, void *arg)
{
	fos::OS& o = FOS; fos::Fd *f = o.get(fd);
	if (!f) { o.bad("ioctl on a descriptor that is not open"); return fos::err(EBADF); }
	if (req == FIONBIO) { if (o.fSock && o.choose(2)) return fos::inj(EIO); f->nonblock = *(int*)arg != 0; return 0; }
	return fos::err(EINVAL);
}
int __wrap_ioctl(int fd, unsigned long req, ...) { va_list ap; va_start(ap, req); void *p = va_arg(ap, void*); va_end(ap); return FOS.on ? fos_ioctl(fd, req, p) : __real_ioctl(fd, req, p); }
static int fos_fcntl(int fd, int cmd, long arg)
{
	fos::OS& o = FOS; fos::Fd *f = o.get(fd);
	if (!f) { o.bad("fcntl on a descriptor that is not open"); return fos::err(EBADF); }
	if (cmd == F_GETFL) return f->nonblock ? O_NONBLOCK : 0;
	if (cmd == F_SETFL) { if (o.fSock && o.choose(2)) return fos::inj(EIO); f->nonblock = (arg & O_NONBLOCK) != 0; return 0; }
	if (cmd == F_GETFD || cmd == F_SETFD) return 0;
	return fos::err(EINVAL);
}
int __wrap_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long p = va_arg(ap, long); va_end(ap); return FOS.on ? fos_fcntl(fd, cmd, p) : __real_fcntl(fd, cmd, p); }
int __wrap_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long p = va_arg(ap, long); va_end(ap); return FOS.on ? fos_fcntl(fd, cmd, p) : __real_fcntl(fd, cmd, p); }
REAL(int, shutdown, int fd, int how)
{
	if (!FOS.on) return __real_shutdown(fd, how);
	fos::OS& o = FOS; fos::Fd *f = o.get(fd);
	if (!f || f->kind != fos::SOCK) return fos::err(EBADF);
	if (o.fSock && o.choose(2)) return fos::inj(ENOTCONN);
	if (how == SHUT_WR || how == SHUT_RDWR) f->shutWr = true;
	return 0;
}
REAL(int, setsockopt, int fd, int lv, int nm, const void *v, socklen_t l)
{
	if (!FOS.on) return __real_setsockopt(fd, lv, nm, v, l);
	fos::OS& o = FOS; fos::Fd *f = o.get(fd);
	if (!f || f->kind != fos::SOCK) return fos::err(EBADF);
	if (o.fSock && o.choose(2)) return fos::inj(EINVAL);
	size_t need = nm == SO_LINGER && lv == SOL_SOCKET ? sizeof(struct linger) : (nm == SO_RCVTIMEO || nm == SO_SNDTIMEO) && lv == SOL_SOCKET ? sizeof(struct timeval) : sizeof(int);
	if (l < need) return fos::err(EINVAL);
	if (need == sizeof(struct timeval) && lv == SOL_SOCKET && (nm == SO_RCVTIMEO || nm == SO_SNDTIMEO)) {
		const struct timeval *t = (const struct timeval*)v;
		if (t->tv_usec < 0 || t->tv_usec >= 1000000) return fos::err(EDOM);
	}
	f->opt[std::make_pair(lv, nm)].assign((const char*)v, need);
	return 0;
}
REAL(int, getsockopt, int fd, int lv, int nm, void *v, socklen_t *l)
{
	if (!FOS.on) return __real_getsockopt(fd, lv, nm, v, l);
	fos::OS& o = FOS; fos::Fd *f = o.get(fd);
	if (!f || f->kind != fos::SOCK) return fos::err(EBADF);
	if (o.fSock && o.choose(2)) return fos::inj(EINVAL);
	if (lv == SOL_SOCKET && nm == SO_ERROR) { int e = f->sockErr; f->sockErr = 0; memcpy(v, &e, sizeof e < *l ? sizeof e : *l); if (*l > sizeof e) *l = sizeof e; return 0; }
	fos::Str s = f->opt[std::make_pair(lv, nm)];
	if (s.empty()) s.assign(sizeof(int), 0);
	size_t n = s.size() < *l ? s.size() : *l;
	memcpy(v, s.data(), n); *l = n; return 0;
}
} // extern C
