#include <signal.h>
#include "io.h"
#include <errno.h>
#include <ucontext.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <queue>
#include <memory>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

Sim g_sim;
NetCfg g_net;

// ================================================================ event queue and coroutines
struct SimEvent { int64_t at; uint64_t seq; std::function<void()> fn; };
struct EvCmp { bool operator()(SimEvent* a, SimEvent* b) const { return a->at > b->at || (a->at == b->at && a->seq > b->seq); } };
static std::vector<SimEvent*> g_events;
static uint64_t g_evSeq;

void sim_after(int64_t us, std::function<void()> fn)
{
	SimEvent* e = new SimEvent; e->at = g_sim.monoUs + us; e->seq = g_evSeq++; e->fn = fn;
	g_events.push_back(e);
	std::push_heap(g_events.begin(), g_events.end(), EvCmp());
}
static int64_t nextEventAt() { return g_events.empty() ? -1 : g_events.front()->at; }
static void advanceTo(int64_t t)
{
	if (t > g_sim.monoUs) { g_sim.wallUs += t - g_sim.monoUs; g_sim.monoUs = t; }
}
static bool runOneEvent()
{
	if (g_events.empty()) return false;
	std::pop_heap(g_events.begin(), g_events.end(), EvCmp());
	SimEvent* e = g_events.back(); g_events.pop_back();
	advanceTo(e->at);
	e->fn();
	delete e;
	return true;
}

struct Co
{
	ucontext_t uc;
	char* stack;
	CoFn fn;
	const char* name;
	bool done, started;
	std::function<bool()>* cond; int64_t deadline;
};
enum { CO_STACK = 1 << 19 };
static std::vector<Co*> g_cos;
static Co* g_co = 0;
static ucontext_t g_mainUc;
static const void* g_mainStack; static size_t g_mainStackSize;

static void coEntry()
{
	__sanitizer_finish_switch_fiber(0, &g_mainStack, &g_mainStackSize);
	Co* c = g_co;
	c->fn();
	c->done = true;
	__sanitizer_start_switch_fiber(0, g_mainStack, g_mainStackSize);
	swapcontext(&c->uc, &g_mainUc);
	abort();
}
int co_spawn(CoFn fn, const char* name)
{
	Co* c = new Co; c->stack = (char*)malloc(CO_STACK); c->fn = fn; c->name = name; c->done = c->started = false; c->cond = 0; c->deadline = -1;
	getcontext(&c->uc);
	c->uc.uc_stack.ss_sp = c->stack; c->uc.uc_stack.ss_size = CO_STACK; c->uc.uc_link = 0;
	makecontext(&c->uc, coEntry, 0);
	g_cos.push_back(c);
	return (int)g_cos.size() - 1;
}
int co_current() { for (size_t i = 0; i < g_cos.size(); ++i) if (g_cos[i] == g_co) return (int)i; return -1; }
static void coResume(Co* c)
{
	g_co = c;
	void* fake = 0;
	__sanitizer_start_switch_fiber(&fake, c->stack, CO_STACK);
	swapcontext(&g_mainUc, &c->uc);
	__sanitizer_finish_switch_fiber(fake, 0, 0);
	g_co = 0;
}
static void coSwitchOut(Co* c)
{
	void* fake = 0;
	__sanitizer_start_switch_fiber(&fake, g_mainStack, g_mainStackSize);
	swapcontext(&c->uc, &g_mainUc);
	__sanitizer_finish_switch_fiber(fake, &g_mainStack, &g_mainStackSize);
}
bool sim_wait(std::function<bool()> cond, int64_t deadline)
{
	if (cond()) { if (!g_co) return true; }
	if (g_co)
	{
		Co* c = g_co;
		c->cond = &cond; c->deadline = deadline;
		coSwitchOut(c);
		c->cond = 0;
		return cond();
	}
	for (int guard = 0; guard < 100000; ++guard)
	{
		if (cond()) return true;
		int64_t n = nextEventAt();
		if (n >= 0 && (deadline < 0 || n <= deadline)) { runOneEvent(); continue; }
		if (deadline >= 0) advanceTo(deadline);
		return cond();
	}
	return false;
}
void co_pause() { if (g_co) sim_wait([] { return true; }, -1); }
bool co_allDone() { for (size_t i = 0; i < g_cos.size(); ++i) if (!g_cos[i]->done) return false; return true; }
std::string co_describe() { std::string s; for (size_t i = 0; i < g_cos.size(); ++i) s += sfmt("%s:%s ", g_cos[i]->name, g_cos[i]->done ? "done" : g_cos[i]->cond ? "blocked" : "ready"); return s; }
void co_runAll(uint64_t maxSwitches)
{
	for (uint64_t n = 0; n < maxSwitches; ++n)
	{
		std::vector<Co*> ready;
		for (size_t i = 0; i < g_cos.size(); ++i)
		{
			Co* c = g_cos[i];
			if (c->done) continue;
			if (!c->cond || (*c->cond)() || (c->deadline >= 0 && c->deadline <= g_sim.monoUs)) ready.push_back(c);
		}
		int64_t ne = nextEventAt();
		// deliver an event now, or let a process run
		bool evNow = ne >= 0 && ne <= g_sim.monoUs;
		uint32_t options = (uint32_t)ready.size() + (evNow ? 1 : 0);
		if (options)
		{
			uint32_t k = options > 1 ? ch(options) : 0;
			if (k < ready.size()) { sched("run %s", ready[k]->name); coResume(ready[k]); }
			else { sched("deliver"); runOneEvent(); }
			continue;
		}
		// nothing runnable: jump to the next deadline or event
		int64_t t = ne;
		for (size_t i = 0; i < g_cos.size(); ++i) if (!g_cos[i]->done && g_cos[i]->cond && g_cos[i]->deadline >= 0 && (t < 0 || g_cos[i]->deadline < t)) t = g_cos[i]->deadline;
		if (t < 0) return;
		advanceTo(t);
	}
}
void co_reset()
{
	for (size_t i = 0; i < g_cos.size(); ++i) { free(g_cos[i]->stack); delete g_cos[i]; }
	g_cos.clear(); g_co = 0;
	for (size_t i = 0; i < g_events.size(); ++i) delete g_events[i];
	g_events.clear(); g_evSeq = 0;
}

// ================================================================ descriptors
struct Conn;
enum FdKind { FD_FREE = 0, FD_FILE, FD_SOCK, FD_LISTEN, FD_CONN };
struct Fd
{
	FdKind kind; Inode* ino; int64_t off; int flags; Conn* conn; int side; int port; bool bound;
	std::vector<Conn*> backlog; int64_t rcvTimeoUs; bool nonblock; bool viaStdio, wrote;
	Fd() : kind(FD_FREE), ino(0), off(0), flags(0), conn(0), side(0), port(0), bound(false), rcvTimeoUs(0), nonblock(false), viaStdio(false), wrote(false) {}
};
struct Dir                   // one direction of a connection
{
	std::string inflight;    // sent, not yet delivered
	std::string avail;       // delivered, not yet read
	bool fin, finDelivered, scheduled;
	uint64_t sent, received;
	Dir() : fin(false), finDelivered(false), scheduled(false), sent(0), received(0) {}
};
struct Conn { Dir d[2]; bool reset; bool closed[2]; bool accepted; int id; Conn() : reset(false), accepted(false), id(0) { closed[0] = closed[1] = false; } };

enum { FD_BASE = 10000 };
static std::vector<Fd> g_fds;
static std::vector<Conn*> g_conns;
static FILE* g_simStdin = 0;

static int newFd(FdKind k)
{
	// the lowest free descriptor is reused, as a kernel does
	for (size_t i = 0; i < g_fds.size(); ++i) if (g_fds[i].kind == FD_FREE) { g_fds[i] = Fd(); g_fds[i].kind = k; ++g_sim.openFds; return FD_BASE + (int)i; }
	g_fds.push_back(Fd()); g_fds.back().kind = k; ++g_sim.openFds;
	return FD_BASE + (int)g_fds.size() - 1;
}
static Fd* getFd(int fd)
{
	if (fd < FD_BASE || fd >= FD_BASE + (int)g_fds.size()) return 0;
	Fd* f = &g_fds[fd - FD_BASE];
	return f->kind == FD_FREE ? 0 : f;
}
static int g_ai = 0;
int sim_addrInfos() { return g_ai; }
int sim_openDescriptors() { return g_sim.openFds; }
bool g_netDown = false;
FdInfo sim_fd(int fd)
{
	FdInfo r; memset((void*)&r, 0, sizeof(r)); r.connId = -1;
	Fd* f = getFd(fd);
	if (!f) return r;
	r.open = true; r.file = f->kind == FD_FILE; r.ino = f->ino; r.off = f->off; r.conn = f->kind == FD_CONN; r.listening = f->kind == FD_LISTEN; r.port = f->port;
	int m = f->flags & O_ACCMODE; r.readable = m != O_WRONLY; r.writable = m != O_RDONLY; r.append = (f->flags & O_APPEND) != 0;
	if (f->conn) { Dir& d = f->conn->d[1 - f->side]; r.connId = f->conn->id; r.side = f->side; r.peerGone = f->conn->closed[1 - f->side]; r.reset = f->conn->reset; r.avail = d.avail.size(); r.fin = d.finDelivered; }
	return r;
}
void sim_netDown() { g_netDown = true; for (size_t i = 0; i < g_conns.size(); ++i) g_conns[i]->reset = true; sched("fault: network down"); }
std::string sim_describeDescriptors()
{
	std::string s;
	for (size_t i = 0; i < g_fds.size(); ++i) if (g_fds[i].kind != FD_FREE) s += sfmt("fd%d(kind %d%s) ", (int)i, g_fds[i].kind, g_fds[i].viaStdio ? ", stdio" : "");
	return s;
}

void simio_activate()
{
	co_reset();
	for (size_t i = 0; i < g_sim.inodes.size(); ++i) delete g_sim.inodes[i];
	for (size_t i = 0; i < g_conns.size(); ++i) delete g_conns[i];
	g_conns.clear(); g_fds.clear();
	g_sim.files.clear(); g_sim.inodes.clear(); g_sim.rec.clear();
	g_sim.stdinData.clear(); g_sim.stdinPos = 0; g_sim.stdinErr = false;
	g_sim.wallUs = 1700000000ll * 1000000; g_sim.monoUs = 5000ll * 1000000; g_sim.clockReads = 0; g_sim.autoAdvanceUs = 0;
	g_sim.openFds = 0; g_ai = 0; g_sim.sigpipe = 0; g_sim.faults = 0;
	g_sim.io = IoCfg(); g_net = NetCfg();
	g_sim.active = true; g_netDown = false;
}
void simio_deactivate()
{
	if (!g_sim.active) return;
	g_sim.active = false;
	if (g_simStdin) { fclose(g_simStdin); g_simStdin = 0; }
}

Inode* simfs_create(std::string const& path, std::string const& data)
{
	Inode* n = new Inode; n->data = data; n->id = (int)g_sim.inodes.size(); n->links = 1;
	g_sim.inodes.push_back(n);
	g_sim.files[path] = n;
	return n;
}
Inode* simfs_find(std::string const& path)
{
	std::map<std::string, Inode*>::iterator i = g_sim.files.find(path);
	return i == g_sim.files.end() ? 0 : i->second;
}

static SysRec& record(const char* op, int fd, long ret, int err, bool inj, const char* path = 0)
{
	SysRec r; r.actor = co_current(); r.op = op; r.fd = fd; r.ret = ret; r.err = err; r.injected = inj; r.peek = false; if (path) r.path = path;
	g_sim.rec.push_back(r);
	if (inj) { ++g_sim.faults; sched("fault %s fd=%d ret=%ld err=%d", op, fd, ret, err); }
	else ev("sys %s fd=%d ret=%ld err=%d", op, fd, ret, err);
	if (ret < 0) errno = err;
	return g_sim.rec.back();
}
static bool roll(uint32_t pct) { return pct && ch(100) >= 100 - pct; }

// ================================================================ files
static int doOpen(const char* path, int flags, bool stdio)
{
	if (!path) { record("open", -1, -1, EFAULT, false); return -1; }
	if (g_sim.io.openFail && roll(g_sim.io.faultPct))
	{
		static const int e[] = { EACCES, EMFILE, EIO, ENOMEM, EINTR };
		int k = e[ch(5)];
		COUNT("fault.open_fails");
		record("open", -1, -1, k, true, path);
		return -1;
	}
	Inode* n = simfs_find(path);
	if (!n && !(flags & O_CREAT)) { record("open", -1, -1, ENOENT, false, path); return -1; }
	if (!*path) { record("open", -1, -1, ENOENT, false, path); return -1; }
	if (n && (flags & O_CREAT) && (flags & O_EXCL)) { record("open", -1, -1, EEXIST, false, path); return -1; }
	if (!n)
	{
		if (g_sim.io.enospc && g_sim.io.diskLeft == 0) { COUNT("fault.disk_full_open"); record("open", -1, -1, ENOSPC, true, path); return -1; }
		n = simfs_create(path, "");
	}
	if (flags & O_TRUNC) { if (g_sim.io.diskLeft >= 0) g_sim.io.diskLeft += (long)n->data.size(); n->data.clear(); }
	int fd = newFd(FD_FILE);
	Fd* f = getFd(fd); f->ino = n; f->flags = flags; f->off = 0; f->viaStdio = stdio;
	record("open", fd, fd, 0, false, path);
	return fd;
}
static long doRead(int fd, void* buf, size_t n)
{
	Fd* f = getFd(fd);
	if (!f || f->kind != FD_FILE) { record("read", fd, -1, EBADF, false); return -1; }
	if ((f->flags & O_ACCMODE) == O_WRONLY) { record("read", fd, -1, EBADF, false); return -1; }
	if (g_sim.io.eio && roll(g_sim.io.faultPct)) { COUNT("fault.read_eio"); record("read", fd, -1, EIO, true); return -1; }
	if (g_sim.io.eintr && !f->viaStdio && roll(g_sim.io.faultPct)) { COUNT("fault.read_eintr"); record("read", fd, -1, EINTR, true); return -1; }
	int64_t left = (int64_t)f->ino->data.size() - f->off;
	size_t k = left <= 0 ? 0 : (size_t)std::min<int64_t>(left, (int64_t)n);
	bool inj = false;
	if (g_sim.io.shortIo && k > 1 && roll(g_sim.io.faultPct)) { k = 1 + ch((uint32_t)k - 1); inj = true; COUNT("fault.short_read"); }
	memcpy(buf, f->ino->data.data() + (k ? f->off : 0), k);
	f->off += k;
	record("read", fd, (long)k, 0, inj).data.assign((char*)buf, k);
	return (long)k;
}
static long doWrite(int fd, const void* buf, size_t n)
{
	Fd* f = getFd(fd);
	if (!f || f->kind != FD_FILE) { record("write", fd, -1, EBADF, false); return -1; }
	if ((f->flags & O_ACCMODE) == O_RDONLY) { record("write", fd, -1, EBADF, false); return -1; }
	if (g_sim.io.eio && roll(g_sim.io.faultPct)) { COUNT("fault.write_eio"); record("write", fd, -1, EIO, true); return -1; }
	if (g_sim.io.eintr && !f->viaStdio && roll(g_sim.io.faultPct)) { COUNT("fault.write_eintr"); record("write", fd, -1, EINTR, true); return -1; }
	if (f->flags & O_APPEND) f->off = (int64_t)f->ino->data.size();
	size_t k = n; bool inj = false;
	if (g_sim.io.shortIo && k > 1 && roll(g_sim.io.faultPct)) { k = 1 + ch((uint32_t)k - 1); inj = true; COUNT("fault.short_write"); }
	if (g_sim.io.enospc && g_sim.io.diskLeft >= 0)
	{
		int64_t grow = f->off + (int64_t)k - (int64_t)f->ino->data.size();
		if (grow > g_sim.io.diskLeft)
		{
			int64_t fit = (int64_t)k - (grow - g_sim.io.diskLeft);
			COUNT("fault.disk_full");
			if (fit <= 0) { record("write", fd, -1, ENOSPC, true); return -1; }
			k = (size_t)fit; inj = true;
		}
	}
	if (k && f->off + (int64_t)k > (int64_t)f->ino->data.size())
	{
		if (g_sim.io.diskLeft >= 0) g_sim.io.diskLeft -= f->off + (int64_t)k - (int64_t)f->ino->data.size();
		f->ino->data.resize((size_t)(f->off + k), '\0');
	}
	if (k) memcpy(&f->ino->data[0] + f->off, buf, k);
	f->off += k; f->wrote = true;
	record("write", fd, (long)k, 0, inj).data.assign((const char*)buf, k);
	return (long)k;
}
static int64_t doSeek(int fd, int64_t off, int whence)
{
	Fd* f = getFd(fd);
	if (!f) { record("lseek", fd, -1, EBADF, false); return -1; }
	if (f->kind != FD_FILE) { record("lseek", fd, -1, ESPIPE, false); return -1; }
	int64_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? f->off : whence == SEEK_END ? (int64_t)f->ino->data.size() : -1;
	if ((whence != SEEK_SET && whence != SEEK_CUR && whence != SEEK_END) || b + off < 0) { record("lseek", fd, -1, EINVAL, false); return -1; }
	f->off = b + off;
	record("lseek", fd, (long)f->off, 0, false);
	return f->off;
}
static void closeConnSide(Conn* c, int side);
static int doClose(int fd)
{
	Fd* f = getFd(fd);
	if (!f) { record("close", fd, -1, EBADF, false); return -1; }
	if (f->kind == FD_CONN && f->conn) closeConnSide(f->conn, f->side);
	if (f->kind == FD_LISTEN) for (size_t i = 0; i < f->backlog.size(); ++i) closeConnSide(f->backlog[i], 1);
	bool file = f->kind == FD_FILE; Inode* ino = f->ino; bool wrote = f->wrote;
	*f = Fd();
	--g_sim.openFds;
	if (file && g_sim.io.closeFail && roll(g_sim.io.faultPct)) { COUNT("fault.close_eio"); if (wrote && ino->data.size()) ino->data.resize(ch((uint32_t)ino->data.size())); /* writes behind were lost */ record("close", fd, -1, EIO, true); return -1; }
	record("close", fd, 0, 0, false);
	return 0;
}

static ssize_t ckRead(void* c, char* buf, size_t n) { return doRead((int)(intptr_t)c, buf, n); }
static ssize_t ckWrite(void* c, const char* buf, size_t n) 
{
	// as the C library does for a descriptor: short writes are continued, a failing one ends it
	size_t done = 0;
	while (done < n) { long r = doWrite((int)(intptr_t)c, buf + done, n - done); if (r <= 0) break; done += (size_t)r; }
	return (ssize_t)done;
}
static int ckSeek(void* c, off64_t* o, int wh) { int64_t r = doSeek((int)(intptr_t)c, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ckClose(void* c) { return doClose((int)(intptr_t)c); }

extern "C" {
FILE* __real_fopen(const char*, const char*);
FILE* __wrap_fopen(const char* path, const char* mode)
{
	if (!g_sim.active) return __real_fopen(path, mode);
	int fl = 0;
	bool plus = strchr(mode, '+') != 0;
	if (*mode == 'r') fl = plus ? O_RDWR : O_RDONLY;
	else if (*mode == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
	else if (*mode == 'a') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
	int fd = doOpen(path, fl, true);
	if (fd < 0) return 0;
	cookie_io_functions_t io = { ckRead, ckWrite, ckSeek, ckClose };
	return fopencookie((void*)(intptr_t)fd, mode, io);
}
FILE* __wrap_fopen64(const char* path, const char* mode) { return __wrap_fopen(path, mode); }

int __real_open(const char*, int, ...);
int __wrap_open(const char* path, int flags, ...)
{
	mode_t m = 0;
	if (flags & O_CREAT) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); }
	if (!g_sim.active) return __real_open(path, flags, m);
	return doOpen(path, flags, false);
}
int __wrap_open64(const char* path, int flags, ...)
{
	mode_t m = 0;
	if (flags & O_CREAT) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); }
	if (!g_sim.active) return __real_open(path, flags, m);
	return doOpen(path, flags, false);
}
int __wrap_openat(int dir, const char* path, int flags, ...)
{
	mode_t m = 0;
	if (flags & O_CREAT) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); }
	if (!g_sim.active) return __real_open(path, flags, m);
	return doOpen(path, flags, false);
}
static long netRecv(int fd, void* buf, size_t n, int flags);
static long netSend(int fd, const void* buf, size_t n, int flags);
ssize_t __real_read(int, void*, size_t);
ssize_t __wrap_read(int fd, void* b, size_t n)
{
	if (!g_sim.active) return __real_read(fd, b, n);
	Fd* f = getFd(fd);
	if (f && f->kind != FD_FILE) return netRecv(fd, b, n, 0);
	return doRead(fd, b, n);
}
ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_write(int fd, const void* b, size_t n)
{
	if (!g_sim.active) return __real_write(fd, b, n);
	Fd* f = getFd(fd);
	if (f && f->kind != FD_FILE) return netSend(fd, b, n, 0);
	return doWrite(fd, b, n);
}
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o)
{
	if (!g_sim.active) return __real_pread(fd, b, n, o);
	Fd* f = getFd(fd); if (!f || f->kind != FD_FILE) { record("read", fd, -1, EBADF, false); return -1; }
	int64_t keep = f->off; f->off = o; long r = doRead(fd, b, n); f = getFd(fd); if (f) f->off = keep; return r;
}
ssize_t __real_pwrite(int, const void*, size_t, off_t);
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o)
{
	if (!g_sim.active) return __real_pwrite(fd, b, n, o);
	Fd* f = getFd(fd); if (!f || f->kind != FD_FILE) { record("write", fd, -1, EBADF, false); return -1; }
	int64_t keep = f->off; f->off = o; long r = doWrite(fd, b, n); f = getFd(fd); if (f) f->off = keep; return r;
}
off_t __real_lseek(int, off_t, int);
off_t __wrap_lseek(int fd, off_t o, int w) { return g_sim.active ? (off_t)doSeek(fd, o, w) : __real_lseek(fd, o, w); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return g_sim.active ? (off_t)doSeek(fd, o, w) : __real_lseek(fd, o, w); }
int __real_close(int);
int __wrap_close(int fd) { return g_sim.active ? doClose(fd) : __real_close(fd); }
static int doSync(int fd)
{
	Fd* f = getFd(fd);
	if (!f) { record("fsync", fd, -1, EBADF, false); return -1; }
	if (f->kind != FD_FILE) { record("fsync", fd, -1, EINVAL, false); return -1; }
	if (g_sim.io.eio && roll(g_sim.io.faultPct)) { COUNT("fault.fsync_eio"); record("fsync", fd, -1, EIO, true); return -1; }
	record("fsync", fd, 0, 0, false);
	return 0;
}
int __real_fsync(int);
int __wrap_fsync(int fd) { return g_sim.active ? doSync(fd) : __real_fsync(fd); }
int __real_fdatasync(int);
int __wrap_fdatasync(int fd) { return g_sim.active ? doSync(fd) : __real_fdatasync(fd); }
static int fillStat(Inode* n, struct stat* st)
{
	memset(st, 0, sizeof(*st));
	st->st_mode = S_IFREG | 0644; st->st_size = (off_t)n->data.size(); st->st_ino = n->id + 1; st->st_nlink = n->links; st->st_blksize = 4096;
	return 0;
}
static int doStat(const char* p, struct stat* st)
{
	if (g_sim.io.statFail && roll(g_sim.io.faultPct)) { COUNT("fault.stat_fails"); record("stat", -1, -1, EIO, true, p); return -1; }
	Inode* n = p ? simfs_find(p) : 0;
	if (!n) { record("stat", -1, -1, ENOENT, false, p); return -1; }
	fillStat(n, st);
	record("stat", -1, 0, 0, false, p);
	if (g_sim.io.toctou && roll(g_sim.io.faultPct * 2))
	{
		// another process changes the file between the stat and the open
		COUNT("fault.file_changed_under_us"); ++g_sim.faults;
		switch (ch(3))
		{
			case 0: n->data.resize(n->data.size() / 2); sched("fault: file %s shrinks to %d", p, (int)n->data.size()); break;
			case 1: n->data += "grown-by-another-process"; sched("fault: file %s grows to %d", p, (int)n->data.size()); break;
			case 2: g_sim.files.erase(p); sched("fault: file %s is removed", p); break;
		}
	}
	return 0;
}
int __real_stat(const char*, struct stat*);
int __wrap_stat(const char* p, struct stat* st) { return g_sim.active ? doStat(p, st) : __real_stat(p, st); }
int __wrap_stat64(const char* p, struct stat* st) { return g_sim.active ? doStat(p, st) : __real_stat(p, st); }
int __wrap_lstat(const char* p, struct stat* st) { return g_sim.active ? doStat(p, st) : __real_stat(p, st); }
int __real_fstat(int, struct stat*);
int __wrap_fstat(int fd, struct stat* st)
{
	if (!g_sim.active) return __real_fstat(fd, st);
	Fd* f = getFd(fd);
	if (!f || f->kind != FD_FILE) { record("fstat", fd, -1, EBADF, false); return -1; }
	fillStat(f->ino, st); record("fstat", fd, 0, 0, false); return 0;
}
static int doUnlink(const char* p)
{
	if (g_sim.io.openFail && roll(g_sim.io.faultPct)) { COUNT("fault.unlink_fails"); record("unlink", -1, -1, EACCES, true, p); return -1; }
	if (!p || !simfs_find(p)) { record("unlink", -1, -1, ENOENT, false, p); return -1; }
	g_sim.files.erase(p);
	record("unlink", -1, 0, 0, false, p);
	return 0;
}
int __real_unlink(const char*);
int __wrap_unlink(const char* p) { return g_sim.active ? doUnlink(p) : __real_unlink(p); }
int __real_remove(const char*);
int __wrap_remove(const char* p) { return g_sim.active ? doUnlink(p) : __real_remove(p); }
int __real_rename(const char*, const char*);
int __wrap_rename(const char* a, const char* b)
{
	if (!g_sim.active) return __real_rename(a, b);
	Inode* n = simfs_find(a);
	if (!n) { record("rename", -1, -1, ENOENT, false, a); return -1; }
	g_sim.files[b] = n; g_sim.files.erase(a);
	record("rename", -1, 0, 0, false, a);
	return 0;
}
int __real_access(const char*, int);
int __wrap_access(const char* p, int m)
{
	if (!g_sim.active) return __real_access(p, m);
	bool ok = p && simfs_find(p);
	record("access", -1, ok ? 0 : -1, ENOENT, false, p);
	return ok ? 0 : -1;
}
int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int fd, off_t n)
{
	if (!g_sim.active) return __real_ftruncate(fd, n);
	Fd* f = getFd(fd);
	if (!f || f->kind != FD_FILE) { record("ftruncate", fd, -1, EBADF, false); return -1; }
	f->ino->data.resize(n); record("ftruncate", fd, 0, 0, false); return 0;
}

// ---------------------------------------------------------------- stdin
static ssize_t siRead(void*, char* buf, size_t n)
{
	size_t left = g_sim.stdinData.size() - g_sim.stdinPos;
	if (g_sim.stdinErr && !left) { errno = EIO; return -1; }
	if (n > left) n = left;
	if (g_sim.io.shortIo && n > 1 && roll(g_sim.io.faultPct)) { n = 1 + ch((uint32_t)n - 1); COUNT("fault.short_stdin"); }
	memcpy(buf, g_sim.stdinData.data() + g_sim.stdinPos, n);
	g_sim.stdinPos += n;
	return (ssize_t)n;
}
static FILE* swapStdin(FILE* f)
{
	if (!g_sim.active || f != stdin) return f;
	if (!g_simStdin) { cookie_io_functions_t io = { siRead, 0, 0, 0 }; g_simStdin = fopencookie(0, "r", io); setvbuf(g_simStdin, 0, _IONBF, 0); }
	return g_simStdin;
}
int __real_fgetc(FILE*); int __real_getc(FILE*); char* __real_fgets(char*, int, FILE*);
int __wrap_fgetc(FILE* f) { return __real_fgetc(swapStdin(f)); }
int __wrap_getc(FILE* f) { return __real_fgetc(swapStdin(f)); }
int __wrap_getchar() { return __real_fgetc(swapStdin(stdin)); }
char* __wrap_fgets(char* b, int n, FILE* f) { return __real_fgets(b, n, swapStdin(f)); }

// ---------------------------------------------------------------- clocks
static void clockRead() { ++g_sim.clockReads; if (g_sim.autoAdvanceUs) advanceTo(g_sim.monoUs + g_sim.autoAdvanceUs); }
time_t __real_time(time_t*);
time_t __wrap_time(time_t* t)
{
	if (!g_sim.active) return __real_time(t);
	clockRead();
	time_t v = (time_t)(g_sim.wallUs / 1000000);
	if (t) *t = v;
	return v;
}
int __real_gettimeofday(struct timeval*, void*);
int __wrap_gettimeofday(struct timeval* tv, void* tz)
{
	if (!g_sim.active) return __real_gettimeofday(tv, tz);
	clockRead();
	tv->tv_sec = g_sim.wallUs / 1000000; tv->tv_usec = g_sim.wallUs % 1000000;
	return 0;
}
int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_clock_gettime(clockid_t id, struct timespec* ts)
{
	if (!g_sim.active) return __real_clock_gettime(id, ts);
	clockRead();
	int64_t v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) ? g_sim.wallUs : g_sim.monoUs;
	ts->tv_sec = v / 1000000; ts->tv_nsec = (v % 1000000) * 1000;
	return 0;
}
static void simSleep(int64_t us) { int64_t until = g_sim.monoUs + us; sim_wait([until] { return g_sim.monoUs >= until; }, until); }
int __real_usleep(useconds_t);
int __wrap_usleep(useconds_t u) { if (!g_sim.active) return __real_usleep(u); simSleep(u); return 0; }
int __real_nanosleep(const struct timespec*, struct timespec*);
int __wrap_nanosleep(const struct timespec* t, struct timespec* r) { if (!g_sim.active) return __real_nanosleep(t, r); simSleep(t->tv_sec * 1000000ll + t->tv_nsec / 1000); return 0; }
unsigned __real_sleep(unsigned);
unsigned __wrap_sleep(unsigned s) { if (!g_sim.active) return __real_sleep(s); simSleep(s * 1000000ll); return 0; }

typedef void (*sighandler_t2)(int);
sighandler_t2 __real_signal(int, sighandler_t2);
sighandler_t2 __wrap_signal(int s, sighandler_t2 h)
{
	if (!g_sim.active) return __real_signal(s, h);
	if (s == SIGPIPE) g_sim.sigpipe = h == SIG_IGN;
	return SIG_DFL;
}

// ================================================================ network
static std::map<int, int> g_dummy;
static Fd* listenerOn(int port) { for (size_t i = 0; i < g_fds.size(); ++i) if (g_fds[i].kind == FD_LISTEN && g_fds[i].port == port) return &g_fds[i]; return 0; }
}
static int64_t latency() { return g_net.delay ? (int64_t)ch(50) * 1000 : 0; }
static void pump(Conn* c, int dir);
static void deliver(Conn* c, int dir)
{
	Dir& d = c->d[dir];
	d.scheduled = false;
	if (c->reset) return;
	size_t n = std::min<size_t>(d.inflight.size(), g_net.maxSegment);
	if (n > 1 && g_net.maxSegment < (1u << 20)) n = 1 + ch((uint32_t)n);
	if (n > d.inflight.size()) n = d.inflight.size();
	d.avail.append(d.inflight, 0, n); d.inflight.erase(0, n);
	if (n) sched("deliver conn%d.%d %d bytes", c->id, dir, (int)n);
	if (d.inflight.empty() && d.fin && !d.finDelivered) { d.finDelivered = true; sched("deliver conn%d.%d fin", c->id, dir); }
	pump(c, dir);
}
static void pump(Conn* c, int dir)
{
	Dir& d = c->d[dir];
	if (d.scheduled || c->reset) return;
	if (d.inflight.empty() && (!d.fin || d.finDelivered)) return;
	d.scheduled = true;
	sim_after(latency(), [c, dir] { deliver(c, dir); });
}
static void closeConnSide(Conn* c, int side)
{
	if (c->closed[side]) return;
	c->closed[side] = true;
	// unread data at close makes a kernel reset the connection
	if (!c->d[1 - side].avail.empty() && !c->closed[1 - side]) { c->reset = true; COUNT("net.reset_by_close"); }
	c->d[side].fin = true;
	pump(c, side);
}
extern "C" {
int __real_socket(int, int, int);
int __wrap_socket(int d, int t, int p)
{
	if (!g_sim.active) return __real_socket(d, t, p);
	if (g_net.socketFail && roll(g_net.faultPct)) { COUNT("fault.socket_fails"); record("socket", -1, -1, EMFILE, true); return -1; }
	int fd = newFd(FD_SOCK);
	if (t & SOCK_NONBLOCK) getFd(fd)->nonblock = true;
	record("socket", fd, fd, 0, false);
	return fd;
}
int __real_bind(int, const struct sockaddr*, socklen_t);
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t n)
{
	if (!g_sim.active) return __real_bind(fd, a, n);
	Fd* f = getFd(fd);
	if (!f || f->kind != FD_SOCK) { record("bind", fd, -1, EBADF, false); return -1; }
	int port = ntohs(((const struct sockaddr_in*)a)->sin_port);
	if (g_net.bindFail && roll(g_net.faultPct)) { COUNT("fault.bind_fails"); record("bind", fd, -1, EADDRINUSE, true); return -1; }
	if (listenerOn(port)) { record("bind", fd, -1, EADDRINUSE, false); return -1; }
	f->bound = true; f->port = port;
	record("bind", fd, 0, 0, false);
	return 0;
}
int __real_listen(int, int);
int __wrap_listen(int fd, int n)
{
	if (!g_sim.active) return __real_listen(fd, n);
	Fd* f = getFd(fd);
	if (!f || f->kind != FD_SOCK) { record("listen", fd, -1, EBADF, false); return -1; }
	if (g_net.bindFail && roll(g_net.faultPct)) { COUNT("fault.listen_fails"); record("listen", fd, -1, EADDRINUSE, true); return -1; }
	f->kind = FD_LISTEN;
	record("listen", fd, 0, 0, false);
	return 0;
}
static int doAccept(int fd)
{
	Fd* f = getFd(fd);
	if (!f) { record("accept", fd, -1, EBADF, false); return -1; }
	if (f->kind != FD_LISTEN) { record("accept", fd, -1, EINVAL, false); return -1; }
	if (g_net.acceptFail && roll(g_net.faultPct)) { COUNT("fault.accept_fails"); static const int e[] = { ECONNABORTED, EMFILE, EINTR }; int k = e[ch(3)]; record("accept", fd, -1, k, true); return -1; }
	if (f->nonblock && f->backlog.empty()) { record("accept", fd, -1, EAGAIN, false); return -1; }
	int64_t dl = f->rcvTimeoUs ? g_sim.monoUs + f->rcvTimeoUs : -1;
	bool ok = sim_wait([fd] { Fd* q = getFd(fd); return !q || !q->backlog.empty() || g_netDown; }, dl);
	f = getFd(fd);
	if (!f || !ok || f->backlog.empty()) { record("accept", fd, -1, f ? EAGAIN : EBADF, false); return -1; }
	Conn* c = f->backlog.front(); f->backlog.erase(f->backlog.begin());
	c->accepted = true;
	int nf = newFd(FD_CONN);
	Fd* g = getFd(nf); g->conn = c; g->side = 1;
	record("accept", fd, nf, 0, false);
	return nf;
}
int __real_accept(int, struct sockaddr*, socklen_t*);
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* n)
{
	if (!g_sim.active) return __real_accept(fd, a, n);
	int r = doAccept(fd);
	if (r >= 0 && a && n)
	{
		struct sockaddr_in s; memset(&s, 0, sizeof(s)); s.sin_family = AF_INET; s.sin_port = htons(40000); s.sin_addr.s_addr = htonl(0x7f000001);
		memcpy(a, &s, std::min<size_t>(*n, sizeof(s))); *n = sizeof(s);
	}
	return r;
}
int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* n, int fl) { return __wrap_accept(fd, a, n); }
int __real_connect(int, const struct sockaddr*, socklen_t);
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t n)
{
	if (!g_sim.active) return __real_connect(fd, a, n);
	Fd* f = getFd(fd);
	if (!f || f->kind != FD_SOCK) { record("connect", fd, -1, EBADF, false); return -1; }
	int port = ntohs(((const struct sockaddr_in*)a)->sin_port);
	uint32_t ip = ntohl(((const struct sockaddr_in*)a)->sin_addr.s_addr);
	if (ip != 0x7f000001 && ip != 0x0a000001 && ip != 0xc0a822cd && ip != 0xac10fe09 && ip != 0xdf010203) { record("connect", fd, -1, ENETUNREACH, false); return -1; }
	if (g_net.eintr && roll(g_net.faultPct)) { COUNT("fault.connect_eintr"); record("connect", fd, -1, EINTR, true); return -1; }
	if (g_net.refuse && roll(g_net.faultPct)) { COUNT("fault.connect_refused"); record("connect", fd, -1, ECONNREFUSED, true); return -1; }
	if (g_net.dropSyn && roll(g_net.faultPct)) { COUNT("fault.connect_timeout"); int64_t u = g_sim.monoUs + 60000000; sim_wait([u] { return g_sim.monoUs >= u || g_netDown; }, u); record("connect", fd, -1, ETIMEDOUT, true); return -1; }
	if (g_net.delay) { int64_t u = g_sim.monoUs + latency(); sim_wait([u] { return g_sim.monoUs >= u; }, u); }
	Fd* l = listenerOn(port);
	f = getFd(fd);
	if (!f) { record("connect", fd, -1, EBADF, false); return -1; }
	if (!l || l->backlog.size() > 6) { record("connect", fd, -1, ECONNREFUSED, false); return -1; }
	Conn* c = new Conn; c->id = (int)g_conns.size(); g_conns.push_back(c);
	l->backlog.push_back(c);
	f->kind = FD_CONN; f->conn = c; f->side = 0;
	record("connect", fd, 0, 0, false);
	return 0;
}
static long netSend(int fd, const void* buf, size_t n, int flags)
{
	Fd* f = getFd(fd);
	if (!f) { record("send", fd, -1, EBADF, false); return -1; }
	if (f->kind != FD_CONN) { record("send", fd, -1, ENOTCONN, false); return -1; }
	Conn* c = f->conn; int side = f->side;
	if (g_net.eintr && roll(g_net.faultPct)) { COUNT("fault.send_eintr"); record("send", fd, -1, EINTR, true); return -1; }
	if (g_net.reset && roll(g_net.faultPct)) { COUNT("fault.reset_on_send"); c->reset = true; sched("fault: conn%d reset", c->id); }
	if (c->reset || c->closed[1 - side] || c->closed[side])
	{
		if (!(flags & MSG_NOSIGNAL) && !g_sim.sigpipe)
		{
			violate("sigpipe", "writing to a connection the peer closed or reset raises SIGPIPE and kills the host process");
		}
		record("send", fd, -1, c->reset ? ECONNRESET : EPIPE, c->reset);
		return -1;
	}
	if (!n) { record("send", fd, 0, 0, false); return 0; }
	Dir& d = c->d[side];
	size_t used = d.inflight.size() + d.avail.size();
	if (used >= g_net.window)
	{
		COUNT("net.send_blocked");
		if (f->nonblock || (flags & MSG_DONTWAIT)) { record("send", fd, -1, EAGAIN, false); return -1; }
		bool ok = sim_wait([c, side] { return c->reset || c->closed[1 - side] || c->d[side].inflight.size() + c->d[side].avail.size() < g_net.window; }, -1);
		if (!ok) { record("send", fd, -1, EAGAIN, false); return -1; }
		return netSend(fd, buf, n, flags);
	}
	size_t k = n; bool inj = false;
	if (g_net.partialSend && k > 1 && roll(g_net.faultPct)) { k = 1 + ch((uint32_t)k - 1); inj = true; COUNT("fault.partial_send"); }
	if (k > g_net.window - used) { k = g_net.window - used; COUNT("net.send_window_limited"); }
	d.inflight.append((const char*)buf, k); d.sent += k;
	record("send", fd, (long)k, 0, inj).data.assign((const char*)buf, k);
	pump(c, side);
	return (long)k;
}
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __wrap_send(int fd, const void* b, size_t n, int fl) { return g_sim.active ? netSend(fd, b, n, fl) : __real_send(fd, b, n, fl); }
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr*, socklen_t) { return netSend(fd, b, n, fl); }
static long netRecv(int fd, void* buf, size_t n, int flags)
{
	Fd* f = getFd(fd);
	if (!f) { record("recv", fd, -1, EBADF, false); return -1; }
	if (f->kind != FD_CONN) { record("recv", fd, -1, ENOTCONN, false); return -1; }
	Conn* c = f->conn; int side = f->side;
	if (g_net.eintr && roll(g_net.faultPct)) { COUNT("fault.recv_eintr"); record("recv", fd, -1, EINTR, true); return -1; }
	if (g_net.reset && roll(g_net.faultPct)) { COUNT("fault.reset_on_recv"); c->reset = true; sched("fault: conn%d reset", c->id); }
	Dir& d = c->d[1 - side];
	if (d.avail.empty() && !d.finDelivered && !c->reset)
	{
		if (f->nonblock || (flags & MSG_DONTWAIT)) { record("recv", fd, -1, EAGAIN, false); return -1; }
		int64_t dl = f->rcvTimeoUs ? g_sim.monoUs + f->rcvTimeoUs : -1;
		COUNT("net.recv_blocked");
		bool ok = sim_wait([c, side] { Dir& q = c->d[1 - side]; return c->reset || !q.avail.empty() || q.finDelivered; }, dl);
		if (!ok) { COUNT("net.recv_timeout"); record("recv", fd, -1, EAGAIN, false); return -1; }
	}
	if (c->reset) { record("recv", fd, -1, ECONNRESET, true); return -1; }
	size_t k = std::min(n, d.avail.size());
	if (k && buf) memcpy(buf, d.avail.data(), k);
	SysRec& r = record("recv", fd, (long)k, 0, false);
	r.data.assign(d.avail, 0, k);
	r.peek = (flags & MSG_PEEK) != 0;
	if (!r.peek) { d.avail.erase(0, k); d.received += k; }
	return (long)k;
}
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __wrap_recv(int fd, void* b, size_t n, int fl) { return g_sim.active ? netRecv(fd, b, n, fl) : __real_recv(fd, b, n, fl); }
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr*, socklen_t*) { return netRecv(fd, b, n, fl); }
int __wrap_shutdown(int fd, int how)
{
	Fd* f = getFd(fd);
	if (!f || f->kind != FD_CONN) { record("shutdown", fd, -1, ENOTCONN, false); return -1; }
	if (how != SHUT_RD) { f->conn->d[f->side].fin = true; pump(f->conn, f->side); }
	record("shutdown", fd, 0, 0, false);
	return 0;
}
static bool readable(int fd)
{
	Fd* f = getFd(fd);
	if (!f) return true;
	if (f->kind == FD_LISTEN) return !f->backlog.empty();
	if (f->kind == FD_CONN) { Dir& d = f->conn->d[1 - f->side]; return f->conn->reset || !d.avail.empty() || d.finDelivered; }
	return false;
}
int __real_poll(struct pollfd*, nfds_t, int);
int __wrap_poll(struct pollfd* p, nfds_t n, int ms)
{
	if (!g_sim.active) return __real_poll(p, n, ms);
	if (g_net.eintr && roll(g_net.faultPct)) { COUNT("fault.poll_eintr"); record("poll", p ? p[0].fd : -1, -1, EINTR, true); return -1; }
	std::function<bool()> any = [p, n] { for (nfds_t i = 0; i < n; ++i) if (!getFd(p[i].fd) || ((p[i].events & POLLIN) && readable(p[i].fd)) || (p[i].events & POLLOUT)) return true; return false; };
	int64_t dl = ms < 0 ? -1 : g_sim.monoUs + (int64_t)ms * 1000;
	if (ms != 0 || g_co) sim_wait(any, dl);
	int r = 0;
	for (nfds_t i = 0; i < n; ++i)
	{
		p[i].revents = 0;
		Fd* f = getFd(p[i].fd);
		if (!f) { if (p[i].fd >= 0) p[i].revents = POLLNVAL; }
		else
		{
			if ((p[i].events & POLLIN) && readable(p[i].fd)) p[i].revents |= POLLIN;
			if ((p[i].events & POLLOUT)) p[i].revents |= POLLOUT;
			if (f->kind == FD_CONN && f->conn->reset) p[i].revents |= POLLERR | POLLHUP;
			if (f->kind == FD_SOCK) p[i].revents |= POLLHUP;
		}
		if (p[i].revents) ++r;
	}
	record("poll", n ? p[0].fd : -1, r, 0, false);
	return r;
}
int __real_setsockopt(int, int, int, const void*, socklen_t);
int __wrap_setsockopt(int fd, int lv, int o, const void* v, socklen_t n)
{
	if (!g_sim.active) return __real_setsockopt(fd, lv, o, v, n);
	Fd* f = getFd(fd);
	if (!f) { record("setsockopt", fd, -1, EBADF, false); return -1; }
	if (lv == SOL_SOCKET && o == SO_RCVTIMEO && n >= sizeof(struct timeval)) { const struct timeval* t = (const struct timeval*)v; f->rcvTimeoUs = t->tv_sec * 1000000ll + t->tv_usec; }
	record("setsockopt", fd, 0, 0, false);
	return 0;
}
int __wrap_getsockopt(int fd, int, int, void* v, socklen_t* n) { if (v && n && *n >= 4) memset(v, 0, 4); return getFd(fd) ? 0 : -1; }
int __wrap_getsockname(int fd, struct sockaddr* a, socklen_t* n) { return getFd(fd) ? 0 : -1; }
int __wrap_getpeername(int fd, struct sockaddr* a, socklen_t* n) { return getFd(fd) ? 0 : -1; }
int __real_fcntl(int, int, ...);
int __wrap_fcntl(int fd, int cmd, ...)
{
	va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a);
	if (!g_sim.active) return __real_fcntl(fd, cmd, arg);
	Fd* f = getFd(fd);
	if (!f) { errno = EBADF; return -1; }
	if (cmd == F_GETFL) return f->nonblock ? O_NONBLOCK : 0;
	if (cmd == F_SETFL) f->nonblock = (arg & O_NONBLOCK) != 0;
	return 0;
}
int __wrap_fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a); return __wrap_fcntl(fd, cmd, arg); }
int __real_ioctl(int, unsigned long, ...);
int __wrap_ioctl(int fd, unsigned long rq, ...)
{
	va_list a; va_start(a, rq); void* arg = va_arg(a, void*); va_end(a);
	if (!g_sim.active) return __real_ioctl(fd, rq, arg);
	Fd* f = getFd(fd);
	if (!f) { errno = EBADF; return -1; }
	if (rq == FIONREAD) { *(int*)arg = f->kind == FD_CONN ? (int)f->conn->d[1 - f->side].avail.size() : 0; record("ioctl", fd, 0, 0, false); return 0; }
	if (rq == FIONBIO) { f->nonblock = *(int*)arg != 0; return 0; }
	return 0;
}
int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*);
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t)
{
	if (!g_sim.active) return __real_select(n, r, w, e, t);
	errno = EINVAL; return -1; // simulated descriptors do not fit an fd_set
}
int __real_getaddrinfo(const char*, const char*, const struct addrinfo*, struct addrinfo**);
int __wrap_getaddrinfo(const char* h, const char* s, const struct addrinfo* hints, struct addrinfo** out)
{
	if (!g_sim.active) return __real_getaddrinfo(h, s, hints, out);
	if (g_net.resolveFail && roll(g_net.faultPct)) { COUNT("fault.resolve_fails"); record("getaddrinfo", -1, -1, 0, true, h); return EAI_AGAIN; }
	if (!h || strcmp(h, "peer.test")) { record("getaddrinfo", -1, -1, 0, false, h); return EAI_NONAME; }
	struct addrinfo* a = (struct addrinfo*)calloc(1, sizeof(struct addrinfo) + sizeof(struct sockaddr_in));
	struct sockaddr_in* sa = (struct sockaddr_in*)(a + 1);
	sa->sin_family = AF_INET; sa->sin_addr.s_addr = htonl(0x0a000001);
	a->ai_family = AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_addr = (struct sockaddr*)sa; a->ai_addrlen = sizeof(*sa);
	*out = a; ++g_ai;
	record("getaddrinfo", -1, 0, 0, false, h);
	return 0;
}
void __real_freeaddrinfo(struct addrinfo*);
void __wrap_freeaddrinfo(struct addrinfo* a)
{
	if (!g_sim.active) { __real_freeaddrinfo(a); return; }
	free(a); --g_ai;
}
struct hostent* __wrap_gethostbyname(const char*) { return 0; }
}
