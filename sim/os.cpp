// Simulated operating system: interposed libc symbols over the kernel's fibers, clock, TCP and disk.
// Compiled without sanitizer instrumentation.  While no run is active every call goes to the real libc.
#include "kernel.hpp"
#include "internal.hpp"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <deque>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <dirent.h>
#include <link.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <netdb.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>

#undef errno
extern "C" int* __errno_location(void);
#define errno (*__errno_location())

#define EXPORT extern "C" __attribute__((visibility("default"), used))

namespace sim {
namespace race {
void (*onSwitch)(int) = nullptr;
void (*onExit)(int) = nullptr;
void (*onSpawn)(int, int) = nullptr;
void (*onJoin)(int, int) = nullptr;
void (*onStart)() = nullptr;
void (*onAcquire)(void*, int) = nullptr;
void (*onRelease)(void*, int) = nullptr;
void (*onIgnore)(bool) = nullptr;
uint64_t (*onCount)() = nullptr;
}
void ignoreRaces(bool begin) { if (race::onIgnore) race::onIgnore(begin); }
uint64_t accessesChecked() { return race::onCount ? race::onCount() : 0; }
static void acq(void* p, int kind = 0) { if (race::onAcquire) race::onAcquire(p, kind); }
static void rel(void* p, int kind = 0) { if (race::onRelease) race::onRelease(p, kind); }

template <typename F> static F real(const char* name) {
	void* p = dlsym(RTLD_NEXT, name);
	return reinterpret_cast<F>(p);
}
#define REAL(NAME) ([] { static auto f = real<decltype(&::NAME)>(#NAME); return f; }())

bool faultChance(uint32_t permille, const char* name) {
	if (!faultsAllowed() || permille == 0) return false;
	if (!chance(FAULT, permille)) return false;
	fault(name);
	ev(name);
	return true;
}

// ================================================================== descriptors
constexpr int FD_BASE = 64;
struct Node;
struct Conn;
struct Listener;
enum Kind { SOCK_FRESH, SOCK_CONN, SOCK_LISTEN, PIPE_R, PIPE_W, VFILE, VDIR, EVENTS };
struct PipeBuf { std::string data; bool readerOpen = true, writerOpen = true; };
struct File {
	Kind kind;
	int refs = 1;
	int proc = 0;
	bool nonblock = false;
	bool linger0 = false;
	int port = 0;             // bound port
	int64_t rcvTimeo = 0, sndTimeo = 0;
	std::shared_ptr<Conn> conn;
	int end = 0;              // 0 client, 1 server
	std::shared_ptr<Listener> listener;
	std::shared_ptr<PipeBuf> pipe;
	std::shared_ptr<Node> node;
	std::string path;
	size_t offset = 0;
	int dirFd = -1;
};
using FileP = std::shared_ptr<File>;
static std::map<int, FileP> g_fds;
static uint64_t g_badFd = 0;
static std::string g_lastBadFd;

static int allocFd(FileP f) {
	if (g_fds.size() >= params().maxFds) return -1;
	int fd = FD_BASE;
	for (auto& it : g_fds) {
		if (it.first != fd) break;
		fd++;
	}
	f->proc = selfProc();
	g_fds[fd] = std::move(f);
	return fd;
}
static FileP getFd(int fd, const char* what) {
	auto it = g_fds.find(fd);
	if (it == g_fds.end()) {
		if (fd >= FD_BASE) {
			g_badFd++;
			g_lastBadFd = std::string(what) + "(" + std::to_string(fd) + ") by " + fiberName(self());
			ev("badfd", fd);
		}
		errno = EBADF;
		return nullptr;
	}
	return it->second;
}
static bool mine(int fd) { return g_active && fd >= FD_BASE; }
int openVirtualFds() { return g_fds.size(); }
std::vector<std::string> describeOpenFds() {
	static const char* names[] = {"socket", "connection", "listener", "pipe-r", "pipe-w", "file", "dir"};
	std::vector<std::string> r;
	for (auto& it : g_fds) r.push_back(std::to_string(it.first) + ":" + names[it.second->kind] + (it.second->path.empty() ? "" : " " + it.second->path));
	return r;
}
uint64_t badFdUses() { return g_badFd; }
std::string lastBadFdUse() { return g_lastBadFd; }

static bool g_sigpipeIgnored = false;
bool sigpipeIgnored() { return g_sigpipeIgnored; }
static void raisePipe(int flags) {
	if ((flags & MSG_NOSIGNAL) || g_sigpipeIgnored) return;
	violation("sigpipe", std::string("process killed by SIGPIPE: ") + fiberName(self()) + " sent on a connection its peer had closed");
}

// ================================================================== TCP
struct Dir {
	std::string sendQ;
	std::string rcv;
	size_t rcvOff = 0;
	size_t inflight = 0;
	int64_t lastDeliver = 0;
	uint64_t accepted = 0, delivered = 0;  // bytes taken from the sender, bytes handed to the receiving side
	bool finQueued = false, finSent = false, finDelivered = false;
	size_t rcvSize() const { return rcv.size() - rcvOff; }
};
struct End {
	bool open = true;
	bool shutRd = false;
	int err = 0;
	bool gotRst = false;
	bool sentRst = false;
};
enum PlanKind { PLAN_NONE, PLAN_RST, PLAN_FIN };
struct Conn : std::enable_shared_from_this<Conn> {
	int id = 0;
	int port = 0, clientPort = 0;
	Dir d[2];        // 0: client->server, 1: server->client
	End e[2];        // 0: client, 1: server
	int64_t stallUntil = 0;
	PlanKind plan = PLAN_NONE;
	int planDir = 0;
	size_t planBytes = 0;
	bool planFired = false;
	int segMode = 0;
	bool established = false;

	void pump(int dir) {
		Dir& x = d[dir];
		End& sender = e[dir];
		if (sender.gotRst || sender.sentRst) { x.sendQ.clear(); return; }
		while (!x.sendQ.empty()) {
			size_t window = params().rcvBuf > x.rcvSize() + x.inflight ? params().rcvBuf - x.rcvSize() - x.inflight : 0;
			if (window == 0) return;
			size_t n = std::min(window, x.sendQ.size());
			int mode = segMode;
			if (mode == 3) mode = choose(NET, 3);
			if (mode == 1) n = std::min<size_t>(n, 1 + choose(NET, 2048));
			else if (mode == 2) n = std::min<size_t>(n, 1 + choose(NET, 24));
			else if (mode == 4) n = std::min<size_t>(n, 1448);
			if (plan != PLAN_NONE && !planFired && planDir == dir) {
				uint64_t sentSoFar = x.delivered + x.inflight;
				if (planBytes > sentSoFar) n = std::min<size_t>(n, planBytes - sentSoFar);
			}
			std::string data = x.sendQ.substr(0, n);
			x.sendQ.erase(0, n);
			x.inflight += n;
			schedule(dir, std::move(data), false);
		}
		if (x.sendQ.empty() && x.finQueued && !x.finSent) {
			x.finSent = true;
			schedule(dir, "", true);
		}
	}
	int64_t deliveryTime(int dir) {
		Dir& x = d[dir];
		int64_t span = params().maxDelay - params().minDelay;
		int64_t delay = params().minDelay + (span > 0 ? int64_t(choose(NET, 1024)) * span / 1023 : 0);
		if (faultsAllowed() && params().stallPermille && chance(NET, params().stallPermille)) {
			delay += int64_t(choose(NET, 1024)) * params().stallMax / 1023;
			fault("net.stall");
		}
		int64_t t = std::max({now() + delay, x.lastDeliver, stallUntil});
		x.lastDeliver = t;
		return t;
	}
	void schedule(int dir, std::string data, bool fin) {
		auto me = shared_from_this();
		at(deliveryTime(dir), [me, dir, data = std::move(data), fin] { me->deliver(dir, data, fin); });
	}
	void deliver(int dir, const std::string& data, bool fin) {
		if (stallUntil > now()) { // partitioned while in flight
			auto me = shared_from_this();
			d[dir].lastDeliver = std::max(d[dir].lastDeliver, stallUntil);
			at(stallUntil, [me, dir, data, fin] { me->deliver(dir, data, fin); });
			return;
		}
		Dir& x = d[dir];
		End& receiver = e[1 - dir];
		x.inflight -= data.size();
		if (receiver.gotRst || receiver.sentRst) return;
		if (!receiver.open) {
			if (!data.empty()) sendRst(1 - dir);
			else if (fin) x.finDelivered = true;
			return;
		}
		if (x.rcvOff > 65536) { x.rcv.erase(0, x.rcvOff); x.rcvOff = 0; }
		x.rcv += data;
		x.delivered += data.size();
		if (fin) x.finDelivered = true;
		ev("deliver", id * 2 + dir, data.size(), fin);
		checkPlan();
		pump(dir);
	}
	void checkPlan() {
		if (plan == PLAN_NONE || planFired || !faultsAllowed()) return;
		if (d[planDir].delivered < planBytes) return;
		planFired = true;
		if (plan == PLAN_RST) {
			fault("net.reset");
			ev("fault.reset", id, planDir, planBytes);
			for (int i = 0; i < 2; i++) receiveRst(i);
		} else {
			fault("net.forged-fin");
			ev("fault.fin", id, planDir, planBytes);
			for (int i = 0; i < 2; i++) {
				d[i].finDelivered = true;
				d[i].sendQ.clear();
				e[i].sentRst = true; // anything in flight is discarded, later sends get EPIPE
				forgedFin = true;
			}
		}
	}
	bool forgedFin = false;
	// end `from` sends RST to its peer
	void sendRst(int from) {
		if (e[from].sentRst) return;
		e[from].sentRst = true;
		d[from].sendQ.clear();
		auto me = shared_from_this();
		at(deliveryTime(from), [me, from] { me->receiveRst(1 - from); });
	}
	void receiveRst(int end) {
		if (e[end].gotRst || (!e[end].open && e[end].sentRst)) return;
		e[end].gotRst = true;
		e[end].err = d[1 - end].finDelivered ? EPIPE : ECONNRESET;
		d[end].sendQ.clear();
		ev("rst", id, end);
	}
	size_t space(int end) const {
		const Dir& x = d[end];
		size_t used = x.sendQ.size() + x.inflight;
		return params().sndBuf > used ? params().sndBuf - used : 0;
	}
	bool readable(int end) const {
		const Dir& x = d[1 - end];
		return x.rcvSize() || x.finDelivered || e[end].gotRst || e[end].err || e[end].shutRd;
	}
	bool writable(int end) const {
		return space(end) > 0 || e[end].gotRst || e[end].err || d[end].finQueued || (forgedFin) ;
	}
	void close(int end, bool linger0) {
		End& x = e[end];
		if (!x.open) return;
		x.open = false;
		ev("tcpclose", id, end, d[1 - end].rcvSize());
		if (x.gotRst || x.sentRst) return;
		if (linger0 || d[1 - end].rcvSize()) {
			sendRst(end);
			return;
		}
		d[end].finQueued = true;
		pump(end);
	}
};
struct Listener {
	int port = 0;
	bool open = true;
	int backlog = 128;
	std::deque<std::shared_ptr<Conn>> queue;
};
static std::map<int, std::weak_ptr<Listener>> g_listeners;
static std::vector<std::weak_ptr<Conn>> g_conns;
static int g_connIds = 0, g_nextPort = 40000, g_established = 0;
static int g_forceResets = 0;
static size_t g_forceC2S = 0, g_forceS2C = 0;

int connectionCount() { return g_established; }
int forceResetNextConnections(int n, size_t c2s, size_t s2c) { g_forceResets = n; g_forceC2S = c2s; g_forceS2C = s2c; return n; }
void cutAll(int64_t ns) {
	fault("net.partition");
	ev("partition", ns);
	for (auto& w : g_conns) if (auto c = w.lock()) c->stallUntil = std::max(c->stallUntil, now() + ns);
}
static Conn* connOf(int fd) {
	auto it = g_fds.find(fd);
	return it == g_fds.end() ? nullptr : it->second->conn.get();
}
ConnInfo connInfoOfFd(int fd) {
	Conn* c = connOf(fd);
	if (!c) return {-1, 0, 0, 0, 0, 0, 0};
	return {c->id, c->e[0].gotRst, c->e[1].gotRst, !c->e[0].open, !c->e[1].open, c->d[0].delivered, c->d[1].delivered};
}
void killConnectionOfFd(int fd) {
	if (Conn* c = connOf(fd)) {
		fault("net.reset");
		ev("fault.kill", c->id);
		for (int i = 0; i < 2; i++) c->receiveRst(i);
	}
}
void stallConnectionOfFd(int fd, int64_t ns) {
	if (Conn* c = connOf(fd)) {
		fault("net.stall");
		ev("fault.stall", c->id, ns);
		c->stallUntil = std::max(c->stallUntil, now() + ns);
	}
}

static void closeFile(FileP f) {
	if (--f->refs > 0) return;
	switch (f->kind) {
	case SOCK_CONN:
		f->conn->close(f->end, f->linger0);
		break;
	case SOCK_LISTEN:
		f->listener->open = false;
		for (auto& c : f->listener->queue) c->close(1, true);
		f->listener->queue.clear();
		g_listeners.erase(f->port);
		break;
	case PIPE_R: f->pipe->readerOpen = false; break;
	case PIPE_W: f->pipe->writerOpen = false; break;
	default: break;
	}
}
void closeAllOfProc(int proc) {
	std::vector<int> fds;
	for (auto& it : g_fds) if (it.second->proc == proc) fds.push_back(it.first);
	for (int fd : fds) {
		auto f = g_fds[fd];
		g_fds.erase(fd);
		closeFile(f);
	}
}
} // namespace sim
using namespace sim;

// ---- socket calls
EXPORT int socket(int domain, int type, int protocol) {
	if (!g_active) return REAL(socket)(domain, type, protocol);
	schedPoint("socket");
	auto f = std::make_shared<File>();
	f->kind = SOCK_FRESH;
	f->nonblock = type & SOCK_NONBLOCK;
	int fd = allocFd(f);
	if (fd < 0) { errno = EMFILE; return -1; }
	ev("socket", fd);
	return fd;
}
static int portOf(const sockaddr* a) { return a->sa_family == AF_INET ? ntohs(((const sockaddr_in*)a)->sin_port) : ntohs(((const sockaddr_in6*)a)->sin6_port); }
EXPORT int bind(int fd, const sockaddr* a, socklen_t len) {
	if (!mine(fd)) return REAL(bind)(fd, a, len);
	schedPoint("bind");
	auto f = getFd(fd, "bind");
	if (!f) return -1;
	int port = portOf(a);
	if (port == 0) port = g_nextPort++;
	auto it = g_listeners.find(port);
	if (it != g_listeners.end() && !it->second.expired() && it->second.lock()->open) { errno = EADDRINUSE; return -1; }
	f->port = port;
	return 0;
}
EXPORT int listen(int fd, int backlog) {
	if (!mine(fd)) return REAL(listen)(fd, backlog);
	schedPoint("listen");
	auto f = getFd(fd, "listen");
	if (!f) return -1;
	f->kind = SOCK_LISTEN;
	f->listener = std::make_shared<Listener>();
	f->listener->port = f->port;
	f->listener->backlog = backlog;
	g_listeners[f->port] = f->listener;
	ev("listen", fd, f->port);
	return 0;
}
EXPORT int connect(int fd, const sockaddr* a, socklen_t len) {
	if (!mine(fd)) return REAL(connect)(fd, a, len);
	schedPoint("connect");
	auto f = getFd(fd, "connect");
	if (!f) return -1;
	if (f->kind != SOCK_FRESH) { errno = EISCONN; return -1; }
	if (faultChance(params().connectFailPermille, "net.connect-refused")) {
		static const int errs[] = {ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EHOSTUNREACH};
		errno = errs[choose(FAULT, 4)];
		return -1;
	}
	int port = portOf(a);
	struct Pending { bool done = false; int err = 0; std::shared_ptr<Conn> conn; };
	auto p = std::make_shared<Pending>();
	int64_t delay = params().minDelay + (params().maxDelay > params().minDelay ? int64_t(choose(NET, 64)) * (params().maxDelay - params().minDelay) / 63 : 0);
	auto c = std::shared_ptr<Conn>(new Conn);
	c->id = g_connIds++;
	c->port = port;
	c->clientPort = g_nextPort++;
	c->segMode = params().segMode;
	if (g_forceResets > 0) {
		g_forceResets--;
		c->plan = PLAN_RST;
		c->planDir = g_forceS2C ? 1 : 0;
		c->planBytes = g_forceS2C ? g_forceS2C : g_forceC2S;
	} else if (faultsAllowed() && params().resetPermille && chance(FAULT, params().resetPermille)) {
		c->plan = PLAN_RST;
		c->planDir = choose(FAULT, 2);
		c->planBytes = 1 + choose(FAULT, params().faultByteSpan);
	} else if (faultsAllowed() && params().finPermille && chance(FAULT, params().finPermille)) {
		c->plan = PLAN_FIN;
		c->planDir = choose(FAULT, 2);
		c->planBytes = 1 + choose(FAULT, params().faultByteSpan);
	}
	after(delay, [p, c, port] {
		p->done = true;
		auto it = g_listeners.find(port);
		auto l = it == g_listeners.end() ? nullptr : it->second.lock();
		if (!l || !l->open) { p->err = ECONNREFUSED; ev("refused", port); return; }
		l->queue.push_back(c);
		c->established = true;
		g_established++;
		std::erase_if(g_conns, [] (auto& w) { return w.expired(); });
		g_conns.push_back(c);
		p->conn = c;
		ev("established", c->id, port);
	});
	if (f->nonblock) { // completes in the background
		f->kind = SOCK_CONN;
		f->conn = c;
		f->end = 0;
		errno = EINPROGRESS;
		return -1;
	}
	block("connect", fd, [p] { return p->done; });
	if (p->err) { errno = p->err; return -1; }
	f->kind = SOCK_CONN;
	f->conn = p->conn;
	f->end = 0;
	return 0;
}
static int doAccept(int fd, sockaddr* a, socklen_t* len, int flags) {
	schedPoint("accept");
	auto f = getFd(fd, "accept");
	if (!f) return -1;
	if (f->kind != SOCK_LISTEN) { errno = EINVAL; return -1; }
	auto l = f->listener;
	if (l->queue.empty()) {
		if (f->nonblock) { errno = EAGAIN; return -1; }
		block("accept", fd, [l] { return !l->queue.empty() || !l->open; });
		if (l->queue.empty()) { errno = EINVAL; return -1; }
	}
	if (faultsAllowed() && params().acceptFailPermille && chance(FAULT, params().acceptFailPermille)) {
		static const int errs[] = {ECONNABORTED, EMFILE, ENFILE, ENOBUFS, ENOMEM, EPROTO, EINTR};
		static const char* names[] = {"accept.econnaborted", "accept.emfile", "accept.enfile", "accept.enobufs", "accept.enomem", "accept.eproto", "accept.eintr"};
		int which = choose(FAULT, 7);
		fault(names[which]);
		ev(names[which], fd);
		if (which == 0 || which == 5) { // the connection is gone
			auto c = l->queue.front();
			l->queue.pop_front();
			c->e[1].open = false;
			c->sendRst(1);
		}
		errno = errs[which];
		return -1;
	}
	auto n = std::make_shared<File>();
	n->kind = SOCK_CONN;
	n->end = 1;
	n->nonblock = flags & SOCK_NONBLOCK;
	n->conn = l->queue.front();
	int nfd = allocFd(n);
	if (nfd < 0) { fault("accept.emfile-real"); errno = EMFILE; return -1; }
	l->queue.pop_front();
	if (a && len) {
		sockaddr_in s{};
		s.sin_family = AF_INET;
		s.sin_port = htons(n->conn->clientPort);
		s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		memcpy(a, &s, std::min<size_t>(*len, sizeof s));
		*len = sizeof s;
	}
	ev("accept", nfd, n->conn->id);
	return nfd;
}
EXPORT int accept(int fd, sockaddr* a, socklen_t* len) {
	if (!mine(fd)) return REAL(accept)(fd, a, len);
	return doAccept(fd, a, len, 0);
}
EXPORT int accept4(int fd, sockaddr* a, socklen_t* len, int flags) {
	if (!mine(fd)) return REAL(accept4)(fd, a, len, flags);
	return doAccept(fd, a, len, flags);
}
EXPORT int shutdown(int fd, int how) {
	if (!mine(fd)) return REAL(shutdown)(fd, how);
	schedPoint("shutdown");
	auto f = getFd(fd, "shutdown");
	if (!f) return -1;
	if (f->kind != SOCK_CONN) { errno = ENOTCONN; return -1; }
	if (how == SHUT_WR || how == SHUT_RDWR) {
		f->conn->d[f->end].finQueued = true;
		f->conn->pump(f->end);
	}
	if (how == SHUT_RD || how == SHUT_RDWR) f->conn->e[f->end].shutRd = true;
	ev("shutdown", fd, how);
	return 0;
}
static ssize_t pipeRead(FileP f, void* buf, size_t n) {
	auto p = f->pipe;
	if (p->data.empty()) {
		if (!p->writerOpen) return 0;
		if (f->nonblock) { errno = EAGAIN; return -1; }
		block("pipe-read", 0, [p] { return !p->data.empty() || !p->writerOpen; });
	}
	n = std::min(n, p->data.size());
	memcpy(buf, p->data.data(), n);
	p->data.erase(0, n);
	acq(p.get());
	return n;
}
static ssize_t doRecv(int fd, const iovec* iov, size_t cnt, int flags) {
	schedPoint("recv");
	auto f = getFd(fd, "recv");
	if (!f) return -1;
	if (f->kind == PIPE_R) return pipeRead(f, iov[0].iov_base, iov[0].iov_len);
	if (f->kind != SOCK_CONN) { errno = ENOTCONN; return -1; }
	auto c = f->conn;
	int end = f->end;
	Dir& d = c->d[1 - end];
	if (!c->readable(end)) {
		if (f->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
		if (faultChance(params().eintrPermille, "call.eintr-recv")) { errno = EINTR; return -1; }
		bool ok = block("recv", fd, [c, end] { return c->readable(end); }, f->rcvTimeo ? now() + f->rcvTimeo : INT64_MAX);
		if (!ok) { errno = EAGAIN; return -1; }
		if (g_fds.find(fd) == g_fds.end()) ev("closed-while-reading", fd);
	}
	if (d.rcvSize()) {
		size_t total = 0;
		for (size_t i = 0; i < cnt && d.rcvSize() > (flags & MSG_PEEK ? total : 0); i++) {
			size_t from = d.rcvOff + (flags & MSG_PEEK ? total : 0);
			size_t n = std::min(iov[i].iov_len, d.rcv.size() - from);
			memcpy(iov[i].iov_base, d.rcv.data() + from, n);
			total += n;
			if (!(flags & MSG_PEEK)) d.rcvOff += n;
		}
		if (d.rcvOff == d.rcv.size()) { d.rcv.clear(); d.rcvOff = 0; }
		ev("recv", fd, total);
		c->pump(1 - end);
		return total;
	}
	if (c->e[end].err) {
		errno = c->e[end].err;
		if (errno == EPIPE) errno = ECONNRESET;
		if (!(flags & MSG_PEEK)) c->e[end].err = 0;
		ev("recv-err", fd, errno);
		probe("recv-error");
		return -1;
	}
	ev("recv-eof", fd);
	probe("recv-eof");
	return 0;
}
static ssize_t doSend(int fd, const iovec* iov, size_t cnt, int flags) {
	schedPoint("send");
	auto f = getFd(fd, "send");
	if (!f) return -1;
	std::string data;
	for (size_t i = 0; i < cnt; i++) data.append((const char*)iov[i].iov_base, iov[i].iov_len);
	if (f->kind == PIPE_W) {
		rel(f->pipe.get());
		if (!f->pipe->readerOpen) { errno = EPIPE; return -1; }
		if (f->pipe->data.size() + data.size() > 65536) { errno = EAGAIN; return -1; }
		f->pipe->data += data;
		return data.size();
	}
	if (f->kind != SOCK_CONN) { errno = ENOTCONN; raisePipe(flags); return -1; }
	auto c = f->conn;
	int end = f->end;
	size_t done = 0;
	int64_t deadline = f->sndTimeo ? now() + f->sndTimeo : INT64_MAX;
	while (true) {
		End& e = c->e[end];
		if (e.err || e.gotRst || c->d[end].finQueued || e.sentRst) {
			if (done) return done;
			int err = e.err ? e.err : EPIPE;
			e.err = 0;
			ev("send-err", fd, err);
			probe("send-error");
			if (err == EPIPE) raisePipe(flags);
			errno = err;
			return -1;
		}
		size_t n = std::min(data.size() - done, c->space(end));
		if (n) {
			c->d[end].sendQ.append(data, done, n);
			c->d[end].accepted += n;
			done += n;
			c->pump(end);
		}
		if (done == data.size()) {
			ev("send", fd, done);
			return done;
		}
		probe("send-buffer-full");
		if (f->nonblock || (flags & MSG_DONTWAIT)) {
			if (done) { ev("send-short", fd, done); return done; }
			errno = EAGAIN;
			return -1;
		}
		if (faultChance(params().eintrPermille, "call.eintr-send")) {
			if (done) { ev("send-partial", fd, done); fault("call.partial-send"); return done; }
			errno = EINTR;
			return -1;
		}
		if (!block("send", fd, [c, end] { return c->writable(end); }, deadline)) {
			if (done) return done;
			errno = EAGAIN;
			return -1;
		}
	}
}
EXPORT ssize_t recv(int fd, void* buf, size_t n, int flags) {
	if (!mine(fd)) return REAL(recv)(fd, buf, n, flags);
	iovec v{buf, n};
	return doRecv(fd, &v, 1, flags);
}
EXPORT ssize_t recvfrom(int fd, void* buf, size_t n, int flags, sockaddr* a, socklen_t* l) {
	if (!mine(fd)) return REAL(recvfrom)(fd, buf, n, flags, a, l);
	iovec v{buf, n};
	return doRecv(fd, &v, 1, flags);
}
EXPORT ssize_t recvmsg(int fd, msghdr* m, int flags) {
	if (!mine(fd)) return REAL(recvmsg)(fd, m, flags);
	return doRecv(fd, m->msg_iov, m->msg_iovlen, flags);
}
EXPORT ssize_t send(int fd, const void* buf, size_t n, int flags) {
	if (!mine(fd)) return REAL(send)(fd, buf, n, flags);
	iovec v{(void*)buf, n};
	return doSend(fd, &v, 1, flags);
}
EXPORT ssize_t sendto(int fd, const void* buf, size_t n, int flags, const sockaddr* a, socklen_t l) {
	if (!mine(fd)) return REAL(sendto)(fd, buf, n, flags, a, l);
	iovec v{(void*)buf, n};
	return doSend(fd, &v, 1, flags);
}
EXPORT ssize_t sendmsg(int fd, const msghdr* m, int flags) {
	if (!mine(fd)) return REAL(sendmsg)(fd, m, flags);
	return doSend(fd, m->msg_iov, m->msg_iovlen, flags);
}

// ---- descriptors shared by sockets, pipes and files
namespace sim { ssize_t vfileRead(FileP f, void* buf, size_t n); }
EXPORT ssize_t read(int fd, void* buf, size_t n) {
	if (!mine(fd)) return REAL(read)(fd, buf, n);
	auto it = g_fds.find(fd);
	if (it != g_fds.end() && it->second->kind == VFILE) {
		schedPoint("read");
		return vfileRead(it->second, buf, n);
	}
	iovec v{buf, n};
	return doRecv(fd, &v, 1, 0);
}
EXPORT ssize_t __read_chk(int fd, void* buf, size_t n, size_t) { return read(fd, buf, n); }
EXPORT ssize_t readv(int fd, const iovec* v, int cnt) {
	if (!mine(fd)) return REAL(readv)(fd, v, cnt);
	auto it = g_fds.find(fd);
	if (it != g_fds.end() && it->second->kind == VFILE) return read(fd, v[0].iov_base, v[0].iov_len);
	return doRecv(fd, v, cnt, 0);
}
EXPORT ssize_t write(int fd, const void* buf, size_t n) {
	if (!mine(fd)) return REAL(write)(fd, buf, n);
	auto it = g_fds.find(fd);
	if (it != g_fds.end() && it->second->kind == VFILE) { errno = EBADF; return -1; }
	if (it != g_fds.end() && it->second->kind == EVENTS) return n;
	iovec v{(void*)buf, n};
	return doSend(fd, &v, 1, 0);
}
EXPORT ssize_t writev(int fd, const iovec* v, int cnt) {
	if (!mine(fd)) return REAL(writev)(fd, v, cnt);
	return doSend(fd, v, cnt, 0);
}
EXPORT int close(int fd) {
	if (!mine(fd)) return REAL(close)(fd);
	schedPoint("close");
	auto f = getFd(fd, "close");
	if (!f) return -1;
	g_fds.erase(fd);
	ev("close", fd);
	closeFile(f);
	return 0;
}
EXPORT int dup(int fd) {
	if (!mine(fd)) return REAL(dup)(fd);
	auto f = getFd(fd, "dup");
	if (!f) return -1;
	f->refs++;
	return allocFd(f);
}
EXPORT int pipe(int fds[2]) {
	if (!g_active) return REAL(pipe)(fds);
	auto b = std::make_shared<PipeBuf>();
	auto r = std::make_shared<File>(), w = std::make_shared<File>();
	r->kind = PIPE_R;
	w->kind = PIPE_W;
	r->pipe = w->pipe = b;
	fds[0] = allocFd(r);
	fds[1] = allocFd(w);
	if (fds[0] < 0 || fds[1] < 0) { errno = EMFILE; return -1; }
	return 0;
}
EXPORT int pipe2(int fds[2], int flags) {
	if (!g_active) return REAL(pipe2)(fds, flags);
	if (pipe(fds)) return -1;
	if (flags & O_NONBLOCK) for (int i = 0; i < 2; i++) g_fds[fds[i]]->nonblock = true;
	return 0;
}
static int doFcntl(int fd, int cmd, long arg) {
	auto f = getFd(fd, "fcntl");
	if (!f) return -1;
	if (cmd == F_GETFL) return (f->nonblock ? O_NONBLOCK : 0) | O_RDWR;
	if (cmd == F_SETFL) { f->nonblock = arg & O_NONBLOCK; return 0; }
	return 0;
}
EXPORT int fcntl(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	if (!mine(fd)) return REAL(fcntl)(fd, cmd, arg);
	return doFcntl(fd, cmd, arg);
}
EXPORT int fcntl64(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	if (!mine(fd)) return REAL(fcntl64)(fd, cmd, arg);
	return doFcntl(fd, cmd, arg);
}
EXPORT int ioctl(int fd, unsigned long req, ...) {
	va_list ap;
	va_start(ap, req);
	void* arg = va_arg(ap, void*);
	va_end(ap);
	if (!mine(fd)) return REAL(ioctl)(fd, req, arg);
	schedPoint("ioctl");
	auto f = getFd(fd, "ioctl");
	if (!f) return -1;
	if (req == FIONREAD) {
		int n = 0;
		if (f->kind == SOCK_CONN) n = f->conn->d[1 - f->end].rcvSize();
		else if (f->kind == PIPE_R) n = f->pipe->data.size();
		else if (f->kind == SOCK_LISTEN) { errno = EINVAL; return -1; }
		*(int*)arg = n;
		ev("fionread", fd, n);
		return 0;
	}
	if (req == FIONBIO) { f->nonblock = *(int*)arg; return 0; }
	errno = ENOTTY;
	return -1;
}
EXPORT int setsockopt(int fd, int level, int name, const void* val, socklen_t len) {
	if (!mine(fd)) return REAL(setsockopt)(fd, level, name, val, len);
	auto f = getFd(fd, "setsockopt");
	if (!f) return -1;
	if (level == SOL_SOCKET && name == SO_LINGER) {
		auto* l = (const linger*)val;
		f->linger0 = l->l_onoff && l->l_linger == 0;
	} else if (level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO)) {
		auto* t = (const timeval*)val;
		(name == SO_RCVTIMEO ? f->rcvTimeo : f->sndTimeo) = t->tv_sec * SEC + t->tv_usec * US;
	}
	return 0;
}
EXPORT int getsockopt(int fd, int level, int name, void* val, socklen_t* len) {
	if (!mine(fd)) return REAL(getsockopt)(fd, level, name, val, len);
	auto f = getFd(fd, "getsockopt");
	if (!f) return -1;
	int v = 0;
	if (level == SOL_SOCKET && name == SO_ERROR && f->kind == SOCK_CONN) { v = f->conn->e[f->end].err; f->conn->e[f->end].err = 0; }
	memcpy(val, &v, std::min<size_t>(*len, sizeof v));
	return 0;
}
static int nameOf(sockaddr* a, socklen_t* len, int port) {
	sockaddr_in s{};
	s.sin_family = AF_INET;
	s.sin_port = htons(port);
	s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	memcpy(a, &s, std::min<size_t>(*len, sizeof s));
	*len = sizeof s;
	return 0;
}
EXPORT int getsockname(int fd, sockaddr* a, socklen_t* len) {
	if (!mine(fd)) return REAL(getsockname)(fd, a, len);
	auto f = getFd(fd, "getsockname");
	if (!f) return -1;
	return nameOf(a, len, f->kind == SOCK_CONN ? (f->end ? f->conn->port : f->conn->clientPort) : f->port);
}
EXPORT int getpeername(int fd, sockaddr* a, socklen_t* len) {
	if (!mine(fd)) return REAL(getpeername)(fd, a, len);
	auto f = getFd(fd, "getpeername");
	if (!f) return -1;
	if (f->kind != SOCK_CONN) { errno = ENOTCONN; return -1; }
	return nameOf(a, len, f->end ? f->conn->clientPort : f->conn->port);
}
static short readiness(int fd, short events) {
	auto it = g_fds.find(fd);
	if (it == g_fds.end()) return POLLNVAL;
	File& f = *it->second;
	short r = 0;
	switch (f.kind) {
	case SOCK_CONN: {
		if (!f.conn->established) break;
		if (f.conn->readable(f.end)) r |= POLLIN;
		if (f.conn->writable(f.end)) r |= POLLOUT;
		End& e = f.conn->e[f.end];
		r &= events;
		if (e.err) r |= POLLERR;
		if (e.gotRst || (f.conn->d[1 - f.end].finDelivered && f.conn->d[f.end].finQueued)) r |= POLLHUP;
		return r;
	}
	case SOCK_LISTEN: if (!f.listener->queue.empty()) r |= POLLIN; break;
	case PIPE_R: if (!f.pipe->data.empty() || !f.pipe->writerOpen) r |= POLLIN; break;
	case PIPE_W: r |= POLLOUT; break;
	case SOCK_FRESH: return POLLHUP | (events & POLLOUT);
	default: r |= POLLIN | POLLOUT;
	}
	return r & (events | POLLERR | POLLHUP);
}
static int pollOnce(pollfd* p, nfds_t n) {
	int c = 0;
	for (nfds_t i = 0; i < n; i++) {
		p[i].revents = p[i].fd < 0 ? 0 : readiness(p[i].fd, p[i].events);
		if (p[i].revents) c++;
	}
	return c;
}
EXPORT int poll(pollfd* p, nfds_t n, int timeout) {
	if (!g_active) return REAL(poll)(p, n, timeout);
	schedPoint("poll");
	int c = pollOnce(p, n);
	if (c == 0 && timeout != 0) {
		if (faultChance(params().eintrPermille, "call.eintr-poll")) { errno = EINTR; return -1; }
		block("poll", n, [p, n] {
			for (nfds_t i = 0; i < n; i++)
				if (p[i].fd >= 0 && readiness(p[i].fd, p[i].events)) return true;
			return false;
		}, timeout < 0 ? INT64_MAX : now() + timeout * MS);
		c = pollOnce(p, n);
	}
	for (nfds_t i = 0; i < n; i++) if (p[i].revents & POLLNVAL) { g_badFd++; g_lastBadFd = "poll(" + std::to_string(p[i].fd) + ")"; }
	ev("poll", n, c);
	return c;
}
EXPORT int ppoll(pollfd* p, nfds_t n, const timespec* t, const sigset_t* s) {
	if (!g_active) return REAL(ppoll)(p, n, t, s);
	return poll(p, n, t ? t->tv_sec * 1000 + t->tv_nsec / 1000000 : -1);
}

// ---- name resolution
// An event loop that is never run: descriptors are registered with it, nothing waits for it
static int standIn(const char* what) {
	schedPoint(what);
	auto f = std::make_shared<File>();
	f->kind = EVENTS;
	int fd = allocFd(f);
	if (fd < 0) { errno = EMFILE; return -1; }
	ev(what, fd);
	return fd;
}
EXPORT int epoll_create1(int flags) noexcept { return g_active ? standIn("epoll_create") : REAL(epoll_create1)(flags); }
EXPORT int epoll_create(int size) noexcept { return g_active ? standIn("epoll_create") : REAL(epoll_create)(size); }
EXPORT int eventfd(unsigned n, int flags) noexcept { return g_active ? standIn("eventfd") : REAL(eventfd)(n, flags); }
EXPORT int timerfd_create(clockid_t clock, int flags) noexcept { return g_active ? standIn("timerfd") : REAL(timerfd_create)(clock, flags); }
EXPORT int timerfd_settime(int fd, int flags, const itimerspec* t, itimerspec* o) noexcept { return mine(fd) ? 0 : REAL(timerfd_settime)(fd, flags, t, o); }
EXPORT int epoll_ctl(int e, int op, int fd, epoll_event* v) noexcept {
	if (!mine(e)) return REAL(epoll_ctl)(e, op, fd, v);
	return getFd(e, "epoll_ctl") && getFd(fd, "epoll_ctl") ? 0 : -1;
}
EXPORT int epoll_wait(int e, epoll_event* v, int n, int timeout) {
	if (!mine(e)) return REAL(epoll_wait)(e, v, n, timeout);
	harnessError("epoll_wait isn't simulated");
}
EXPORT int getaddrinfo(const char* host, const char* service, const addrinfo* hints, addrinfo** res) {
	if (!g_active) return REAL(getaddrinfo)(host, service, hints, res);
	schedPoint("getaddrinfo");
	if (faultChance(params().resolveFailPermille, "net.resolve-failure")) {
		static const int errs[] = {EAI_AGAIN, EAI_NONAME, EAI_FAIL};
		return errs[choose(FAULT, 3)];
	}
	char* endp = nullptr;
	long port = service ? strtol(service, &endp, 10) : 0;
	if (service && *endp) {
		if (!strcmp(service, "http")) port = 80;
		else return EAI_SERVICE;
	}
	auto* a = (addrinfo*)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in));
	auto* s = (sockaddr_in*)(a + 1);
	s->sin_family = AF_INET;
	s->sin_port = htons(port);
	s->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	a->ai_family = AF_INET;
	a->ai_socktype = SOCK_STREAM;
	a->ai_protocol = IPPROTO_TCP;
	a->ai_addrlen = sizeof *s;
	a->ai_addr = (sockaddr*)s;
	*res = a;
	return 0;
}
EXPORT void freeaddrinfo(addrinfo* a) {
	if (!g_active) return REAL(freeaddrinfo)(a);
	free(a);
}

// ---- clocks and sleeping
EXPORT int clock_gettime(clockid_t id, timespec* t) {
	if (!g_active) return REAL(clock_gettime)(id, t);
	schedPoint("clock");
	int64_t v = now() + (id == CLOCK_REALTIME ? 1700000000 * SEC : 1000 * SEC);
	t->tv_sec = v / SEC;
	t->tv_nsec = v % SEC;
	return 0;
}
EXPORT int gettimeofday(timeval* t, void* z) {
	if (!g_active) return REAL(gettimeofday)(t, (struct timezone*)z);
	int64_t v = now() + 1700000000 * SEC;
	t->tv_sec = v / SEC;
	t->tv_usec = v % SEC / US;
	return 0;
}
EXPORT time_t time(time_t* t) {
	if (!g_active) return REAL(time)(t);
	time_t v = 1700000000 + now() / SEC;
	if (t) *t = v;
	return v;
}
EXPORT int nanosleep(const timespec* t, timespec*) {
	if (!g_active) { auto f = real<int (*)(const timespec*, timespec*)>("nanosleep"); return f(t, nullptr); }
	sleepFor(t->tv_sec * SEC + t->tv_nsec);
	return 0;
}
EXPORT int clock_nanosleep(clockid_t id, int flags, const timespec* t, timespec*) {
	if (!g_active) { auto f = real<int (*)(clockid_t, int, const timespec*, timespec*)>("clock_nanosleep"); return f(id, flags, t, nullptr); }
	int64_t v = t->tv_sec * SEC + t->tv_nsec;
	if (flags & TIMER_ABSTIME) v -= now() + (id == CLOCK_REALTIME ? 1700000000 * SEC : 1000 * SEC);
	sleepFor(v);
	return 0;
}
EXPORT int usleep(useconds_t us) {
	if (!g_active) return REAL(usleep)(us);
	sleepFor(int64_t(us) * US);
	return 0;
}
EXPORT int sched_yield() {
	if (!g_active) return REAL(sched_yield)();
	idleSpin();
	return 0;
}

// ---- signals (only SIGPIPE's disposition matters)
EXPORT sighandler_t signal(int sig, sighandler_t h) {
	if (!g_active) return REAL(signal)(sig, h);
	if (sig == SIGPIPE) g_sigpipeIgnored = h != SIG_DFL;
	return SIG_DFL;
}
EXPORT int sigaction(int sig, const struct sigaction* a, struct sigaction* o) {
	if (!g_active) { auto f = real<int (*)(int, const struct sigaction*, struct sigaction*)>("sigaction"); return f(sig, a, o); }
	if (sig == SIGPIPE && a) g_sigpipeIgnored = a->sa_handler != SIG_DFL;
	if (o) memset(o, 0, sizeof *o);
	return 0;
}

// ---- threads
EXPORT int pthread_create(pthread_t* t, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
	if (!g_active) { auto f = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create"); return f(t, attr, fn, arg); }
	schedPoint("pthread_create");
	static int n = 0;
	int id = spawn("thread" + std::to_string(n++), [fn, arg] { fn(arg); });
	*t = (pthread_t)(0x1000 + id * 16);
	return 0;
}
EXPORT int pthread_join(pthread_t t, void** r) {
	if (!g_active) return REAL(pthread_join)(t, r);
	schedPoint("pthread_join");
	sim::join(int((uintptr_t(t) - 0x1000) / 16));
	if (r) *r = nullptr;
	return 0;
}
EXPORT int pthread_detach(pthread_t t) {
	if (!g_active) return REAL(pthread_detach)(t);
	return 0;
}
EXPORT pthread_t pthread_self() noexcept {
	if (!g_active || self() < 0) return REAL(pthread_self)();
	return (pthread_t)(uintptr_t)(0x1000 + self() * 16);
}
EXPORT int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }

// Mutexes keep their state in the pthread objects themselves (zero means free).
struct SimMutex { int owner; int count; int recursive; };
static_assert(sizeof(SimMutex) <= 16);
static int me() { return self() + 2; }
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
	memset((void*)m, 0, sizeof *m);
	if (a) { int type = 0; pthread_mutexattr_gettype(a, &type); if (type == PTHREAD_MUTEX_RECURSIVE) m->__data.__kind = PTHREAD_MUTEX_RECURSIVE; }
	return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
static bool isRecursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) {
	if (!g_active) { m->__data.__count++; return 0; }
	schedPoint("lock");
	int& owner = m->__data.__owner;
	if (owner == me()) {
		if (isRecursive(m)) { m->__data.__count++; return 0; }
		violation("deadlock", std::string(fiberName(self())) + " locks a mutex it already holds");
	}
	while (owner != 0) block("mutex", 0, [m] { return m->__data.__owner == 0; });
	owner = me();
	m->__data.__count = 1;
	acq(m);
	return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
	if (!g_active) { m->__data.__count++; return 0; }
	schedPoint("trylock");
	int& owner = m->__data.__owner;
	if (owner == me() && isRecursive(m)) { m->__data.__count++; return 0; }
	if (owner != 0) return EBUSY;
	owner = me();
	m->__data.__count = 1;
	acq(m);
	return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
	if (!g_active) { m->__data.__count--; return 0; }
	int& owner = m->__data.__owner;
	if (owner != me()) {
		if (owner == 0 && m->__data.__count > 0) { m->__data.__count--; return 0; } // locked before the run
		violation("bad-unlock", std::string(fiberName(self())) + " unlocks a mutex it does not hold");
	}
	rel(m);
	if (--m->__data.__count == 0) owner = 0;
	schedPoint("unlock");
	return 0;
}
// Locks inside libraries that never wait while they hold them; the library isn't what's examined
static bool quietCaller(void* address) {
	static std::vector<std::pair<uintptr_t, uintptr_t>> ranges;
	static bool known = false;
	if (!known) {
		known = true;
		dl_iterate_phdr([] (dl_phdr_info* i, size_t, void*) {
			if (strstr(i->dlpi_name, "libcrypto") || strstr(i->dlpi_name, "libssl"))
				for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) ranges.emplace_back(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz);
			return 0;
		}, nullptr);
	}
	for (auto& [from, to] : ranges) if (uintptr_t(address) >= from && uintptr_t(address) < to) return true;
	return false;
}
#define LOOKED_AT (g_active && !quietCaller(__builtin_return_address(0)))
// rwlock: __readers = number of readers, __writers = owner of the write lock
EXPORT int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset((void*)l, 0, sizeof *l); return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
static bool rwHeldBySelf(pthread_rwlock_t* l) { return l->__data.__writers == unsigned(me()); }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
	if (!LOOKED_AT) { l->__data.__readers++; return 0; }
	schedPoint("rdlock");
	if (rwHeldBySelf(l)) violation("deadlock", std::string(fiberName(self())) + " read-locks a lock it holds for writing");
	while (l->__data.__writers != 0) block("rdlock", 0, [l] { return l->__data.__writers == 0; });
	l->__data.__readers++;
	acq(l, 1);
	return 0;
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
	bool looked = LOOKED_AT;
	if (looked) { schedPoint("tryrdlock"); if (l->__data.__writers != 0) return EBUSY; }
	l->__data.__readers++;
	if (looked) acq(l, 1);
	return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
	if (!LOOKED_AT) { l->__data.__writers = 1; return 0; }
	schedPoint("wrlock");
	if (rwHeldBySelf(l)) violation("deadlock", std::string(fiberName(self())) + " write-locks a lock it already holds");
	auto free = [l] { return l->__data.__writers == 0 && l->__data.__readers == 0; };
	while (!free()) block("wrlock", 0, free);
	l->__data.__writers = me();
	acq(l, 2);
	return 0;
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
	bool looked = LOOKED_AT;
	if (looked) { schedPoint("trywrlock"); if (l->__data.__writers != 0 || l->__data.__readers != 0) return EBUSY; }
	l->__data.__writers = looked ? me() : 1;
	if (looked) acq(l, 2);
	return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) {
	bool looked = LOOKED_AT;
	if (looked) rel(l, l->__data.__writers ? 2 : 1);
	if (l->__data.__writers) l->__data.__writers = 0;
	else if (l->__data.__readers) l->__data.__readers--;
	else if (looked) violation("bad-unlock", "unlock of a free reader-writer lock");
	if (looked) schedPoint("rwunlock");
	return 0;
}
// condition variables: a generation counter per variable
static std::map<void*, uint64_t> g_condGen;
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset((void*)c, 0, sizeof *c); return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t* c) { g_condGen.erase(c); return 0; }
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
	uint64_t gen = g_condGen[c];
	pthread_mutex_unlock(m);
	bool ok = block("cond", 0, [c, gen] { return g_condGen[c] != gen; }, deadline);
	pthread_mutex_lock(m);
	acq(c);
	return ok ? 0 : ETIMEDOUT;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, INT64_MAX); }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
	return condWait(c, m, t->tv_sec * SEC + t->tv_nsec - 1700000000 * SEC);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const timespec* t) {
	return condWait(c, m, t->tv_sec * SEC + t->tv_nsec - (id == CLOCK_REALTIME ? 1700000000 * SEC : 1000 * SEC));
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) { if (g_active) { rel(c); g_condGen[c]++; schedPoint("signal"); } return 0; }
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) { return pthread_cond_signal(c); }

// ================================================================== disk
namespace sim {
struct Node {
	enum Type { DIR_, REG, LINK, FIFO } type = REG;
	std::string content;          // or link target
	std::map<std::string, std::shared_ptr<Node>> children;
	uint64_t large = 0;           // size of a file whose content is a pattern
	bool unreadable = false;
	ino_t ino = 0;
	time_t mtime = 1600000000;
};
static std::shared_ptr<Node> g_root;
static ino_t g_ino = 2;
static std::vector<FsEvent> g_fsEvents;
const std::vector<FsEvent>& fsEvents() { return g_fsEvents; }
static void fsEvent(const char* op, const std::string& path, int err) {
	g_fsEvents.push_back({eventSeq(), op, path, err});
	note("disk %s %s -> %d", op, path.c_str(), err);
}
static std::shared_ptr<Node> makeNode(Node::Type t) {
	auto n = std::make_shared<Node>();
	n->type = t;
	n->ino = g_ino++;
	return n;
}
void fsReset() { g_root = makeNode(Node::DIR_); g_fsEvents.clear(); }
static std::vector<std::string> split(const std::string& path) {
	std::vector<std::string> r;
	std::string cur;
	for (char c : path) {
		if (c == '/') { if (!cur.empty()) r.push_back(cur); cur.clear(); }
		else cur += c;
	}
	if (!cur.empty()) r.push_back(cur);
	return r;
}
// Resolves a path; canonical receives the path with links and dots resolved.
static std::shared_ptr<Node> resolve(const std::string& path, bool follow, int& err, std::string* canonical = nullptr, int depth = 0) {
	if (!g_root) fsReset();
	if (path.find('\0') != std::string::npos) { err = ENOENT; return nullptr; }
	if (path.empty()) { err = ENOENT; return nullptr; }
	if (path.size() > 4096) { err = ENAMETOOLONG; return nullptr; }
	std::vector<std::pair<std::string, std::shared_ptr<Node>>> stack{{"", g_root}};
	auto parts = split(path[0] == '/' ? path : "/cwd/" + path);
	bool trailing = path.back() == '/';
	for (size_t i = 0; i < parts.size(); i++) {
		auto cur = stack.back().second;
		if (cur->type != Node::DIR_) { err = ENOTDIR; return nullptr; }
		if (parts[i] == ".") continue;
		if (parts[i] == "..") { if (stack.size() > 1) stack.pop_back(); continue; }
		if (parts[i].size() > 255) { err = ENAMETOOLONG; return nullptr; }
		auto it = cur->children.find(parts[i]);
		if (it == cur->children.end()) { err = ENOENT; return nullptr; }
		auto next = it->second;
		if (next->type == Node::LINK && (follow || trailing || i + 1 < parts.size())) {
			if (depth > 8) { err = ELOOP; return nullptr; }
			std::string base;
			if (next->content[0] != '/') for (size_t k = 1; k < stack.size(); k++) base += "/" + stack[k].first;
			std::string rest = base + (next->content[0] == '/' ? "" : "/") + next->content;
			for (size_t k = i + 1; k < parts.size(); k++) rest += "/" + parts[k];
			return resolve(rest, follow, err, canonical, depth + 1);
		}
		stack.push_back({parts[i], next});
	}
	if (trailing && stack.back().second->type != Node::DIR_) { err = ENOTDIR; return nullptr; }
	if (canonical) {
		canonical->clear();
		for (size_t k = 1; k < stack.size(); k++) *canonical += "/" + stack[k].first;
		if (canonical->empty()) *canonical = "/";
	}
	err = 0;
	return stack.back().second;
}
static std::pair<std::shared_ptr<Node>, std::string> parentOf(const std::string& path) {
	auto parts = split(path);
	if (!g_root) fsReset();
	auto cur = g_root;
	for (size_t i = 0; i + 1 < parts.size(); i++) {
		auto& n = cur->children[parts[i]];
		if (!n) n = makeNode(Node::DIR_);
		cur = n;
	}
	return {cur, parts.back()};
}
static time_t stampNow() { return 1700000000 + now() / SEC; }
void fsMkdir(const std::string& path) { auto [p, n] = parentOf(path + "/x"); (void)p; }
void fsWrite(const std::string& path, const std::string& content) {
	auto [p, n] = parentOf(path);
	auto& node = p->children[n];
	if (!node || node->type != Node::REG) node = makeNode(Node::REG);
	node->content = content;
	node->large = 0;
	node->mtime = stampNow();
}
void fsWriteLarge(const std::string& path, uint64_t size) {
	auto [p, n] = parentOf(path);
	auto& node = p->children[n];
	if (!node || node->type != Node::REG) node = makeNode(Node::REG);
	node->content.clear();
	node->large = size;
	node->mtime = stampNow();
}
void largeContent(uint64_t offset, char* to, size_t n) {
	static const std::string table = [] { std::string r; for (uint32_t i = 0, x = 12345; i < 8192; i++) { x = x * 1664525 + 1013904223; r += char(x >> 24); } return r; }();
	while (n > 0) {
		size_t in = offset % 4096, k = std::min<size_t>(n, 4096 - in);
		memcpy(to, table.data() + (offset / 4096 * 613) % 4096 + in, k);
		to += k;
		offset += k;
		n -= k;
	}
}
void fsSymlink(const std::string& path, const std::string& target) {
	auto [p, n] = parentOf(path);
	p->children[n] = makeNode(Node::LINK);
	p->children[n]->content = target;
}
void fsSpecial(const std::string& path) { auto [p, n] = parentOf(path); p->children[n] = makeNode(Node::FIFO); }
void fsRemove(const std::string& path) { auto [p, n] = parentOf(path); p->children.erase(n); }
void fsSetUnreadable(const std::string& path, bool u) {
	int e;
	if (auto n = resolve(path, true, e)) n->unreadable = u;
}
bool fsExists(const std::string& path) { int e; return !!resolve(path, true, e); }

static void diskPoint(const char* op, const std::string& path) {
	schedPoint(op);
	if (params().diskYieldPermille && chance(DISK, params().diskYieldPermille)) sleepFor(1 + choose(DISK, 50) * US);
	if (fsHook) fsHook(op, path);
}
static bool diskFault(uint32_t permille, const char* name) {
	if (!params().diskFaults || !faultsAllowed() || !permille || !chance(DISK, permille)) return false;
	fault(name);
	ev(name);
	return true;
}
static void fillStat(const Node& n, struct stat* st) {
	memset(st, 0, sizeof *st);
	st->st_ino = n.ino;
	st->st_nlink = 1;
	st->st_blksize = 4096;
	st->st_mtime = st->st_ctime = st->st_atime = n.mtime;
	switch (n.type) {
	case Node::DIR_: st->st_mode = S_IFDIR | 0755; break;
	case Node::REG: st->st_mode = S_IFREG | 0644; st->st_size = n.large ? n.large : n.content.size(); break;
	case Node::LINK: st->st_mode = S_IFLNK | 0777; st->st_size = n.content.size(); break;
	case Node::FIFO: st->st_mode = S_IFIFO | 0644; break;
	}
}
static int doStat(const std::string& path, struct stat* st, bool follow) {
	diskPoint("stat", path);
	if (diskFault(params().statFailPermille, "disk.stat-error")) {
		static const int errs[] = {EACCES, EIO, ENOMEM};
		int e = errs[choose(DISK, 3)];
		fsEvent("stat", path, e);
		errno = e;
		return -1;
	}
	int e;
	auto n = resolve(path, follow, e);
	fsEvent("stat", path, e);
	if (!n) { errno = e; return -1; }
	fillStat(*n, st);
	return 0;
}
static int doOpen(const std::string& path, int flags) {
	diskPoint("open", path);
	if (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) {
		fsEvent("open-write", path, EROFS);
		errno = EROFS;
		return -1;
	}
	if (diskFault(params().openFailPermille, "disk.open-error")) {
		static const int errs[] = {EACCES, EIO, EMFILE, ENFILE, ENOMEM};
		int e = errs[choose(DISK, 5)];
		fsEvent("open", path, e);
		errno = e;
		return -1;
	}
	int e;
	std::string canonical;
	auto n = resolve(path, true, e, &canonical);
	if (n && n->unreadable) { n = nullptr; e = EACCES; }
	if (n && n->type == Node::FIFO) violation("fifo-open", "opening the FIFO " + path + " would block forever");
	if (n && (flags & O_DIRECTORY) && n->type != Node::DIR_) { n = nullptr; e = ENOTDIR; }
	fsEvent("open", n ? canonical : path, e);
	if (!n) { errno = e; return -1; }
	auto f = std::make_shared<File>();
	f->kind = n->type == Node::DIR_ ? VDIR : VFILE;
	f->node = n;
	f->path = canonical;
	int fd = allocFd(f);
	if (fd < 0) { errno = EMFILE; return -1; }
	return fd;
}
ssize_t vfileRead(FileP f, void* buf, size_t n) {
	if (f->node->large && f->offset > 100000 && f->offset + 100000 < f->node->large) { // the middle isn't worth recording
		size_t k = std::min<size_t>(n, 50000);
		largeContent(f->offset, static_cast<char*>(buf), k);
		f->offset += k;
		return k;
	}
	diskPoint("read", f->path);
	if (f->node->type == Node::DIR_) { errno = EISDIR; return -1; }
	if (diskFault(params().readFailPermille, "disk.read-error")) {
		fsEvent("read", f->path, EIO);
		errno = EIO;
		return -1;
	}
	auto& c = f->node->content;
	size_t size = f->node->large ? f->node->large : c.size();
	size_t avail = f->offset < size ? size - f->offset : 0;
	size_t k = std::min(n, avail);
	if (k > 1 && diskFault(params().shortReadPermille, "disk.short-read")) k = 1 + choose(DISK, k - 1);
	if (f->node->large) largeContent(f->offset, static_cast<char*>(buf), k);
	else memcpy(buf, c.data() + f->offset, k);
	f->offset += k;
	ev("fread", k, f->offset);
	return k;
}
static int64_t vfileSeek(FileP f, int64_t off, int whence) {
	int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? f->offset : f->node->large ? f->node->large : f->node->content.size();
	if (base + off < 0) { errno = EINVAL; return -1; }
	f->offset = base + off;
	return f->offset;
}
static std::string atPath(int dirfd, const char* path) {
	if (path[0] != '/' && dirfd != AT_FDCWD) {
		auto it = g_fds.find(dirfd);
		if (it != g_fds.end()) return it->second->path + "/" + path;
	}
	return path;
}
struct SimDir {
	uint64_t magic = 0x5349d1;
	int fd = -1;
	std::vector<std::pair<std::string, unsigned char>> entries;
	size_t pos = 0;
	dirent ent;
};
static SimDir* openDirFd(int fd) {
	auto f = g_fds[fd];
	auto* d = new SimDir;
	d->fd = fd;
	d->entries.push_back({".", DT_DIR});
	d->entries.push_back({"..", DT_DIR});
	for (auto& c : f->node->children) {
		unsigned char t = c.second->type == Node::DIR_ ? DT_DIR : c.second->type == Node::REG ? DT_REG : c.second->type == Node::LINK ? DT_LNK : DT_FIFO;
		d->entries.push_back({c.first, params().unknownDtype ? (unsigned char)DT_UNKNOWN : t});
	}
	for (size_t i = d->entries.size(); i > 1; i--) std::swap(d->entries[i - 1], d->entries[choose(DISK, i)]); // directory order is arbitrary
	return d;
}
static std::map<FILE*, int> g_streams;
static FILE* streamFor(int fd) {
	struct Cookie { int fd; };
	auto* c = new Cookie{fd};
	cookie_io_functions_t io{};
	io.read = [](void* p, char* b, size_t n) -> ssize_t { return read(((Cookie*)p)->fd, b, n); };
	io.seek = [](void* p, off64_t* o, int w) -> int {
		auto it = g_fds.find(((Cookie*)p)->fd);
		if (it == g_fds.end()) return -1;
		int64_t r = vfileSeek(it->second, *o, w);
		if (r < 0) return -1;
		*o = r;
		return 0;
	};
	io.close = [](void* p) -> int { auto* c = (Cookie*)p; int r = close(c->fd); delete c; return r; };
	FILE* f = fopencookie(c, "r", io);
	g_streams[f] = fd;
	return f;
}
} // namespace sim

EXPORT int stat(const char* p, struct stat* st) noexcept { if (!g_active) return REAL(stat)(p, st); return doStat(p, st, true); }
EXPORT int lstat(const char* p, struct stat* st) noexcept { if (!g_active) return REAL(lstat)(p, st); return doStat(p, st, false); }
EXPORT int stat64(const char* p, struct stat64* st) noexcept { if (!g_active) return REAL(stat64)(p, st); return doStat(p, (struct stat*)st, true); }
EXPORT int lstat64(const char* p, struct stat64* st) noexcept { if (!g_active) return REAL(lstat64)(p, st); return doStat(p, (struct stat*)st, false); }
EXPORT int fstat(int fd, struct stat* st) noexcept {
	if (!mine(fd)) return REAL(fstat)(fd, st);
	auto f = getFd(fd, "fstat");
	if (!f) return -1;
	if (f->node) fillStat(*f->node, st);
	else { memset(st, 0, sizeof *st); st->st_mode = S_IFSOCK; }
	return 0;
}
EXPORT int fstat64(int fd, struct stat64* st) noexcept { if (!mine(fd)) return REAL(fstat64)(fd, st); return fstat(fd, (struct stat*)st); }
EXPORT int fstatat(int dfd, const char* p, struct stat* st, int flags) noexcept {
	if (!g_active) return REAL(fstatat)(dfd, p, st, flags);
	return doStat(atPath(dfd, p), st, !(flags & AT_SYMLINK_NOFOLLOW));
}
EXPORT int access(const char* p, int mode) noexcept {
	if (!g_active) return REAL(access)(p, mode);
	int e;
	auto n = resolve(p, true, e);
	if (n && n->unreadable && (mode & R_OK)) { n = nullptr; e = EACCES; }
	if (!n) { errno = e; return -1; }
	return 0;
}
EXPORT int open(const char* p, int flags, ...) {
	va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
	if (!g_active) return REAL(open)(p, flags, mode);
	return doOpen(p, flags);
}
EXPORT int open64(const char* p, int flags, ...) {
	va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
	if (!g_active) return REAL(open64)(p, flags, mode);
	return doOpen(p, flags);
}
EXPORT int openat(int dfd, const char* p, int flags, ...) {
	va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
	if (!g_active) return REAL(openat)(dfd, p, flags, mode);
	return doOpen(atPath(dfd, p), flags);
}
EXPORT int __openat_2(int dfd, const char* p, int flags) {
	if (!g_active) { auto f = real<int (*)(int, const char*, int)>("__openat_2"); return f(dfd, p, flags); }
	return doOpen(atPath(dfd, p), flags);
}
EXPORT FILE* fopen(const char* p, const char* mode) {
	if (!g_active) return REAL(fopen)(p, mode);
	int fd = doOpen(p, mode[0] == 'r' && !strchr(mode, '+') ? O_RDONLY : O_RDWR);
	return fd < 0 ? nullptr : streamFor(fd);
}
EXPORT FILE* fopen64(const char* p, const char* mode) { if (!g_active) return REAL(fopen64)(p, mode); return fopen(p, mode); }
EXPORT int fileno(FILE* f) noexcept {
	auto it = g_streams.find(f);
	if (g_active && it != g_streams.end()) return it->second;
	return REAL(fileno)(f);
}
EXPORT int fclose(FILE* f) {
	if (g_active) g_streams.erase(f);
	return REAL(fclose)(f);
}
EXPORT off_t lseek(int fd, off_t off, int whence) noexcept {
	if (!mine(fd)) return REAL(lseek)(fd, off, whence);
	auto f = getFd(fd, "lseek");
	if (!f) return -1;
	if (f->kind != VFILE) { errno = ESPIPE; return -1; }
	return vfileSeek(f, off, whence);
}
EXPORT off64_t lseek64(int fd, off64_t off, int whence) noexcept { if (!mine(fd)) return REAL(lseek64)(fd, off, whence); return lseek(fd, off, whence); }
EXPORT ssize_t readlink(const char* p, char* buf, size_t n) noexcept {
	if (!g_active) return REAL(readlink)(p, buf, n);
	int e;
	auto node = resolve(p, false, e);
	if (!node) { errno = e; return -1; }
	if (node->type != Node::LINK) { errno = EINVAL; return -1; }
	n = std::min(n, node->content.size());
	memcpy(buf, node->content.data(), n);
	return n;
}
EXPORT char* realpath(const char* p, char* out) noexcept {
	if (!g_active) { auto f = real<char* (*)(const char*, char*)>("realpath"); return f(p, out); }
	int e;
	std::string canonical;
	if (!resolve(p, true, e, &canonical)) { errno = e; return nullptr; }
	if (!out) out = (char*)malloc(4097);
	strcpy(out, canonical.c_str());
	return out;
}
EXPORT char* getcwd(char* buf, size_t n) noexcept {
	if (!g_active) return REAL(getcwd)(buf, n);
	if (!buf) buf = (char*)malloc(n ? n : 16);
	strcpy(buf, "/cwd");
	return buf;
}
EXPORT DIR* fdopendir(int fd) {
	if (!mine(fd)) return REAL(fdopendir)(fd);
	auto f = getFd(fd, "fdopendir");
	if (!f) return nullptr;
	if (f->kind != VDIR) { errno = ENOTDIR; return nullptr; }
	return (DIR*)openDirFd(fd);
}
EXPORT DIR* opendir(const char* p) {
	if (!g_active) return REAL(opendir)(p);
	int fd = doOpen(p, O_RDONLY | O_DIRECTORY);
	return fd < 0 ? nullptr : (DIR*)openDirFd(fd);
}
EXPORT dirent* readdir(DIR* dp) {
	if (!g_active) return REAL(readdir)(dp);
	auto* d = (SimDir*)dp;
	diskPoint("readdir", g_fds[d->fd]->path);
	if (diskFault(params().readFailPermille, "disk.readdir-error")) {
		fsEvent("readdir", g_fds[d->fd]->path, EIO);
		errno = EIO;
		return nullptr;
	}
	if (d->pos >= d->entries.size()) return nullptr;
	auto& e = d->entries[d->pos++];
	memset(&d->ent, 0, sizeof d->ent);
	strncpy(d->ent.d_name, e.first.c_str(), sizeof d->ent.d_name - 1);
	d->ent.d_type = e.second;
	d->ent.d_reclen = sizeof d->ent;
	return &d->ent;
}
EXPORT dirent64* readdir64(DIR* dp) {
	if (!g_active) return REAL(readdir64)(dp);
	return (dirent64*)readdir(dp);
}
EXPORT int closedir(DIR* dp) {
	if (!g_active) return REAL(closedir)(dp);
	auto* d = (SimDir*)dp;
	close(d->fd);
	delete d;
	return 0;
}
EXPORT int dirfd(DIR* dp) noexcept {
	if (!g_active) return REAL(dirfd)(dp);
	return ((SimDir*)dp)->fd;
}
#define FORBID(NAME, PATH) violation("fs-write", std::string(#NAME) + " of " + (PATH))
EXPORT int unlinkat(int d, const char* p, int f) noexcept { if (!g_active) return REAL(unlinkat)(d, p, f); FORBID(unlinkat, p); }
EXPORT int remove(const char* p) noexcept { if (!g_active) return REAL(remove)(p); FORBID(remove, p); }
EXPORT int unlink(const char* p) noexcept { if (!g_active) return REAL(unlink)(p); FORBID(unlink, p); }
EXPORT int rename(const char* p, const char* q) noexcept { if (!g_active) return REAL(rename)(p, q); FORBID(rename, p); }
EXPORT int mkdir(const char* p, mode_t m) noexcept { if (!g_active) return REAL(mkdir)(p, m); FORBID(mkdir, p); }
