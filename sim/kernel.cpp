// Simulation kernel.  See kernel.hpp.  Compiled without sanitizer instrumentation.
#include "kernel.hpp"
#include "internal.hpp"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <deque>
#include <set>
#include <memory>
#include <queue>
#include <algorithm>
#include <unordered_map>
#include <sys/mman.h>
#include <cxxabi.h>
#include <typeinfo>
#include <exception>

extern "C" {
void __sanitizer_start_switch_fiber(void** fake_stack_save, const void* bottom, size_t size) __attribute__((weak));
void __sanitizer_finish_switch_fiber(void* fake_stack_save, const void** bottom_old, size_t* size_old) __attribute__((weak));
}
#include <link.h>
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace sim {

Shared* g_shared = nullptr;
bool g_active = false;
bool g_logText = false;
static Params g_params;
static bool g_faultsAllowed = true;
std::function<void(const std::string&, const std::string&)> fsHook;

Params& params() { return g_params; }
void allowFaults(bool on) { g_faultsAllowed = on; ev("faults", on); }
bool faultsAllowed() { return g_faultsAllowed; }
bool active() { return g_active; }

// ------------------------------------------------------------------ choices
struct Prng { // xoshiro256**
	uint64_t s[4];
	static uint64_t splitmix(uint64_t& x) {
		uint64_t z = (x += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	void seed(uint64_t v) { for (auto& it : s) it = splitmix(v); }
	static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
	uint64_t next() {
		uint64_t result = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
		s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
		return result;
	}
};
static Prng g_prng[NSTREAMS];
static const std::vector<uint32_t>* g_replay = nullptr; // array of NSTREAMS
static uint32_t g_pos[NSTREAMS];
uint64_t g_inRace = 0;

static void record(Stream s, uint32_t v) {
	uint32_t& n = g_shared->nChoices[s];
	if (n < MAX_CHOICES) g_shared->choices[s][n] = v;
	n++;
}
uint32_t choose(Stream s, uint32_t n) {
	if (n <= 1) return 0;
	uint32_t v;
	if (g_replay) {
		uint32_t p = g_pos[s]++;
		v = p < g_replay[s].size() ? g_replay[s][p] : 0;
		if (v >= n) v = n - 1;
	} else v = uint32_t((unsigned __int128)(g_prng[s].next()) * n >> 64);
	record(s, v);
	return v;
}
bool chance(Stream s, uint32_t num, uint32_t den) {
	if (num == 0) return false;
	uint32_t v;
	if (g_replay) {
		uint32_t p = g_pos[s]++;
		v = p < g_replay[s].size() ? (g_replay[s][p] != 0) : 0;
	} else v = uint32_t((unsigned __int128)(g_prng[s].next()) * den >> 64) < num;
	record(s, v);
	return v;
}
void initChoices(uint64_t seed, const std::vector<uint32_t>* replay) {
	for (int i = 0; i < NSTREAMS; i++) {
		g_prng[i].seed(seed * 0x9e3779b97f4a7c15ull + 0x1234567 + i * 7919);
		g_pos[i] = 0;
	}
	g_replay = replay;
}

// ------------------------------------------------------------------ log
static int64_t g_now = 0;
static uint64_t g_evSeq = 0;
static void mix(uint64_t& h, uint64_t v) { h ^= v; h *= 0x100000001b3ull; h ^= h >> 29; }
static void logText(const char* text, size_t n) {
	if (!g_logText) return;
	auto& len = g_shared->logLen;
	if (len + n + 1 < MAX_LOG) {
		memcpy(g_shared->log + len, text, n);
		len += n;
		g_shared->log[len++] = '\n';
	}
}
void ev(const char* kind, int64_t a, int64_t b, int64_t c) {
	g_evSeq++;
	uint64_t& h = g_shared->hash;
	for (const char* p = kind; *p; p++) mix(h, uint8_t(*p));
	mix(h, g_now); mix(h, a); mix(h, b); mix(h, c);
	if (g_logText) {
		char buf[200];
		int n = snprintf(buf, sizeof buf, "[%12.3f us] #%llu %s: %s %lld %lld %lld", g_now / 1000.0, (unsigned long long)g_evSeq,
				fiberName(self()), kind, (long long)a, (long long)b, (long long)c);
		logText(buf, n);
	}
}
static void sched(const char* kind) { // coarse measure of the interleaving
	uint64_t& h = g_shared->schedHash;
	mix(h, self());
	for (const char* p = kind; *p; p++) mix(h, uint8_t(*p));
}
void note(const char* fmt, ...) {
	char buf[600];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (n > int(sizeof buf) - 1) n = sizeof buf - 1;
	g_evSeq++;
	for (int i = 0; i < n; i++) mix(g_shared->hash, uint8_t(buf[i]));
	if (g_logText) {
		char line[800];
		int m = snprintf(line, sizeof line, "[%12.3f us] #%llu %s: %s", g_now / 1000.0, (unsigned long long)g_evSeq, fiberName(self()), buf);
		logText(line, std::min<int>(m, sizeof line - 1));
	}
}
void count(const char* name, uint64_t by) {
	auto& s = *g_shared;
	for (uint32_t i = 0; i < s.nCounters; i++)
		if (!strncmp(s.counters[i].name, name, sizeof s.counters[i].name - 1)) {
			s.counters[i].value += by;
			return;
		}
	if (s.nCounters < MAX_COUNTERS) {
		auto& c = s.counters[s.nCounters++];
		strncpy(c.name, name, sizeof c.name - 1);
		c.value = by;
	}
}
void nontrivial() { g_shared->nontrivial = 1; }
static void setStatus(Status st, const std::string& cls, const std::string& msg) {
	auto& s = *g_shared;
	if (s.status != RUNNING) return;
	strncpy(s.cls, cls.c_str(), sizeof s.cls - 1);
	strncpy(s.msg, msg.c_str(), sizeof s.msg - 1);
	s.simTime = g_now;
	s.status = st;
}
void violation(const std::string& cls, const std::string& message) {
	note("VIOLATION %s: %s", cls.c_str(), message.c_str());
	setStatus(VIOLATED, cls, message);
	quickExit(3);
}
void harnessError(const std::string& message) {
	setStatus(HARNESS_ERROR, "harness", message);
	quickExit(4);
}
void finishRun() {
	setStatus(PASSED, "", "");
	quickExit(0);
}

// ------------------------------------------------------------------ events and fibers
struct Event { int64_t at; uint64_t seq; std::function<void()> f; };
struct EventLater { bool operator()(const Event& a, const Event& b) const { return a.at != b.at ? a.at > b.at : a.seq > b.seq; } };
static std::priority_queue<Event, std::vector<Event>, EventLater> g_events(EventLater(), [] { std::vector<Event> v; v.reserve(8192); return v; }());
static uint64_t g_eventSeq = 0;

constexpr size_t STACK = 512 * 1024;
struct Fiber {
	int id;
	int proc;
	std::string name;
	std::function<void()> body;
	void* sp = nullptr;
	char* stack = nullptr;
	size_t stackSize = STACK;
	void* fakeStack = nullptr;
	bool done = false, killed = false;
	bool quiescing = false;
	std::function<bool()> ready;   // empty: runnable
	bool blocked = false;
	const char* what = "";
	int64_t whatArg = 0;
	int64_t deadline = INT64_MAX;
	int savedErrno = 0;
	char eh[16] = {};
	Fiber* prev = nullptr;
	uint64_t waits = 0;
	std::string tls;
};
static std::vector<std::unique_ptr<Fiber>> g_fibers;
// Set while the kernel runs closures of the scenario, whose memory accesses are not those of a simulated thread
int g_kernelDepth = 0;
struct InKernel { InKernel() { g_kernelDepth++; } ~InKernel() { g_kernelDepth--; } };
// The thread_local variables of the executable, swapped when fibers are switched
static char* g_tls = nullptr;
static size_t g_tlsSize = 0;
static const char* g_tlsImage = nullptr;
static size_t g_tlsImageSize = 0;
static int findTls(dl_phdr_info* info, size_t, void*) {
	for (int i = 0; i < info->dlpi_phnum; i++)
		if (info->dlpi_phdr[i].p_type == PT_TLS && info->dlpi_tls_data) {
			g_tls = (char*)info->dlpi_tls_data;
			g_tlsSize = info->dlpi_phdr[i].p_memsz;
			g_tlsImage = (const char*)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr);
			g_tlsImageSize = info->dlpi_phdr[i].p_filesz;
		}
	return 1; // only the executable
}
bool inTls(const void* p) { return (const char*)p >= g_tls && (const char*)p < g_tls + g_tlsSize; }
static Fiber* g_current = nullptr;
static uint64_t g_steps = 0;

int64_t now() { return g_now; }
uint64_t eventSeq() { return g_evSeq; }
int self() { return g_current ? g_current->id : -1; }
int selfProc() { return g_current ? g_current->proc : 0; }
const char* fiberName(int id) { return id >= 0 && id < int(g_fibers.size()) ? g_fibers[id]->name.c_str() : "kernel"; }
uint64_t waitCount() { return g_current ? g_current->waits : 0; }
bool fiberDone(int id) { return g_fibers[id]->done; }
std::string fiberState(int id) {
	Fiber& f = *g_fibers[id];
	if (f.done) return "done";
	if (f.killed) return "killed";
	if (!f.blocked) return "runnable";
	return std::string("blocked in ") + f.what + "(" + std::to_string(f.whatArg) + ")";
}
void after(int64_t ns, std::function<void()> f) {
	InKernel inKernel;
	 g_events.push(Event{g_now + ns, g_eventSeq++, std::move(f)}); }
void at(int64_t t, std::function<void()> f) { g_events.push(Event{std::max(t, g_now), g_eventSeq++, std::move(f)}); }

extern "C" void sim_switch(void** saveSp, void* newSp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_switch,.-sim_switch
)");

static void switchTo(Fiber* next) {
	Fiber* from = g_current;
	if (next == from) return;
	from->savedErrno = errno;
	memcpy(from->eh, __cxxabiv1::__cxa_get_globals(), 16);
	if (g_tlsSize) from->tls.assign(g_tls, g_tlsSize);
	next->prev = from;
	g_current = next;
	if (__sanitizer_start_switch_fiber)
		__sanitizer_start_switch_fiber(from->done ? nullptr : &from->fakeStack, next->stack, next->stackSize);
	if (race::onSwitch) race::onSwitch(next->id);
	sim_switch(&from->sp, next->sp);
	// back in `from`
	if (__sanitizer_finish_switch_fiber)
		__sanitizer_finish_switch_fiber(g_current->fakeStack, nullptr, nullptr);
	memcpy(__cxxabiv1::__cxa_get_globals(), g_current->eh, 16);
	if (g_tlsSize) memcpy(g_tls, g_current->tls.data(), g_tlsSize);
	errno = g_current->savedErrno;
}

static Fiber* pickNext(bool mayStay);
static void runBody(Fiber* f) noexcept { f->body(); }
static void fiberMain() {
	if (__sanitizer_finish_switch_fiber)
		__sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
	memset(__cxxabiv1::__cxa_get_globals(), 0, 16);
	if (g_tlsSize && g_current->id != 0) {
		memcpy(g_tls, g_tlsImage, g_tlsImageSize);
		memset(g_tls + g_tlsImageSize, 0, g_tlsSize - g_tlsImageSize);
	}
	Fiber* f = g_current;
	errno = 0;
	runBody(f);
	f->done = true;
	ev("exit", f->id);
	if (race::onExit) race::onExit(f->id);
	if (f->id == 0) finishRun();
	Fiber* next = pickNext(false);
	switchTo(next);
	__builtin_trap();
}
extern "C" void sim_fiber_entry();
asm(R"(
.text
.globl sim_fiber_entry
.type sim_fiber_entry,@function
sim_fiber_entry:
	.cfi_startproc
	.cfi_undefined rip
	xorl %ebp, %ebp
	call *%rbx
	ud2
	.cfi_endproc
.size sim_fiber_entry,.-sim_fiber_entry
)");

static int newFiber(const std::string& name, std::function<void()> body, int proc) {
	auto f = std::make_unique<Fiber>();
	f->id = g_fibers.size();
	f->proc = proc;
	f->name = name;
	f->body = std::move(body);
	char* mem = (char*)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (mem == MAP_FAILED) harnessError("mmap of a fiber stack failed");
	mprotect(mem, 4096, PROT_NONE);
	f->stack = mem + 4096;
	uintptr_t* top = (uintptr_t*)(f->stack + STACK);
	top -= 2; // alignment
	*--top = (uintptr_t)&sim_fiber_entry; // return address
	*--top = 0; // rbp
	*--top = (uintptr_t)&fiberMain; // rbx
	for (int i = 0; i < 4; i++) *--top = 0;
	f->sp = top;
	int id = f->id;
	g_fibers.push_back(std::move(f));
	if (race::onSpawn) race::onSpawn(self(), id);
	ev("spawn", id);
	return id;
}
int spawn(const std::string& name, std::function<void()> body) { return newFiber(name, std::move(body), selfProc()); }
static int g_nextProc = 1;
int spawnProcess(const std::string& name, std::function<void()> body) { return newFiber(name, std::move(body), g_nextProc++); }
void killProcessOf(int fiber) {
	int proc = g_fibers[fiber]->proc;
	for (auto& f : g_fibers)
		if (f->proc == proc && !f->done) f->killed = true;
	closeAllOfProc(proc);
	ev("kill", fiber);
	if (g_current->killed) { yieldNow(); }
}

static void processDueEvents() {
	InKernel inKernel;
	while (!g_events.empty() && g_events.top().at <= g_now) {
		auto f = std::move(const_cast<Event&>(g_events.top()).f);
		g_events.pop();
		f();
	}
}
static bool isRunnable(Fiber& f) {
	if (f.done || f.killed) return false;
	if (!f.blocked) return true;
	if (f.quiescing) return false;
	return f.deadline <= g_now || (f.ready && f.ready());
}
static void stepCheck() {
	if (++g_steps == g_params.maxSteps) { // liveness: progress is due once faults and delays stop
		ev("calm", 0);
		g_faultsAllowed = false;
		g_params.minDelay = g_params.maxDelay = 1 * US;
		g_params.segMode = 0;
		g_params.sndBuf = std::max<size_t>(g_params.sndBuf, 1 << 16);
		g_params.rcvBuf = std::max<size_t>(g_params.rcvBuf, 1 << 16);
	}
	if (g_steps > 2 * g_params.maxSteps) {
		std::string desc;
		for (auto& f : g_fibers) if (!f->done && !f->killed) desc += f->name + " " + fiberState(f->id) + "; ";
		violation("livelock", "no end after " + std::to_string(g_steps) + " steps: " + desc);
	}
	g_shared->steps = g_steps;
}
static void hang() {
	std::string desc;
	for (auto& f : g_fibers) if (!f->done && !f->killed) desc += f->name + " " + fiberState(f->id) + "; ";
	violation("hang", "nothing can make progress any more: " + desc);
}
// Chooses the next fiber to run, letting simulated time pass if none can run.
static Fiber* pickNext(bool mayStay) {
	InKernel inKernel;
	while (true) {
		processDueEvents();
		Fiber* candidates[64];
		uint32_t n = 0;
		for (auto& f : g_fibers)
			if (n < 64 && (mayStay || f.get() != g_current) && isRunnable(*f)) candidates[n++] = f.get();
		if (n) {
			Fiber* c = candidates[choose(SCHED, n)];
			return c;
		}
		int64_t next = g_events.empty() ? INT64_MAX : g_events.top().at;
		for (auto& f : g_fibers)
			if (!f->done && !f->killed && f->blocked && !f->quiescing && (mayStay || f.get() != g_current)) next = std::min(next, f->deadline);
		if (next == INT64_MAX) {
			for (auto& f : g_fibers)
				if (f->quiescing && f->blocked && !f->done && !f->killed) return f.get();
			hang();
		}
		stepCheck();
		g_now = std::max(g_now, next);
	}
}
// Block the current fiber until ready() or deadline; returns whether ready.
bool block(const char* what, int64_t arg, const std::function<bool()>& ready, int64_t deadline) {
	Fiber* f = g_current;
	sched(what);
	{
		InKernel inKernel;
		if (ready && ready()) return true;
		f->ready = ready;
	}
	f->blocked = true;
	f->waits++;
	f->what = what;
	f->whatArg = arg;
	f->deadline = deadline;
	stepCheck();
	Fiber* next = pickNext(true);
	if (next != f) {
		ev("switch", next->id);
		switchTo(next);
	}
	f->blocked = false;
	f->deadline = INT64_MAX;
	InKernel inKernel;
	bool ok = f->ready && f->ready();
	f->ready = nullptr;
	return ok;
}
void schedPoint(const char* what) {
	if (!g_active || !g_current) return;
	g_now += g_params.tick;
	stepCheck();
	sched(what);
	processDueEvents();
	if (g_current->killed) {
		Fiber* next = pickNext(false);
		switchTo(next);
		__builtin_trap();
	}
	if (g_params.preemptPermille && g_fibers.size() > 1 && chance(SCHED, g_params.preemptPermille)) {
		uint32_t n = 0;
		Fiber* candidates[64];
		for (auto& f : g_fibers)
			if (n < 64 && f.get() != g_current && isRunnable(*f)) candidates[n++] = f.get();
		if (n) {
			Fiber* next = candidates[choose(SCHED, n)];
			ev("preempt", next->id);
			switchTo(next);
		}
	}
}
static uint32_t g_untilPreempt = 0;
void memoryAccessPoint() {
	if (g_kernelDepth || !g_params.memPreempt || g_fibers.size() < 2) return;
	if (g_untilPreempt > 1) { g_untilPreempt--; return; }
	if (g_untilPreempt == 1) {
		g_untilPreempt = 0;
		preemptNow();
	}
	uint32_t k = choose(SCHED, g_params.memPreemptEvery);
	g_untilPreempt = k ? k : 1000000000;
}
void preemptNow() {
	uint32_t n = 0;
	Fiber* candidates[64];
	processDueEvents();
	for (auto& f : g_fibers)
		if (n < 64 && f.get() != g_current && isRunnable(*f)) candidates[n++] = f.get();
	if (n) {
		Fiber* next = candidates[choose(SCHED, n)];
		ev("mpreempt", next->id);
		switchTo(next);
	}
}
void yieldNow() { schedPoint("yield"); }
void idleSpin() { sleepFor(g_params.tick * 20); }
void sleepFor(int64_t ns) { block("sleep", ns, nullptr, g_now + std::max<int64_t>(ns, 1)); }
void join(int fiber) {
	block("join", fiber, [fiber] { return g_fibers[fiber]->done; }, INT64_MAX);
	if (race::onJoin) race::onJoin(self(), fiber);
}
void quiesce() {
	Fiber* f = g_current;
	f->quiescing = f->blocked = true;
	f->what = "quiesce";
	Fiber* next = pickNext(false);
	if (next != f) switchTo(next);
	f->quiescing = f->blocked = false;
}
bool waitUntil(std::function<bool()> pred, int64_t ns, int64_t) {
	bool ok = block("waitUntil", ns, pred, g_now + ns);
	InKernel inKernel;
	return ok || pred();
}

static void onTerminate() {
	std::string cls = "terminate", msg = "std::terminate called in fiber " + std::string(fiberName(self()));
	std::type_info* t = abi::__cxa_current_exception_type();
	if (t) {
		int st = 0;
		char* name = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
		cls += std::string(":") + (name ? name : t->name());
		try { throw; }
		catch (std::exception& e) { msg += std::string(": uncaught ") + (name ? name : "exception") + ": " + e.what(); }
		catch (...) { msg += ": uncaught exception"; }
	}
	violation(cls, msg);
}
void runScenario(void (*run)()) {
	std::set_terminate(onTerminate);
	Fiber kernel;
	kernel.id = -1;
	kernel.proc = 0;
	kernel.name = "kernel";
	g_current = &kernel;
	dl_iterate_phdr(findTls, nullptr);
	newFiber("main", [run] { run(); }, 0);
	g_active = true;
	if (race::onStart) race::onStart();
	switchTo(g_fibers[0].get());
	harnessError("kernel fiber resumed");
}

// ------------------------------------------------------------------ memory
static size_t g_live = 0, g_peak = 0, g_limit = size_t(400) << 20;
static bool g_memBusy = false;
size_t liveBytes() { return g_live; }
size_t peakBytes(bool restart) { size_t r = g_peak; if (restart) g_peak = g_live; return r; }
void setMemoryLimit(size_t b) { g_limit = b; }
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*) __attribute__((weak));
void onMalloc(const volatile void*, size_t n) {
	if (!g_active) return;
	g_live += n;
	if (g_live > g_peak) g_peak = g_live;
	if (g_live > g_limit && !g_memBusy) {
		g_memBusy = true;
		violation("memory", "more than " + std::to_string(g_limit) + " bytes allocated");
	}
}
void onFree(const volatile void* p) {
	if (!g_active || !p || !__sanitizer_get_allocated_size) return;
	size_t n = __sanitizer_get_allocated_size(p);
	g_live = n > g_live ? 0 : g_live - n;
}

} // namespace sim
