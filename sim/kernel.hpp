// Deterministic simulation kernel: fibers, simulated clock, simulated TCP, simulated disk,
// seeded choice streams, fault injection, event log.  Interposes libc symbols, see kernel.cpp.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <string_view>
#include <vector>
#include <functional>
#include <map>

namespace sim {

// ---- choices -------------------------------------------------------------------------------
// Every nondeterministic decision is drawn from one of these streams.  In search mode each stream
// is a PRNG derived from (seed, stream); in replay mode it is a recorded list, and 0 (the simplest
// option: no fault, no preemption, no delay) once the list is exhausted.
enum Stream { WORK, SCHED, NET, FAULT, DISK, NSTREAMS };
uint32_t choose(Stream s, uint32_t n);                     // uniform in [0, n)
bool chance(Stream s, uint32_t num, uint32_t den = 1000);  // true with probability num/den
inline int64_t range(Stream s, int64_t lo, int64_t hi) { return lo + choose(s, uint32_t(hi - lo + 1)); }
template <typename T> const T& pick(Stream s, const std::vector<T>& v) { return v[choose(s, uint32_t(v.size()))]; }

// ---- time and fibers -----------------------------------------------------------------------
constexpr int64_t US = 1000, MS = 1000 * US, SEC = 1000 * MS;
int64_t now();                                             // simulated ns since the start of the run
uint64_t eventSeq();                                       // global event sequence number
void sleepFor(int64_t ns);
void yieldNow();                                           // a scheduling point
void idleSpin();                                           // scheduling point that lets time pass (for polling loops)
int spawn(const std::string& name, std::function<void()> body);
void join(int fiber);
int self();
const char* fiberName(int id);
void after(int64_t ns, std::function<void()> f);           // run f in the kernel at now()+ns
bool fiberDone(int id);
uint64_t waitCount();                                      // how often the calling fiber has had to wait for something
std::string fiberState(int id);                            // what it is blocked in
// Runs until no fiber is runnable and no event is pending, from the calling fiber's point of view.
void quiesce();
// Blocks the calling fiber until pred() holds or `ns` of simulated time passed; returns pred().
bool waitUntil(std::function<bool()> pred, int64_t ns, int64_t pollEvery = 200 * US);

// ---- reporting -----------------------------------------------------------------------------
[[noreturn]] void violation(const std::string& cls, const std::string& message);
[[noreturn]] void harnessError(const std::string& message);
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // event log line
void count(const char* name, uint64_t by = 1);             // statistics: fault kinds fired, probes hit
inline void fault(const char* name) { count((std::string("fault.") + name).c_str()); }
inline void probe(const char* name) { count((std::string("probe.") + name).c_str()); }
void nontrivial();                                         // marks this run as non-trivial

// ---- parameters of the run (set by the scenario from WORK/FAULT choices, "swarm") ----------
struct Params {
	uint32_t preemptPermille = 100;     // chance to switch fiber at a scheduling point
	// network
	int segMode = 0;                    // 0 whole, 1 random, 2 tiny, 3 mixed
	int64_t minDelay = 1 * US, maxDelay = 100 * US;
	size_t sndBuf = 1 << 20, rcvBuf = 1 << 20;
	uint32_t stallPermille = 0;         // per segment: long delay
	int64_t stallMax = 2 * SEC;
	// faults
	uint32_t resetPermille = 0;         // per new connection: it will be reset after some bytes
	uint32_t finPermille = 0;           // per new connection: peer's FIN is forged after some bytes (middlebox close)
	uint32_t connectFailPermille = 0;   // per connect
	uint32_t acceptFailPermille = 0;    // per accept
	uint32_t eintrPermille = 0;         // per blocking call
	uint32_t resolveFailPermille = 0;
	size_t faultByteSpan = 3000;        // where in the stream a forged close may fall
	size_t maxFds = 4096;
	uint64_t maxSteps = 250000;         // after that many steps faults and delays stop, after twice as many it is a livelock
	int64_t tick = 500;                 // simulated cost of a system call, ns
	// disk
	bool diskFaults = false;
	uint32_t openFailPermille = 0, readFailPermille = 0, shortReadPermille = 0, statFailPermille = 0;
	uint32_t diskYieldPermille = 0;     // disk calls are scheduling points
	bool unknownDtype = false;
	bool memPreempt = false;            // (race build) preempt at memory accesses
	uint32_t memPreemptEvery = 200;     // a preemption within so many accesses
};
Params& params();
void allowFaults(bool on);              // globally gate injected faults ("once faults stop")
bool faultsAllowed();

// ---- network control and inspection --------------------------------------------------------
int openVirtualFds();                   // descriptors the program under test (all fibers) holds now
std::vector<std::string> describeOpenFds();
uint64_t badFdUses();                   // uses of descriptors that are not open
std::string lastBadFdUse();
void cutAll(int64_t ns);                // partition everything for ns
int connectionCount();                  // connections ever established
struct ConnInfo { int id; bool clientReset, serverReset, clientClosed, serverClosed; uint64_t c2s, s2c; };
ConnInfo connInfoOfFd(int fd);          // connection of an open socket
void killConnectionOfFd(int fd);        // RST both ways now
void stallConnectionOfFd(int fd, int64_t ns);
int forceResetNextConnections(int n, size_t afterBytesC2S, size_t afterBytesS2C); // deterministic fault
bool sigpipeIgnored();

// ---- disk ----------------------------------------------------------------------------------
void fsReset();
void fsMkdir(const std::string& path);
void fsWrite(const std::string& path, const std::string& content);
void fsWriteLarge(const std::string& path, uint64_t size); // the content is a pattern
void largeContent(uint64_t offset, char* to, size_t n);
void fsSymlink(const std::string& path, const std::string& target);
void fsSpecial(const std::string& path);                    // a FIFO
void fsRemove(const std::string& path);
void fsSetUnreadable(const std::string& path, bool unreadable);
bool fsExists(const std::string& path);
struct FsEvent { uint64_t seq; std::string op, path; int err; };
const std::vector<FsEvent>& fsEvents();
// Called (in the kernel's caller context) on each file read: lets a scenario mutate files at that point.
extern std::function<void(const std::string& op, const std::string& path)> fsHook;

// ---- memory --------------------------------------------------------------------------------
size_t liveBytes();
size_t peakBytes(bool restart);         // most live bytes since the last restart
void setMemoryLimit(size_t bytes);

extern void (*g_beforeRun)();            // called in the parent process before each run
struct Scenario {
	const char* name;
	void (*run)();
};
void registerScenario(const char* name, void (*run)());
#define SCENARIO(NAME) \
	static void scenario_##NAME(); \
	static struct Reg_##NAME { Reg_##NAME() { sim::registerScenario(#NAME, scenario_##NAME); } } reg_##NAME; \
	static void scenario_##NAME()

// Called by the runtime of the race build.
void memoryAccessPoint();
// What the harness does between these is not looked at for races (no effect in the other builds)
void ignoreRaces(bool begin);
struct Harness { Harness() { ignoreRaces(true); } ~Harness() { ignoreRaces(false); } };
uint64_t accessesChecked();
bool active();
} // namespace sim
