#pragma once
#include "kernel.hpp"
namespace sim {
constexpr uint32_t MAX_CHOICES = 300000, MAX_COUNTERS = 160;
constexpr size_t MAX_LOG = 4 << 20;
enum Status : int { RUNNING = 0, PASSED, VIOLATED, HARNESS_ERROR };
struct Shared {
	volatile int status;
	char cls[256];
	char msg[6000];
	uint64_t hash, schedHash, steps;
	int64_t simTime;
	int nontrivial;
	uint32_t nCounters;
	struct { char name[60]; uint64_t value; } counters[MAX_COUNTERS];
	uint32_t nChoices[NSTREAMS];
	size_t logLen;
	uint32_t choices[NSTREAMS][MAX_CHOICES];
	char log[MAX_LOG];
};
extern Shared* g_shared;
extern bool g_active, g_logText;
void initChoices(uint64_t seed, const std::vector<uint32_t>* replay);
void runScenario(void (*run)());
[[noreturn]] void quickExit(int code);
void ev(const char* kind, int64_t a = 0, int64_t b = 0, int64_t c = 0);
bool block(const char* what, int64_t arg, const std::function<bool()>& ready, int64_t deadline = INT64_MAX);
void schedPoint(const char* what);
void preemptNow();
void at(int64_t t, std::function<void()> f);
int selfProc();
void closeAllOfProc(int proc);
int spawnProcess(const std::string& name, std::function<void()> body);
void killProcessOf(int fiber);
void onMalloc(const volatile void*, size_t);
void onFree(const volatile void*);
extern int g_kernelDepth;
bool inTls(const void* p);
bool faultChance(uint32_t permille, const char* name);
namespace race {
extern void (*onSwitch)(int), (*onExit)(int), (*onSpawn)(int, int), (*onJoin)(int, int), (*onStart)();
// kind: 0 exclusive (mutex, pipe, condition), 1 as a reader, 2 as a writer
extern void (*onAcquire)(void*, int), (*onRelease)(void*, int);
extern void (*onIgnore)(bool);
extern uint64_t (*onCount)();
}
}
