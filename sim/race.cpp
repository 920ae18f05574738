// Runtime of the race build.  The scenario (and all library headers in it) is compiled with
// -fsanitize=thread, but instead of ThreadSanitizer's runtime, which needs real threads, it is linked with
// this one, which keeps vector clocks for the fibers of the simulator.  An access that is not ordered after a
// conflicting access of another fiber by the program's own synchronisation is a violation, whatever the
// schedule of this run was.  Mutexes, reader-writer locks, condition variables, pipes and thread creation are
// reported by the kernel; atomic operations are handled here.  Bytes sent over a simulated connection order nothing.
#include "kernel.hpp"
#include "internal.hpp"
#include <cstdlib>
#include <cstring>
#include <new>
#include <unordered_map>
#include <vector>
#include <malloc.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <elf.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>

extern "C" char __libc_single_threaded;

namespace sim {
namespace race {
constexpr int MAXF = 62;
struct VC {
	uint32_t c[MAXF] = {};
	void join(const VC& o) { for (int i = 0; i < MAXF; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
struct Rec { void* pc; uint32_t clock; uint8_t fiber, mask, write, atomic; };
struct Cell { uintptr_t key = 0; uint32_t n = 0; Rec r[10]; };

static bool g_started = false;
static int g_cur = 0;
static VC g_vc[MAXF];
static int g_ignore[MAXF];
static bool g_inside = false;
static uint64_t g_checked = 0;
struct Inside { Inside() { g_inside = true; } ~Inside() { g_inside = false; } };

// Open addressing table of the 8-byte granules accessed so far
static std::vector<Cell*>* g_table;
static size_t g_used = 0;
static std::vector<Cell*>* g_pool;
static size_t hashOf(uintptr_t k) { return (k * 0x9E3779B97F4A7C15ull) >> 20; }
static Cell* find(uintptr_t key, bool make) {
	if (!g_table) { g_table = new std::vector<Cell*>(1 << 16); g_pool = new std::vector<Cell*>; }
	if (make && g_used * 2 > g_table->size()) {
		std::vector<Cell*> old(g_table->size() * 2);
		old.swap(*g_table);
		size_t m = g_table->size() - 1;
		for (Cell* c : old) if (c) {
			size_t i = hashOf(c->key) & m;
			while ((*g_table)[i]) i = (i + 1) & m;
			(*g_table)[i] = c;
		}
	}
	size_t m = g_table->size() - 1, i = hashOf(key) & m;
	while (Cell* c = (*g_table)[i]) {
		if (c->key == key) return c;
		i = (i + 1) & m;
	}
	if (!make) return nullptr;
	Cell* c = new Cell;
	c->key = key;
	(*g_table)[i] = c;
	g_used++;
	return c;
}
static std::unordered_map<uintptr_t, VC>& syncs() { static auto* m = new std::unordered_map<uintptr_t, VC>; return *m; }
static std::unordered_map<uintptr_t, VC>& readerSyncs() { static auto* m = new std::unordered_map<uintptr_t, VC>; return *m; }

static bool tracking() { return g_started && !g_inside && !g_kernelDepth && !g_ignore[g_cur]; }

// The function a code address is in, from the symbol table of the executable (the file functions are simulated)
static std::string where(void* pc) {
	Dl_info i;
	if (!dladdr(pc, &i)) return "?";
	const char* name = i.dli_sname;
	uintptr_t off = (uintptr_t)pc - 1 - (uintptr_t)i.dli_fbase;
	int fd = syscall(SYS_open, "/proc/self/exe", O_RDONLY);
	struct stat st;
	if (fd >= 0 && syscall(SYS_fstat, fd, &st) == 0) {
		char* m = (char*)syscall(SYS_mmap, nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
		auto* h = (Elf64_Ehdr*)m;
		auto* s = (Elf64_Shdr*)(m + h->e_shoff);
		for (int k = 0; k < h->e_shnum; k++)
			if (s[k].sh_type == SHT_SYMTAB) {
				auto* sym = (Elf64_Sym*)(m + s[k].sh_offset);
				const char* names = m + s[s[k].sh_link].sh_offset;
				for (size_t j = 0; j < s[k].sh_size / sizeof *sym; j++)
					if (ELF64_ST_TYPE(sym[j].st_info) == STT_FUNC && off >= sym[j].st_value && off < sym[j].st_value + sym[j].st_size) name = names + sym[j].st_name;
			}
	}
	if (!name) return "?";
	int ok = 0;
	char* n = abi::__cxa_demangle(name, nullptr, nullptr, &ok);
	std::string r = n && !ok ? n : name;
	if (r.size() > 300) r = r.substr(0, 140) + " ... " + r.substr(r.size() - 140);
	return r;
}
static void report(const Rec& old, uintptr_t addr, bool write, bool atomic, void* pc, const char* how) {
	g_started = false;
	std::string a = where(pc), b = where(old.pc);
	violation("race", std::string(fiberName(g_cur)) + " " + how + " memory in " + a + ", which " + fiberName(old.fiber) + (old.write ? " wrote" : " read")
			+ (old.atomic ? " atomically" : "") + " in " + b + ", and nothing orders the two");
}
static void checkGranule(uintptr_t key, uint8_t mask, bool write, bool atomic, void* pc, const char* how) {
	Cell* c = find(key, true);
	Rec* mine = nullptr;
	for (uint32_t i = 0; i < c->n;) {
		Rec& r = c->r[i];
		if (r.fiber == g_cur) {
			if (r.write == write && r.atomic == atomic && r.mask == mask) mine = &r;
			else if (write && !atomic && (r.mask & ~mask) == 0) { if (mine == &c->r[c->n - 1]) mine = &r; r = c->r[--c->n]; continue; }
			i++;
			continue;
		}
		if ((r.mask & mask) && (write || r.write) && !(atomic && r.atomic) && r.clock > g_vc[g_cur].c[r.fiber])
			report(r, key << 3, write, atomic, pc, how);
		if (write && !atomic && (r.mask & ~mask) == 0) { if (mine == &c->r[c->n - 1]) mine = &r; r = c->r[--c->n]; continue; }
		i++;
	}
	if (!mine) {
		if (c->n == 10) { memmove(&c->r[0], &c->r[1], 9 * sizeof(Rec)); c->n = 9; }
		mine = &c->r[c->n++];
	}
	*mine = Rec{pc, g_vc[g_cur].c[g_cur], uint8_t(g_cur), mask, write, atomic};
}
static void access(const volatile void* p, size_t n, bool write, bool atomic, void* pc, const char* how = nullptr) {
	if (!tracking() || inTls((const void*)p) || n == 0) return;
	if (!atomic) memoryAccessPoint();
	Inside inside;
	g_checked++;
	uintptr_t a = (uintptr_t)p, e = a + n;
	while (a < e) {
		uintptr_t key = a >> 3, end = std::min(e, (key + 1) << 3);
		uint8_t mask = uint8_t(((1u << (end - a)) - 1) << (a & 7));
		checkGranule(key, mask, write, atomic, pc, how ? how : atomic ? (write ? "changes (atomically)" : "reads (atomically)") : write ? "writes" : "reads");
		a = end;
	}
}
static void forget(const void* p, size_t n) {
	if (!g_table || g_inside) return;
	Inside inside;
	for (uintptr_t k = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3; k < e; k++)
		if (Cell* c = find(k, false)) c->n = 0;
}
// ---- from the kernel
static void limit(int id) { if (id >= MAXF) harnessError("too many fibers for the race build"); }
static void spawned(int parent, int id) {
	limit(id);
	if (parent >= 0) {
		g_vc[id] = g_vc[parent];
		g_vc[parent].c[parent]++;
	}
	g_vc[id].c[id] = 1;
}
static void joined(int self, int other) { g_vc[self].join(g_vc[other]); }
static void switched(int id) { if (id >= 0) g_cur = id; }
static void exited(int) {}
static void started() {
	__libc_single_threaded = 0; // otherwise shared_ptr's counters are not atomic
	g_cur = 0;
	g_vc[0].c[0] = 1;
	g_started = true;
}
static void acquire(void* p, int kind) {
	if (!g_started || g_ignore[g_cur]) return;
	Inside inside;
	auto& m = syncs();
	auto it = m.find((uintptr_t)p);
	if (it != m.end()) g_vc[g_cur].join(it->second);
	if (kind == 2) {
		auto r = readerSyncs().find((uintptr_t)p);
		if (r != readerSyncs().end()) g_vc[g_cur].join(r->second);
	}
}
static void release(void* p, int kind) {
	if (!g_started || g_ignore[g_cur]) return;
	Inside inside;
	(kind == 1 ? readerSyncs() : syncs())[(uintptr_t)p].join(g_vc[g_cur]);
	g_vc[g_cur].c[g_cur]++;
}
static void ignore(bool begin) { g_ignore[g_cur] += begin ? 1 : -1; }
static uint64_t checkedCount() { return g_checked; }
static struct Install {
	Install() {
		onSpawn = spawned; onJoin = joined; onSwitch = switched; onExit = exited; onStart = started;
		onAcquire = acquire; onRelease = release; onIgnore = ignore; onCount = checkedCount;
	}
} install;

// ---- atomic operations
static void before(const volatile void* a, size_t n, bool write, int mo, void* pc) {
	if (!tracking()) return;
	memoryAccessPoint();
	access(a, n, write, true, pc);
}
static bool isAcquire(int mo) { mo &= 0xffff; return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool isRelease(int mo) { mo &= 0xffff; return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void loaded(const volatile void* a, int mo) {
	if (!tracking() || !isAcquire(mo)) return;
	acquire((void*)a, 0);
}
static void stored(const volatile void* a, int mo, bool rmw) {
	if (!tracking()) return;
	Inside inside;
	if (!rmw) syncs().erase((uintptr_t)a);
	if (!isRelease(mo)) return;
	syncs()[(uintptr_t)a].join(g_vc[g_cur]);
	g_vc[g_cur].c[g_cur]++;
}
} // namespace race
} // namespace sim
using namespace sim::race;

#define PC __builtin_return_address(0)
#define API extern "C" __attribute__((used, noinline, visibility("default")))
API void __tsan_init() {}
API void __tsan_func_entry(void*) {}
API void __tsan_func_exit() {}
#define SIZED(N) \
	API void __tsan_read##N(void* p) { access(p, N, false, false, PC); } \
	API void __tsan_write##N(void* p) { access(p, N, true, false, PC); } \
	API void __tsan_unaligned_read##N(void* p) { access(p, N, false, false, PC); } \
	API void __tsan_unaligned_write##N(void* p) { access(p, N, true, false, PC); } \
	API void __tsan_volatile_read##N(void* p) { access(p, N, false, false, PC); } \
	API void __tsan_volatile_write##N(void* p) { access(p, N, true, false, PC); }
SIZED(1) SIZED(2) SIZED(4) SIZED(8) SIZED(16)
API void __tsan_read_range(void* p, size_t n) { access(p, n, false, false, PC); }
API void __tsan_write_range(void* p, size_t n) { access(p, n, true, false, PC); }
API void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, false, PC); }
API void __tsan_vptr_read(void** p) { access(p, 8, false, false, PC); }
API void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
API void __tsan_atomic_signal_fence(int) {}
#define RMW(T, B, NAME, EXPR) \
	API T __tsan_atomic##B##_##NAME(volatile T* a, T v, int mo) { \
		before(a, sizeof(T), true, mo, PC); loaded(a, mo); T old = *a; *a = EXPR; stored(a, mo, true); return old; }
#define ATOMIC(T, B) \
	API T __tsan_atomic##B##_load(const volatile T* a, int mo) { before(a, sizeof(T), false, mo, PC); T v = *a; loaded(a, mo); return v; } \
	API void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { before(a, sizeof(T), true, mo, PC); *a = v; stored(a, mo, false); } \
	RMW(T, B, exchange, v) RMW(T, B, fetch_add, T(old + v)) RMW(T, B, fetch_sub, T(old - v)) RMW(T, B, fetch_and, T(old & v)) \
	RMW(T, B, fetch_or, T(old | v)) RMW(T, B, fetch_xor, T(old ^ v)) RMW(T, B, fetch_nand, T(~(old & v))) \
	static bool cas##B(volatile T* a, T* e, T v, int mo, int fmo, void* pc) { \
		before(a, sizeof(T), true, mo, pc); T old = *a; \
		if (old == *e) { loaded(a, mo); *a = v; stored(a, mo, true); return true; } \
		loaded(a, fmo); *e = old; return false; } \
	API int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { return cas##B(a, e, v, mo, fmo, PC); } \
	API int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return cas##B(a, e, v, mo, fmo, PC); } \
	API T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { cas##B(a, &e, v, mo, fmo, PC); return e; }
ATOMIC(uint8_t, 8) ATOMIC(uint16_t, 16) ATOMIC(uint32_t, 32) ATOMIC(uint64_t, 64)

// ---- what the instrumented object calls instead of the library functions (see build of the race units in check.py)
API void* race_memcpy(void* d, const void* s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return memcpy(d, s, n); }
API void* race_memmove(void* d, const void* s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return memmove(d, s, n); }
API void* race_memset(void* d, int c, size_t n) { access(d, n, true, false, PC); return memset(d, c, n); }
API int race_memcmp(const void* a, const void* b, size_t n) { access(a, n, false, false, PC); access(b, n, false, false, PC); return memcmp(a, b, n); }
API void* race_memchr(const void* a, int c, size_t n) { access(a, n, false, false, PC); return (void*)memchr(a, c, n); }
API size_t race_strlen(const char* s) { size_t n = strlen(s); access(s, n + 1, false, false, PC); return n; }
static void freed(void* p, void* pc) {
	if (!p) return;
	if (tracking()) access(p, malloc_usable_size(p), true, false, pc, "frees");
}
API void race_delete(void* p) { freed(p, PC); ::operator delete(p); }
API void race_delete_sized(void* p, size_t) { freed(p, PC); ::operator delete(p); }
// Guards of local static variables: the library's would block the whole process
API int race_guard_acquire(char* g) {
	while (true) {
		if (g[0]) { if (tracking()) acquire(g, 0); return 0; }
		if (!g[1]) { g[1] = 1; return 1; }
		if (!sim::g_active) sim::harnessError("recursive initialisation of a static variable");
		sim::block("static-guard", 0, [g] { return !g[1]; });
	}
}
API void race_guard_release(char* g) { if (tracking()) stored(g, __ATOMIC_RELEASE, false); g[0] = 1; g[1] = 0; }
API void race_guard_abort(char* g) { g[1] = 0; }
namespace std { struct _Rb_tree_node_base; }
#define RB_INSERT "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"
#define RB_ERASE "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_"
extern "C" void rbInsert(bool, void*, void*, void*) asm("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
extern "C" void* rbErase(void*, void*) asm("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
API void race_rb_insert(bool left, void* x, void* p, void* header) {
	access(header, 32, true, false, PC); access(x, 32, true, false, PC); access(p, 32, true, false, PC);
	rbInsert(left, x, p, header);
}
API void* race_rb_erase(void* z, void* header) { access(header, 32, true, false, PC); access(z, 32, true, false, PC); return rbErase(z, header); }

// ---- allocation
extern "C" void* __cxa_allocate_exception(size_t) noexcept;
API void* race_allocate_exception(size_t n) {
	void* p = __cxa_allocate_exception(n);
	if (sim::g_active) forget(p, n);
	return p;
}
void* operator new(size_t n) {
	void* p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	if (sim::g_active) forget(p, malloc_usable_size(p));
	return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p && sim::g_active) forget(p, malloc_usable_size(p)); free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
