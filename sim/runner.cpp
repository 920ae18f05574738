// Search, verification, minimisation and replay of simulated runs.  One forked child per run.
#include "kernel.hpp"
#include "internal.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <set>
#include <unordered_set>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <time.h>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
extern "C" void __asan_set_error_report_callback(void (*)(const char*)) __attribute__((weak));
extern "C" const char* __asan_default_options() {
	return "detect_leaks=0:exitcode=77:abort_on_error=0:symbolize=0:handle_sigfpe=1:handle_abort=1:max_malloc_fill_size=65536:malloc_fill_byte=190:"
			"detect_stack_use_after_return=0:print_legend=0:quarantine_size_mb=16:allocator_may_return_null=0:detect_odr_violation=0:print_summary=0:check_initialization_order=0";
}

namespace sim {
static std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
void registerScenario(const char* name, void (*run)()) { scenarios().push_back({name, run}); }

void (*g_beforeRun)() = nullptr;
void quickExit(int code) { syscall(SYS_exit_group, code); __builtin_unreachable(); }

static void asanReport(const char* text) {
	auto& s = *g_shared;
	if (s.status != RUNNING) return;
	std::string t = text, cls = "asan";
	size_t p = t.find("AddressSanitizer: ");
	if (p != std::string::npos) {
		p += 18;
		size_t e = t.find_first_of(" \n:", p);
		cls += ":" + t.substr(p, e - p);
	}
	strncpy(s.cls, cls.c_str(), sizeof s.cls - 1);
	strncpy(s.msg, t.c_str(), sizeof s.msg - 1);
	s.simTime = now();
	s.status = VIOLATED;
}
static void onCpu(int) {
	auto& s = *g_shared;
	if (s.status == RUNNING) {
		strcpy(s.cls, "cpu-hang");
		snprintf(s.msg, sizeof s.msg, "%s spins without end and without any system call", fiberName(self()));
		s.status = VIOLATED;
	}
	quickExit(3);
}
static int g_cpuLimit = 20;

struct Result {
	int status;
	std::string cls, msg;
	uint64_t hash, schedHash, steps;
	int64_t simTime;
	bool nontrivial;
	std::vector<uint32_t> choices[NSTREAMS];
	bool truncated = false;
};
static Result runOnce(const Scenario& sc, uint64_t seed, const std::vector<uint32_t>* replay, bool log, bool wantChoices) {
	auto& s = *g_shared;
	s.status = RUNNING;
	memset(s.cls, 0, sizeof s.cls);
	memset(s.msg, 0, sizeof s.msg);
	s.hash = s.schedHash = 0xcbf29ce484222325ull;
	s.steps = 0; s.simTime = 0; s.nontrivial = 0;
	memset(s.counters, 0, sizeof(s.counters[0]) * s.nCounters);
	s.nCounters = 0;
	memset(s.nChoices, 0, sizeof s.nChoices);
	s.logLen = 0;
	g_logText = log;
	fflush(stdout);
	if (g_beforeRun) g_beforeRun();
	pid_t pid = fork();
	if (pid == 0) {
		struct itimerval t{};
		t.it_value.tv_sec = g_cpuLimit;
		::signal(SIGVTALRM, onCpu);
		setitimer(ITIMER_VIRTUAL, &t, nullptr);
		struct rlimit rl{rlim_t(g_cpuLimit + 20), rlim_t(g_cpuLimit + 20)};
		setrlimit(RLIMIT_CPU, &rl);
		if (!getenv("SIM_STDERR")) { if (!freopen("/dev/null", "w", stderr)) {} }
		std::cout.setstate(std::ios_base::failbit); // the library prints diagnostics
		if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
		if (__asan_set_error_report_callback) __asan_set_error_report_callback(asanReport);
		initChoices(seed, replay);
		runScenario(sc.run);
		_exit(5);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	Result r;
	r.status = s.status;
	r.cls = s.cls;
	r.msg = s.msg;
	if (r.status == RUNNING) { // died without a word
		r.status = VIOLATED;
		if (WIFSIGNALED(st)) r.cls = "signal:" + std::to_string(WTERMSIG(st)), r.msg = std::string("process killed by ") + strsignal(WTERMSIG(st));
		else r.cls = "exit:" + std::to_string(WEXITSTATUS(st)), r.msg = "process exited by itself with status " + std::to_string(WEXITSTATUS(st));
	}
	r.hash = s.hash; r.schedHash = s.schedHash; r.steps = s.steps; r.simTime = s.simTime; r.nontrivial = s.nontrivial;
	for (int i = 0; i < NSTREAMS; i++) {
		if (s.nChoices[i] > MAX_CHOICES) r.truncated = true;
		if (wantChoices) r.choices[i].assign(s.choices[i], s.choices[i] + std::min(s.nChoices[i], MAX_CHOICES));
	}
	return r;
}
static double wall() {
	struct timespec t;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec / 1e9;
}
static std::string esc(const std::string& s) {
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r;
}
static std::string hex(uint64_t v) { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)v); return b; }
static const char* streamNames[] = {"work", "sched", "net", "fault", "disk"};

static const Scenario* find(const std::string& name) {
	for (auto& s : scenarios()) if (name == s.name) return &s;
	fprintf(stderr, "no scenario %s\n", name.c_str());
	exit(2);
}

// ---- search: prints one JSON object
static int search(int argc, char** argv) {
	std::vector<std::string> names;
	std::vector<std::string> known;
	uint64_t seed = 1, start = 0, stride = 1, maxRuns = ~0ull;
	double seconds = 10;
	bool hashes = false, survey = false;
	std::map<std::string, std::pair<int, std::string>> groups;
	for (int i = 2; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&] { return std::string(argv[++i]); };
		if (a == "--scenario") names.push_back(val());
		else if (a == "--seed") seed = std::stoull(val());
		else if (a == "--start") start = std::stoull(val());
		else if (a == "--stride") stride = std::stoull(val());
		else if (a == "--runs") maxRuns = std::stoull(val());
		else if (a == "--seconds") seconds = std::stod(val());
		else if (a == "--known") known.push_back(val());
		else if (a == "--hashes") hashes = true;
		else if (a == "--survey") survey = true;
	}
	double t0 = wall();
	uint64_t runs = 0, nontriv = 0, steps = 0;
	double simSeconds = 0;
	std::unordered_set<uint64_t> distinct, sched;
	std::map<std::string, uint64_t> counters;
	std::map<std::string, uint64_t> knownHits;
	std::map<std::string, std::vector<uint64_t>> curve;
	std::string found;
	std::string hashOut;
	std::vector<std::pair<uint64_t, uint64_t>> growth;
	for (uint64_t n = start; runs < maxRuns && wall() - t0 < seconds; n += stride) {
		const Scenario* sc = find(names[n / stride % names.size()]);
		uint64_t runSeed = (seed << 32) + n;
		Result r = runOnce(*sc, runSeed, nullptr, false, false);
		runs++;
		steps += r.steps;
		simSeconds += r.simTime / 1e9;
		if (r.nontrivial) { nontriv++; distinct.insert(r.hash); }
		sched.insert(r.schedHash);
		if ((runs & (runs - 1)) == 0) growth.push_back({runs, sched.size()});
		for (uint32_t i = 0; i < g_shared->nCounters; i++) counters[g_shared->counters[i].name] += g_shared->counters[i].value;
		counters[std::string("runs.") + sc->name]++;
		if (hashes) hashOut += std::string(hashOut.empty() ? "" : ",") + "\"" + sc->name + ":" + std::to_string(runSeed) + ":" + hex(r.hash) + ":" + std::to_string(r.status) + r.cls + "\"";
		if (r.status == VIOLATED) {
			std::string key = r.cls;
			bool isKnown = false;
			for (auto& k : known) if (key == k || (k.back() == '*' && key.compare(0, k.size() - 1, k, 0, k.size() - 1) == 0)) isKnown = true;
			if (isKnown) { knownHits[key]++; continue; }
			if (survey) { auto& g = groups[std::string(sc->name) + " " + r.cls]; if (!g.first++) g.second = std::to_string(runSeed) + " " + r.msg; continue; }
			found = "{\"scenario\":\"" + std::string(sc->name) + "\",\"seed\":" + std::to_string(runSeed) + ",\"cls\":\"" + esc(r.cls) + "\",\"msg\":\"" + esc(r.msg) + "\"}";
			break;
		}
		if (r.status == HARNESS_ERROR) {
			printf("{\"harness_error\":\"%s (scenario %s seed %llu)\"}\n", esc(r.msg).c_str(), sc->name, (unsigned long long)runSeed);
			return 2;
		}
	}
	if (survey) { for (auto& g : groups) printf("%d\t%s\t%s\n", g.second.first, g.first.c_str(), esc(g.second.second).c_str()); printf("runs %llu nontrivial %llu wall %.1f\n", (unsigned long long)runs, (unsigned long long)nontriv, wall() - t0); return 0; }
	printf("{\"runs\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"sched_distinct\":%zu,\"steps\":%llu,\"sim_seconds\":%.3f,\"wall\":%.3f,\"first_seed\":%llu",
			(unsigned long long)runs, (unsigned long long)nontriv, distinct.size(), sched.size(), (unsigned long long)steps, simSeconds, wall() - t0, (unsigned long long)((seed << 32) + start));
	printf(",\"counters\":{");
	bool first = true;
	for (auto& c : counters) { printf("%s\"%s\":%llu", first ? "" : ",", esc(c.first).c_str(), (unsigned long long)c.second); first = false; }
	printf("},\"known\":{");
	first = true;
	for (auto& c : knownHits) { printf("%s\"%s\":%llu", first ? "" : ",", esc(c.first).c_str(), (unsigned long long)c.second); first = false; }
	printf("},\"growth\":[");
	first = true;
	for (auto& c : growth) { printf("%s[%llu,%llu]", first ? "" : ",", (unsigned long long)c.first, (unsigned long long)c.second); first = false; }
	printf("]");
	if (hashes) printf(",\"hashes\":[%s]", hashOut.c_str());
	if (!found.empty()) printf(",\"violation\":%s", found.c_str());
	printf("}\n");
	return 0;
}

// ---- minimisation
using Choices = std::vector<std::vector<uint32_t>>;
struct Minimiser {
	const Scenario& sc;
	std::string cls;
	double deadline;
	int tried = 0, accepted = 0;
	Choices best;
	static size_t weight(const Choices& c) { size_t n = 0; for (auto& s : c) for (auto v : s) n += v != 0; return n; }
	static size_t length(const Choices& c) { size_t n = 0; for (auto& s : c) n += s.size(); return n; }
	bool attempt(Choices c) {
		if (wall() > deadline) return false;
		tried++;
		for (auto& s : c) while (!s.empty() && s.back() == 0) s.pop_back();
		if (c == best) return false;
		Result r = runOnce(sc, 0, c.data(), false, true);
		if (r.status != VIOLATED || r.cls != cls || r.truncated) return false;
		Choices now(NSTREAMS);
		for (int i = 0; i < NSTREAMS; i++) now[i] = r.choices[i];
		for (auto& s : now) while (!s.empty() && s.back() == 0) s.pop_back();
		auto key = [](const Choices& c) { uint64_t sum = 0; for (auto& s : c) for (auto v : s) sum += v; return std::tuple(weight(c), length(c), sum); };
		if (key(now) < key(best)) { best = now; accepted++; return true; }
		return false;
	}
	void run() {
		bool progress = true;
		while (progress && wall() < deadline) {
			progress = false;
			for (int s = 0; s < NSTREAMS; s++) { Choices c = best; c[s].clear(); progress |= attempt(c); }
			for (int s = 0; s < NSTREAMS; s++) // truncate
				for (size_t cut = best[s].size() / 2; cut > 0; cut /= 2)
					while (best[s].size() >= cut && wall() < deadline) { Choices c = best; c[s].resize(c[s].size() - cut); if (!attempt(c)) break; progress = true; }
			for (int s = 0; s < NSTREAMS; s++) // zero blocks, then delete blocks
				for (size_t blk = std::max<size_t>(best[s].size() / 2, 1); blk > 0; blk /= 2)
					for (size_t p = 0; p < best[s].size() && wall() < deadline; p += blk) {
						Choices c = best;
						bool any = false;
						for (size_t i = p; i < std::min(p + blk, c[s].size()); i++) { any |= c[s][i] != 0; c[s][i] = 0; }
						if (any && attempt(c)) { progress = true; continue; }
						c = best;
						c[s].erase(c[s].begin() + p, c[s].begin() + std::min(p + blk, c[s].size()));
						if (attempt(c)) progress = true;
					}
			for (int s = 0; s < NSTREAMS; s++) // lower values
				for (size_t p = 0; p < best[s].size() && wall() < deadline; p++)
					while (p < best[s].size() && best[s][p] > 1) {
						Choices c = best;
						c[s][p] /= 2;
						if (!attempt(c)) { c = best; if (p < c[s].size()) c[s][p]--; if (!attempt(c)) break; }
						progress = true;
					}
		}
	}
};
static void writeReplay(const std::string& path, const std::string& property, const Scenario& sc, uint64_t seed, const Choices& c, const Result& r, int tried, int accepted, size_t before) {
	std::ofstream o(path);
	o << "{\n\"property\": \"" << property << "\",\n\"scenario\": \"" << sc.name << "\",\n\"seed\": " << seed << ",\n\"class\": \"" << esc(r.cls) << "\",\n\"message\": \"" << esc(r.msg)
	  << "\",\n\"hash\": \"" << hex(r.hash) << "\",\n\"simulated_ns\": " << r.simTime << ",\n\"steps\": " << r.steps << ",\n\"minimised\": {\"choices_before\": " << before << ", \"choices_after\": "
	  << Minimiser::length(c) << ", \"nonzero_after\": " << Minimiser::weight(c) << ", \"runs_tried\": " << tried << ", \"accepted\": " << accepted << "},\n\"streams\": {\n";
	for (int s = 0; s < NSTREAMS; s++) {
		o << "\"" << streamNames[s] << "\": [";
		for (size_t i = 0; i < c[s].size(); i++) o << (i ? "," : "") << c[s][i];
		o << "]" << (s + 1 < NSTREAMS ? ",\n" : "\n");
	}
	o << "},\n\"trace\": [\n";
	std::string log(g_shared->log, g_shared->logLen);
	std::istringstream in(log);
	std::vector<std::string> lines;
	for (std::string l; std::getline(in, l);) lines.push_back(l);
	size_t from = lines.size() > 4000 ? lines.size() - 4000 : 0;
	for (size_t i = from; i < lines.size(); i++) o << (i > from ? ",\n" : "") << "\"" << esc(lines[i]) << "\"";
	o << "\n]\n}\n";
}
// verify SCENARIO SEED PROPERTY OUT SECONDS
static int verify(int argc, char** argv) {
	if (argc < 7) return 2;
	const Scenario& sc = *find(argv[2]);
	uint64_t seed = std::stoull(argv[3]);
	std::string property = argv[4], out = argv[5];
	double seconds = std::stod(argv[6]);
	Result a = runOnce(sc, seed, nullptr, false, true), b = runOnce(sc, seed, nullptr, false, true);
	if (a.status != VIOLATED || b.status != VIOLATED || a.hash != b.hash || a.cls != b.cls) {
		printf("NOT-DETERMINISTIC scenario %s seed %llu: %s/%s %s/%s\n", sc.name, (unsigned long long)seed, a.cls.c_str(), b.cls.c_str(), hex(a.hash).c_str(), hex(b.hash).c_str());
		return 2;
	}
	if (a.truncated) { printf("choice record truncated\n"); return 2; }
	Choices c(NSTREAMS);
	for (int i = 0; i < NSTREAMS; i++) c[i] = a.choices[i];
	size_t before = Minimiser::length(c);
	Result viaList = runOnce(sc, 0, c.data(), false, true);
	if (viaList.status != VIOLATED || viaList.cls != a.cls || viaList.hash != a.hash) {
		printf("NOT-REPLAYABLE scenario %s seed %llu: %s %s\n", sc.name, (unsigned long long)seed, viaList.cls.c_str(), viaList.msg.c_str());
		return 2;
	}
	Minimiser m{sc, a.cls, wall() + seconds};
	m.best = c;
	if (a.cls == "cpu-hang") m.deadline = wall();
	m.run();
	Result fin = runOnce(sc, 0, m.best.data(), true, true);
	if (fin.status != VIOLATED || fin.cls != a.cls) { printf("minimised run does not fail\n"); return 2; }
	writeReplay(out, property, sc, seed, m.best, fin, m.tried, m.accepted, before);
	printf("%s: %s\n", fin.cls.c_str(), fin.msg.c_str());
	return 1;
}
// replay FILE [--log]
static int replay(int argc, char** argv) {
	std::ifstream in(argv[2]);
	std::string text((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
	auto field = [&](const std::string& name) {
		size_t p = text.find("\"" + name + "\": \"");
		if (p == std::string::npos) return std::string();
		p += name.size() + 5;
		return text.substr(p, text.find('"', p) - p);
	};
	Choices c(NSTREAMS);
	for (int s = 0; s < NSTREAMS; s++) {
		size_t p = text.find("\"" + std::string(streamNames[s]) + "\": [");
		if (p == std::string::npos) return 2;
		p = text.find('[', p) + 1;
		while (text[p] != ']') {
			c[s].push_back(strtoul(&text[p], nullptr, 10));
			while (text[p] != ',' && text[p] != ']') p++;
			if (text[p] == ',') p++;
		}
	}
	const Scenario& sc = *find(field("scenario"));
	bool log = argc > 3;
	Result r = runOnce(sc, 0, c.data(), log, true);
	if (log) fwrite(g_shared->log, 1, g_shared->logLen, stdout);
	printf("status=%d class=%s hash=%s\n%s\n", r.status, r.cls.c_str(), hex(r.hash).c_str(), r.msg.c_str());
	if (r.status == VIOLATED && esc(r.cls) == field("class")) {
		bool same = hex(r.hash) == field("hash");
		printf("%s\n", same ? "REPRODUCED exactly" : "reproduced, but the event log differs");
		return same ? 1 : 3;
	}
	return r.status == PASSED ? 0 : 2;
}
// run SCENARIO SEED: one run with its log
static int runOne(int argc, char** argv) {
	const Scenario& sc = *find(argv[2]);
	Result r = runOnce(sc, std::stoull(argv[3]), nullptr, true, true);
	if (argc > 4) fwrite(g_shared->log, 1, g_shared->logLen, stdout);
	printf("status=%d class=%s hash=%s steps=%llu simtime=%.6f\n%s\n", r.status, r.cls.c_str(), hex(r.hash).c_str(), (unsigned long long)r.steps, r.simTime / 1e9, r.msg.c_str());
	for (int i = 0; i < NSTREAMS; i++) printf("%s %zu  ", streamNames[i], r.choices[i].size());
	printf("\n");
	for (uint32_t i = 0; i < g_shared->nCounters; i++) printf("  %s %llu\n", g_shared->counters[i].name, (unsigned long long)g_shared->counters[i].value);
	return r.status == PASSED ? 0 : 1;
}
} // namespace sim

int main(int argc, char** argv) {
	if (argc < 2) return 2;
	if (!getenv("SIM_NOASLR")) { // same addresses in every process
		setenv("SIM_NOASLR", "1", 1);
		int p = personality(0xffffffff);
		if (p != -1 && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	using namespace sim;
	if (const char* l = getenv("SIM_CPU_LIMIT")) g_cpuLimit = atoi(l);
	g_shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::string mode = argv[1];
	if (mode == "search") return search(argc, argv);
	if (mode == "verify") return verify(argc, argv);
	if (mode == "replay") return replay(argc, argv);
	if (mode == "run") return runOne(argc, argv);
	if (mode == "list") { for (auto& s : scenarios()) puts(s.name); return 0; }
	return 2;
}
