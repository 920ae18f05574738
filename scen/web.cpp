// The JavaScript client and its forms (W01, W02): bomba.js runs in a real JavaScript engine, whose fetch() goes through
// simulated connections to the real server.  Everything the engine does follows from what it's told by this process.
#include "world.hpp"
#include "bomba_download_server.hpp"
#include "bomba_json_wsp_description.hpp"
#include <list>
#include <set>
#include <fcntl.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>

// ---- the engine, a process of its own; raw system calls, as it isn't part of the simulation ----
struct Engine {
	int in = -1, out = -1, serial = 0;
	pid_t pid = 0;
	std::string unread;
	static Engine& get() { static Engine e; return e; }
	void stop() {
		if (!pid) return;
		syscall(SYS_kill, pid, SIGKILL);
		syscall(SYS_close, in);
		syscall(SYS_close, out);
		int status;
		syscall(SYS_wait4, pid, &status, 0, nullptr);
		pid = 0;
	}
	// In the parent process, before each run: the children share it
	static void prepare() {
		Engine& e = get();
		int status;
		if (e.pid && (++e.serial % 500 == 0 || syscall(SYS_wait4, e.pid, &status, WNOHANG, nullptr) == e.pid)) e.stop();
		if (e.pid) return;
		int to[2], from[2];
		if (syscall(SYS_pipe2, to, O_CLOEXEC) || syscall(SYS_pipe2, from, O_CLOEXEC)) abort();
		std::string driver = getenv("BROWSER_JS") ? getenv("BROWSER_JS") : std::string(__FILE__).substr(0, std::string(__FILE__).rfind("/scen/")) + "/sim/browser.mjs";
		std::string script = (getenv("REPO") ? getenv("REPO") : std::string("/repo")) + "/public_html/bomba.js";
		pid_t parent = getpid();
		e.pid = fork();
		if (e.pid == 0) {
			syscall(SYS_prctl, 1 /* PR_SET_PDEATHSIG */, SIGKILL);
			if (syscall(SYS_getppid) != parent) syscall(SYS_exit_group, 0);
			int null = int(syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY, 0));
			syscall(SYS_dup3, to[0], 0, 0);
			syscall(SYS_dup3, from[1], 1, 0);
			if (!getenv("SIM_STDERR")) syscall(SYS_dup3, null, 2, 0);
			unsetenv("NODE_OPTIONS");
			execlp("node", "node", "--max-old-space-size=600", driver.c_str(), script.c_str(), (char*)nullptr);
			syscall(SYS_exit_group, 9);
		}
		syscall(SYS_close, to[0]);
		syscall(SYS_close, from[1]);
		e.in = to[1];
		e.out = from[0];
	}
	void write(std::string_view s) {
		while (!s.empty()) {
			long n = syscall(SYS_write, in, s.data(), s.size());
			if (n <= 0) sim::harnessError("the JavaScript engine doesn't take input");
			s.remove_prefix(n);
		}
	}
	std::string readLine() {
		while (true) {
			size_t end = unread.find('\n');
			if (end != std::string::npos) { std::string line = unread.substr(0, end); unread.erase(0, end + 1); return line; }
			pollfd p{out, POLLIN, 0};
			struct timespec limit{20, 0};
			long ready = syscall(SYS_ppoll, &p, 1, &limit, nullptr, 0);
			if (ready == 0) { syscall(SYS_kill, pid, SIGKILL); violation("script-hang", "the script computes without end"); }
			char buffer[65536];
			long n = syscall(SYS_read, out, buffer, sizeof buffer);
			if (n <= 0) sim::harnessError("the JavaScript engine has ended");
			unread.append(buffer, n);
		}
	}
};
static struct Prepared { Prepared() { sim::g_beforeRun = Engine::prepare; } } prepared;

static std::string commas(const std::vector<std::string>& parts) { std::string r; for (auto& p : parts) r += (r.empty() ? "" : ",") + p; return r; }
static std::string member(const std::string& k, const std::string& v) { return jsonString(k, false) + ":" + v; }

// ---- the interface offered -----------------------------------------------------------------------
struct Corner : Bomba::Serialisable<Corner> { int x = key<"x"> = 0; double yAxis = key<"yAxis"> = 0; };
struct Shape : Bomba::Serialisable<Shape> {
	std::string name = key<"name">;
	double size = key<"size"> = 0;
	bool visible = key<"visible"> = false;
	std::vector<Corner> corners = key<"corners">;
	std::map<std::string, int> marks = key<"marks">;
	Corner origin = key<"origin">;
	Bomba::Optional<int> layer = key<"layer">;
	std::vector<std::vector<std::string>> notes = key<"notes">;
};
static std::string j(int v) { return std::to_string(v); }
static std::string j(int64_t v) { return std::to_string(v); }
static std::string j(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
static std::string j(bool v) { return v ? "true" : "false"; }
static std::string j(const std::string& v) { return jsonString(v, false); }
static std::string j(const Corner& v) { return "{\"x\":" + j(v.x) + ",\"yAxis\":" + j(v.yAxis) + "}"; }
static std::string j(const Shape& v);
template <typename T> static std::string j(const std::vector<T>& v) { std::string r; for (auto& e : v) r += (r.empty() ? "" : ",") + j(e); return "[" + r + "]"; }
template <typename T> static std::string j(const std::map<std::string, T>& v) { std::string r; for (auto& [k, e] : v) r += (r.empty() ? "" : ",") + jsonString(k, false) + ":" + j(e); return "{" + r + "}"; }
template <typename T> static std::string j(const std::optional<T>& v) { return v ? j(*v) : "null"; }
static std::string j(const Shape& v) {
	return "{\"name\":" + j(v.name) + ",\"size\":" + j(v.size) + ",\"visible\":" + j(v.visible) + ",\"corners\":" + j(v.corners) + ",\"marks\":" + j(v.marks) + ",\"origin\":" + j(v.origin)
			+ ",\"layer\":" + (v.layer ? j(int(*v.layer)) : "null") + ",\"notes\":" + j(v.notes) + "}";
}
template <typename... A> static std::string arguments(const A&... a) { std::string r; ((r += (r.empty() ? "" : ",") + j(a)), ...); return "[" + r + "]"; }

static std::string jsonOf(const JVal& v) {
	std::string r;
	switch (v.kind) {
		case JVal::NUL: return "null";
		case JVal::BOOL: return v.b ? "true" : "false";
		case JVal::NUM: return v.text;
		case JVal::STR: return jsonString(v.text, false);
		case JVal::ARR: for (auto& e : v.arr) r += (r.empty() ? "" : ",") + jsonOf(e); return "[" + r + "]";
		default: for (auto& [k, e] : v.obj) r += (r.empty() ? "" : ",") + jsonString(k, false) + ":" + jsonOf(e); return "{" + r + "}";
	}
}
static JVal parsed(const std::string& s) { JVal v; std::string why; if (!parseJson(s, v, why)) sim::harnessError("not JSON: " + why + ": " + cut(s)); return v; }
static bool same(const JVal& a, const JVal& b) {
	if (a.kind != b.kind) return false;
	switch (a.kind) {
		case JVal::NUL: return true;
		case JVal::BOOL: return a.b == b.b;
		case JVal::NUM: return strtod(a.text.c_str(), nullptr) == strtod(b.text.c_str(), nullptr);
		case JVal::STR: return a.text == b.text;
		case JVal::ARR: if (a.arr.size() != b.arr.size()) return false; for (size_t i = 0; i < a.arr.size(); i++) if (!same(a.arr[i], b.arr[i])) return false; return true;
		default: { // a missing member is the same as one without value
			static const JVal none;
			for (auto& [k, e] : a.obj) { const JVal* o = b.get(k); if (!same(e, o ? *o : none)) return false; }
			for (auto& [k, e] : b.obj) if (!a.get(k) && e.kind != JVal::NUL) return false;
			return true;
		}
	}
}
static bool same(const std::string& a, const std::string& b) { return a == b || same(parsed(a), parsed(b)); }

struct Param { std::string name, type; bool nullable = false; };
struct Execution { int leaf; std::string args, result; bool failed; bool used = false; };
struct Offered { std::string path; int kind, leaf; std::vector<Param> params; };
static const std::vector<std::vector<Param>> kinds = {
	{},
	{{"number", "number"}, {"word", "string"}},
	{{"shape", "Shape"}, {"shown", "boolean"}},
	{{"list", "[number]"}, {"extra", "number", true}},
	{{"table", "object"}, {"factor", "number"}},
	{{"corners", "[Corner]"}},
	{{"rows", "[[string]]"}, {"lastOne", "boolean", true}},
	{{"now", "boolean"}, {"message", "string"}},
	{{"other", "[Shape]"}, {"first", "Shape"}, {"second", "string", true}},
	{{"a", "number"}, {"b", "number"}, {"c", "number"}, {"d", "string"}, {"e", "string"}, {"f", "boolean"}, {"g", "Corner"}},
	{{"From", "Corner"}, {"to", "Corner"}, {"from", "number"}}};
struct Interface {
	std::vector<Offered> offered;
	std::vector<Execution> ran;
	int64_t counter = 0;
	Bomba::DynamicRpcObject root;
	template <typename R> R done(int leaf, const std::string& args, R result) { ran.push_back({leaf, args, j(result), false}); return result; }
	Bomba::RpcLambdaHolder lambda(int kind, int leaf) {
		using Bomba::name;
		switch (kind) {
			case 0: return [this, leaf] () { ran.push_back({leaf, "[]", "null", false}); };
			case 1: return [this, leaf] (int number = name("number"), std::string word = name("word")) { return done(leaf, arguments(number, word), word + ":" + std::to_string(number) + ":" + std::to_string(counter++)); };
			case 2: return [this, leaf] (Shape shape = name("shape"), bool shown = name("shown")) { Shape r = shape; r.name += "/" + std::to_string(counter++); r.visible = shown; r.corners.push_back(r.origin); if (r.layer) r.layer.reset(); else r.layer = 5; return done(leaf, arguments(shape, shown), r); };
			case 3: return [this, leaf] (std::vector<int> list = name("list"), std::optional<int> extra = name("extra")) { std::vector<std::string> r; for (int e : list) r.push_back(std::to_string(e)); if (extra) r.push_back("extra " + std::to_string(*extra)); r.push_back(std::to_string(counter++)); return done(leaf, arguments(list, extra), r); };
			case 4: return [this, leaf] (std::map<std::string, int> table = name("table"), double factor = name("factor")) { std::map<std::string, double> r; for (auto& [k, e] : table) r[k] = e * 0.5; r["factor"] = factor; r["serial"] = double(counter++); return done(leaf, arguments(table, factor), r); };
			case 5: return [this, leaf] (std::vector<Corner> corners = name("corners")) { return done(leaf, arguments(corners), counter++ * 100 + int64_t(corners.size())); };
			case 6: return [this, leaf] (std::vector<std::vector<std::string>> rows = name("rows"), std::optional<bool> last = name("lastOne")) { return done(leaf, arguments(rows, last), last.value_or(rows.size() % 2)); };
			case 7: return [this, leaf] (bool now = name("now"), std::string message = name("message")) { if (now) { ran.push_back({leaf, arguments(now, message), "null", true}); throw std::runtime_error(message); } return done(leaf, arguments(now, message), message + std::to_string(counter++)); };
			case 8: return [this, leaf] (std::vector<Shape> other = name("other"), Shape first = name("first"), std::optional<std::string> second = name("second")) { std::vector<Shape> r = other; r.push_back(first); if (second) { r.push_back(Shape()); r.back().name = *second; } return done(leaf, arguments(other, first, second), r); };
			case 10: return [this, leaf] (Corner from = name("From"), Corner to = name("to"), int other = name("from")) { return done(leaf, arguments(from, to, other), std::vector<Corner>{to, from, Corner()}); };
			default: return [this, leaf] (int a = name("a"), int b = name("b"), double c = name("c"), std::string d = name("d"), std::string e = name("e"), bool f = name("f"), Corner g = name("g")) { return done(leaf, arguments(a, b, c, d, e, f, g), d + "|" + e + std::to_string(counter++)); };
		}
	}
	void fill(Bomba::DynamicRpcObject& group, const std::string& prefix, int depth) {
		static const std::set<std::string> taken = {"gui", "types", "serviceName", "constructor", "source", "length", "name", "toString", "valueOf"};
		std::set<std::string> used = taken;
		for (int n = (depth == 0) + choose(WORK, depth == 0 ? 6 : 3); n > 0; n--) {
			std::string name;
			static const char* usual[] = {"set_message", "getAll", "x", "List", "HTTPServer", "delete", "class", "value2", "_hidden", "$"};
			if (choose(WORK, 2)) name = usual[choose(WORK, 9)]; else for (int k = 1 + choose(WORK, 9); k > 0; k--) name += "abcXYZ_q"[choose(WORK, 8)];
			if (!used.insert(name).second) continue;
			if (depth < 3 && chance(WORK, 200)) {
				Bomba::DynamicRpcObject inner;
				size_t before = offered.size();
				fill(inner, prefix + name + ".", depth + 1);
				if (offered.size() > before) group.add(name, std::move(inner));
			} else {
				int kind = choose(WORK, kinds.size()), leaf = int(offered.size());
				group.add(name, lambda(kind, leaf));
				offered.push_back({prefix + name, kind, leaf, kinds[kind]});
			}
		}
	}
};

// ---- arguments, as the script gets them and as the method should --------------------------------
struct Arg { std::string script, plain; };
static Arg genArg(const std::string& type, int depth = 0);
static Arg instance(const std::string& name, const std::vector<std::pair<std::string, Arg>>& members) {
	std::string script, plain;
	for (auto& [key, m] : members) { script += (script.empty() ? "" : ",") + m.script; plain += (plain.empty() ? "" : ",") + member(key, m.plain); }
	return {"{\"$new\":\"" + name + "\",\"args\":[" + script + "]}", "{" + plain + "}"};
}
static Arg genArg(const std::string& type, int depth) {
	auto both = [] (std::string s) { return Arg{s, s}; };
	if (type == "number") return both(j(int(genInt(32, true))));
	if (type == "real") return both(j(genDouble()));
	if (type == "string") return both(j(genText(depth ? 60 : 3000)));
	if (type == "boolean") return both(j(bool(choose(WORK, 2))));
	if (type == "Corner") return instance("Corner", {{"x", genArg("number")}, {"yAxis", genArg("real")}});
	if (type == "Shape") return instance("Shape", {{"name", genArg("string", 1)}, {"size", genArg("real")}, {"visible", genArg("boolean")}, {"corners", genArg("[Corner]", 1)}, {"marks", genArg("object")}, {"origin", genArg("Corner")}, {"layer", genArg("number")}, {"notes", genArg("[[string]]", 1)}});
	Arg r;
	if (type == "object") {
		std::map<std::string, int> table;
		for (int n = choose(WORK, 4); n > 0; n--) table[genText(10)] = int(genInt(32, true));
		return both(j(table));
	}
	for (int n = choose(WORK, 4); n > 0; n--) { Arg e = genArg(type.substr(1, type.size() - 2), depth + 1); const char* comma = r.script.empty() ? "" : ","; r.script += comma + e.script; r.plain += comma + e.plain; }
	return {"[" + r.script + "]", "[" + r.plain + "]"};
}
// All arguments may be left out, what isn't given has its default value
static std::string defaultArg(const Param& p) {
	if (p.nullable) return "null";
	if (p.type == "Corner") return j(Corner());
	if (p.type == "Shape") return j(Shape());
	return p.type == "number" ? "0" : p.type == "string" ? "\"\"" : p.type == "boolean" ? "false" : p.type == "object" ? "{}" : "[]";
}
// Something else than what is described
static std::string wrongArg(const std::string& type, bool inner) {
	std::vector<std::string> v = {"[]", "{}", "5", "0", "\"5\"", "\"\"", "true", "false", "{\"$new\":\"Corner\",\"args\":[1,2]}"};
	if (inner) { v.push_back("null"); v.push_back("{\"$undefined\":1}"); }
	const std::string corner = "{\"$new\":\"Corner\",\"args\":[1,2]}";
	std::set<std::string> fit = type == "number" ? std::set<std::string>{"5", "0"} : type == "string" ? std::set<std::string>{"\"5\"", "\"\""} : type == "boolean" ? std::set<std::string>{"true", "false"}
			: type == "object" ? std::set<std::string>{"{}"} : type[0] == '[' ? std::set<std::string>{"[]"} : type == "Corner" ? std::set<std::string>{corner} : std::set<std::string>{};
	v.erase(std::remove_if(v.begin(), v.end(), [&] (const std::string& s) { return fit.count(s); }), v.end());
	if (type == "object") v.erase(std::remove(v.begin(), v.end(), "{\"$new\":\"Corner\",\"args\":[1,2]}"), v.end()); // what is in a map isn't described
	if (type == "Shape" && !inner) { v.push_back("{\"$new\":\"Shape\",\"args\":[5]}"); v.push_back("{\"$new\":\"Shape\",\"args\":[\"\",1,true,[],{},{}]}"); v.push_back("{\"$new\":\"Shape\",\"args\":[\"\",1,true,[1]]}"); }
	if (type == "Corner" && !inner) v.push_back("{\"$new\":\"Corner\",\"args\":[1,\"2\"]}");
	if (type[0] == '[') { std::string inner = type.substr(1, type.size() - 2); v.push_back("[" + wrongArg(inner, true) + "]"); v.push_back("[" + genArg(inner, 2).script + "," + wrongArg(inner, true) + "]"); }
	return v[choose(WORK, v.size())];
}

// ---- the page -----------------------------------------------------------------------------------
struct Fetch { int call = -1; std::string method, path, body; bool broken = false, finished = false; int status = 0; std::string response; };
struct Page {
	Engine& engine = Engine::get();
	int commands = 0;
	bool browser, faults;
	std::vector<Fetch> fetches;
	std::map<std::string, std::pair<bool, std::string>> settled;
	std::set<std::string> unmade;
	Fibers fibers;
	std::vector<std::unique_ptr<Raw>> idle;
	bool loading = false;
	Page(bool faults) : browser(choose(WORK, 2)), faults(faults) {
		std::string nonce = fmt("%d-%lld", int(syscall(SYS_getpid)), (long long)clockNow());
		engine.write("\n{\"c\":\"reset\",\"nonce\":\"" + nonce + "\",\"mode\":\"" + (browser ? "browser" : "node") + "\"}\n");
		while (true) { // others may have left without reading
			std::string line = engine.readLine();
			JVal v;
			std::string why;
			if (!parseJson(line, v, why) || !v.get("nonce") || v.get("nonce")->text != nonce) continue;
			if (v.get("error")) violation("not-loaded", "bomba.js can't be loaded: " + v.get("error")->text);
			break;
		}
	}
	static long long clockNow() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
	JVal command(const std::string& text, int call = -1) {
		engine.write("{\"nonce\":\"\"," + text + "}\n");
		JVal v = parsed(engine.readLine());
		if (v.get("error") && v.get("error")->kind == JVal::STR) violation("script-error", "the script failed at " + cut(text) + ": " + v.get("error")->text);
		commands++;
		for (auto& e : v.get("events")->arr) {
			std::string kind = e.get("e")->text, id = e.get("id")->text;
			if (kind == "fetch") {
				Fetch f{call, e.get("method")->text, e.get("url")->text, e.get("body")->text};
				if (atoi(id.c_str()) != int(fetches.size())) sim::harnessError("fetches aren't in order");
				const std::string base = "http://0.0.0.0:8080/";
				if (f.path.starts_with(base)) f.path.erase(0, base.size() - 1);
				else if (!browser) violation("wrong-address", "a request was made to " + cut(f.path));
				if (!f.path.starts_with("/")) f.path.insert(0, "/");
				std::string headers;
				for (auto& h : e.get("headers")->arr) headers += h.arr[0].text + ": " + h.arr[1].text + "\r\n";
				note("fetch %s %s %s", id.c_str(), f.method.c_str(), f.path.c_str());
				fetches.push_back(f);
				int n = int(fetches.size()) - 1;
				fibers.start("fetch" + id, [this, n, headers] { transfer(n, headers); });
			} else if (kind == "done") {
				note("settled %s %d", id.c_str(), int(e.get("ok")->b));
				settled[id] = {e.get("ok")->b, e.get("value")->text};
			} else if (kind == "unmade") unmade.insert(id);
			else violation("settled-twice", "the outcome of " + id + " was given repeatedly");
		}
		return v.get("value") ? *v.get("value") : JVal();
	}
	void fail(int n) { fetches[n].broken = true; sim::fault("fetch-failed"); command(fmt("\"c\":\"fail\",\"id\":%d", n)); fetches[n].finished = true; }
	void transfer(int n, const std::string& headers) {
		if (choose(NET, 3)) sim::sleepFor(choose(NET, 3000) * US);
		int breaks = faults && sim::faultsAllowed() && chance(FAULT, 100) ? 1 + choose(FAULT, 4) : 0;
		if (breaks == 1) return fail(n);
		std::unique_ptr<Raw> raw;
		if (!idle.empty() && choose(NET, 4)) { raw = std::move(idle.back()); idle.pop_back(); }
		else { raw = std::make_unique<Raw>(); if (!raw->connectRetry(PORT)) violation("not-accepted", "can't connect"); }
		Fetch f = fetches[n];
		std::string bytes = f.method + " " + f.path + " HTTP/1.1\r\n" + headerLines({"Host: 0.0.0.0:8080", "Connection: keep-alive", "Accept: */*"}, chance(NET, 300)) + headers;
		if (!f.body.empty() || f.method == "POST") bytes += "Content-Length: " + std::to_string(f.body.size()) + "\r\n";
		bytes += "\r\n" + f.body;
		if (breaks == 2) { raw->send(std::string_view(bytes).substr(0, choose(FAULT, bytes.size()))); raw->reset(); return fail(n); }
		raw->sendPieces(bytes);
		if (breaks == 3) { if (choose(FAULT, 2)) sim::sleepFor(choose(FAULT, 3000) * US); raw->reset(); return fail(n); }
		std::vector<HttpMessage> got;
		std::string why;
		size_t pos = raw->in.size();
		if (!recvResponses(*raw, pos, 1, got, why, IDLE)) violation("no-response", cut(bytes) + " isn't answered: " + why);
		fetches[n].status = got[0].status;
		fetches[n].response = got[0].body;
		if (got[0].header("connection") == "close") raw->close(); else idle.push_back(std::move(raw));
		if (choose(NET, 4) == 0) sim::sleepFor(choose(NET, 30000) * US); // stuck in the system
		command(fmt("\"c\":\"head\",\"id\":%d,\"status\":%d", n, got[0].status));
		if (breaks == 4) return fail(n);
		if (choose(NET, 4) == 0) sim::sleepFor(choose(NET, 3000) * US);
		command(fmt("\"c\":\"body\",\"id\":%d,\"text\":", n) + jsonString(got[0].body, false));
		fetches[n].finished = true;
	}
	void settle() { fibers.joinAll(); }
	void load() {
		while (true) {
			size_t before = fetches.size();
			settled.erase("load");
			command("\"c\":\"load\"");
			settle();
			auto found = settled.find("load");
			if (found == settled.end()) violation("not-settled", "loading the interface has no outcome");
			bool broken = false;
			for (size_t i = before; i < fetches.size(); i++) broken |= fetches[i].broken;
			if (found->second.first && broken) violation("false-success", "the interface was loaded although its description wasn't received");
			if (found->second.first) return;
			if (!broken) violation("not-loaded", "the interface can't be loaded: " + found->second.second);
		}
	}
};
struct Site {
	Interface interface;
	Bomba::CachingFileServer files;
	Bomba::JsonRpcServer<std::string> protocol{interface.root, files};
	std::string service = genText(40);
	static int prepareDisk() { sim::fsReset(); sim::fsMkdir("/srv/www"); return 0; }
	int prepared = prepareDisk();
	Site() : files((prepareDisk(), "/srv/www")) {
		do interface.fill(interface.root, "", 0); while (interface.offered.empty());
		std::string description = Bomba::describeInJsonWsp<std::string>(interface.root, "localhost:8080", service);
		if (choose(WORK, 3) == 0) { // The order of members means nothing
			JVal v = parsed(description);
			auto mix = [] (JVal& v, const char* name) -> JVal& { for (auto& m : v.obj) if (m.first == name) { shuffle(m.second.obj); return m.second; } sim::harnessError("not described"); };
			for (auto& method : mix(v, "methods").obj) { mix(method.second, "params"); shuffle(method.second.obj); }
			shuffle(v.obj);
			description = jsonOf(v);
		}
		files.addGeneratedFile("api_description.json", description);
	}
};

// What came of a call, against what the server ran
struct Made { Offered method; std::vector<std::string> args; std::string id; int fetch = -1; };
static void judgeCall(Site& site, Page& page, const Made& call, std::set<std::string>& ids) {
	auto outcome = page.settled.find(call.id);
	std::string args = "[" + commas(call.args) + "]", text = call.method.path + cut(args);
	Fetch& f = page.fetches[call.fetch];
	if (!f.finished || outcome == page.settled.end()) violation("not-settled", "the promise for " + text + " isn't settled");
	auto [ok, value] = outcome->second;
	JVal request;
	std::string why;
	if (!parseJson(f.body, request, why) || !request.get("id")) violation("bad-request", text + " was sent as " + cut(f.body));
	if (!ids.insert(request.get("id")->text).second) violation("repeated-id", text + " has the same id as another call");
	if (f.broken) {
		if (ok) violation("false-success", text + " was fulfilled with " + cut(value) + " although no response was received");
		return;
	}
	for (auto& e : site.interface.ran) {
		if (e.used || e.leaf != call.method.leaf || !same(e.args, args)) continue;
		if (!e.failed && ok && !same(e.result, value)) continue;
		if (e.failed && ok) violation("false-success", text + " failed on the server but its promise was fulfilled with " + cut(value));
		if (!e.failed && !ok) violation("false-failure", text + " gave " + cut(e.result) + " on the server but its promise was rejected: " + cut(value));
		if (e.failed) {
			JVal response = parsed(f.response);
			if (response.get("error") && value != response.get("error")->get("message")->text) violation("wrong-error", text + " was rejected with " + cut(value) + " after " + cut(f.response));
		}
		e.used = true;
		return;
	}
	std::string log;
	for (auto& e : site.interface.ran) if (!e.used) log += " " + (e.leaf < int(site.interface.offered.size()) ? site.interface.offered[e.leaf].path : "?") + cut(e.args) + "=" + cut(e.result);
	violation("wrong-execution", text + " has the outcome " + cut(value) + " but the server ran" + log);
}
static void judgeRest(Site& site, Page& page, const std::vector<Made>& made) {
	for (auto& call : made) if (page.fetches[call.fetch].broken) // at most once
		for (auto& e : site.interface.ran) if (!e.used && e.leaf == call.method.leaf && same(e.args, "[" + commas(call.args) + "]")) { e.used = true; break; }
	for (auto& e : site.interface.ran) if (!e.used) violation("wrong-execution", "the server ran " + site.interface.offered[e.leaf].path + cut(e.args) + ", which wasn't called");
}

SCENARIO(script_calls) {
	swarmNet();
	Site site;
	ServerHost<Bomba::JsonRpcServer<std::string>> host(site.protocol, chance(WORK, 200));
	Page page(choose(FAULT, 2));
	page.load();
	JVal list = page.command("\"c\":\"list\"");
	std::set<std::string> there, wanted;
	for (auto& f : list.get("functions")->arr) there.insert(f.text);
	for (auto& o : site.interface.offered) wanted.insert(o.path);
	for (auto& f : there) if (!wanted.count(f)) violation("not-there", "the script has a function " + f + " that isn't offered");
	for (auto& f : wanted) if (!there.count(f)) violation("not-callable", "the script has no function " + f);
	if (list.get("service")->text != site.service) violation("wrong-name", "the service is called " + cut(list.get("service")->text));
	std::vector<Made> made;
	std::vector<std::string> refused;
	for (int n = 1 + choose(WORK, 12); n > 0; n--) {
		const Offered& method = pick(WORK, site.interface.offered);
		Made call{method};
		call.id = "c" + std::to_string(made.size() + refused.size());
		std::vector<std::string> script;
		bool rightful = true;
		for (auto& p : method.params) {
			std::string type = p.type;
			if (p.name == "factor" || p.name == "c") type = "real";
			if (chance(WORK, p.nullable ? 500 : 100)) { script.push_back(choose(WORK, 2) ? "null" : "{\"$undefined\":1}"); call.args.push_back(defaultArg(p)); continue; }
			Arg a = genArg(type);
			if (chance(WORK, 30)) { a.script = wrongArg(p.type, false); rightful = false; }
			script.push_back(a.script);
			call.args.push_back(a.plain);
		}
		if (choose(WORK, 2)) for (int i = int(method.params.size()) - 1; i >= 0 && (script[i] == "null" || script[i] == "{\"$undefined\":1}"); i--) script.pop_back();
		size_t before = page.fetches.size();
		page.command("\"c\":\"call\",\"id\":\"" + call.id + "\",\"path\":" + jsonString(method.path, false) + ",\"args\":[" + commas(script) + "]");
		std::string text = method.path + cut("[" + commas(script) + "]");
		if (page.unmade.count(call.id) && !rightful) { refused.push_back(call.id); continue; } // uses a class that isn't there
		if (page.unmade.count(call.id)) violation("not-constructible", "the arguments of " + text + " can't be made");
		if (rightful) {
			if (page.fetches.size() != before + 1) violation("not-sent", text + (page.settled.count(call.id) ? " was refused: " + page.settled[call.id].second : fmt(" made %d requests", int(page.fetches.size() - before))));
			call.fetch = int(before);
			made.push_back(call);
		} else {
			if (page.fetches.size() != before) violation("not-refused", text + " was sent as " + cut(page.fetches[before].body));
			if (!page.settled.count(call.id)) violation("not-settled", "the promise for " + text + " isn't settled");
			if (page.settled[call.id].first) violation("false-success", text + " was fulfilled without being sent");
			refused.push_back(call.id);
		}
		switch (choose(SCHED, 4)) { case 0: page.settle(); break; case 1: sim::sleepFor(choose(SCHED, 3000) * US); break; }
	}
	page.settle();
	std::set<std::string> ids;
	for (auto& call : made) judgeCall(site, page, call, ids);
	judgeRest(site, page, made);
	sim::count("script-calls", made.size());
	sim::count("script-calls-refused", refused.size());
	sim::count("engine-commands", page.commands);
	if (made.size() > 1) sim::nontrivial();
}

// The values a form's fields give, in the order of the fields, appended to those to be entered
static std::string fillFields(const std::string& type, std::vector<std::string>& entered, const std::string& name) {
	if (type == "number" || type == "real") { std::string v = genArg(name == "factor" || name == "c" || type == "real" ? "real" : "number").plain; entered.push_back(v); return v; }
	if (type == "string") { std::string v; do v = genArg("string").plain; while (v.find("\\n") != std::string::npos || v.find("\\r") != std::string::npos || v.find("\\u000") != std::string::npos); entered.push_back(v); return v; }
	if (type == "boolean") { std::string v = genArg("boolean").plain; entered.push_back(v); return v; }
	if (type == "object") return "{}";
	if (type[0] == '[') return "[]";
	static const std::map<std::string, std::vector<Param>> members = {{"Corner", {{"x", "number"}, {"yAxis", "real"}}},
		{"Shape", {{"name", "string"}, {"size", "real"}, {"visible", "boolean"}, {"corners", "[Corner]"}, {"marks", "object"}, {"origin", "Corner"}, {"layer", "number"}, {"notes", "[[string]]"}}}};
	std::string r;
	for (auto& m : members.at(type)) r += (r.empty() ? "" : ",") + member(m.name, fillFields(m.type, entered, m.name));
	return "{" + r + "}";
}
SCENARIO(script_forms) {
	swarmNet();
	Site site;
	ServerHost<Bomba::JsonRpcServer<std::string>> host(site.protocol, chance(WORK, 200));
	Page page(choose(FAULT, 2));
	page.load();
	std::vector<Made> made;
	auto buttons = [&] (const JVal& v, const std::string& what) {
		if (v.get("error")) violation("no-form", "the form of " + what + " can't be made: " + v.get("error")->text);
		std::vector<std::vector<std::string>> r;
		for (auto& b : v.get("buttons")->arr) { r.emplace_back(); for (auto& i : b.arr) r.back().push_back(i.text); }
		return r;
	};
	auto press = [&] (const std::string& form, int button, const Offered& method, const std::vector<std::string>& types) {
		Made call{method};
		std::vector<std::string> entered;
		for (auto& p : method.params) call.args.push_back(fillFields(p.type, entered, p.name));
		if (entered.size() != types.size()) violation("wrong-form", fmt("the form of %s has %d fields instead of %d", method.path.c_str(), int(types.size()), int(entered.size())));
		for (size_t i = 0; i < types.size(); i++) if ((types[i] == "checkbox") != (entered[i] == "true" || entered[i] == "false") || (types[i] == "number") != (entered[i][0] == '-' || isdigit(entered[i][0])))
			violation("wrong-form", fmt("field %d of the form of %s is for a %s", int(i), method.path.c_str(), types[i].c_str()));
		size_t before = page.fetches.size();
		page.command("\"c\":\"press\",\"form\":" + form + ",\"button\":" + std::to_string(button) + ",\"values\":[" + commas(entered) + "]");
		if (page.fetches.size() != before + 1) violation("not-sent", fmt("pressing the button of %s made %d requests", method.path.c_str(), int(page.fetches.size() - before)));
		call.fetch = int(before);
		made.push_back(call);
		return call;
	};
	auto shown = [&] (const std::string& form, int button, const Made& call) {
		const Fetch& f = page.fetches[call.fetch];
		if (f.broken || !f.finished) return;
		JVal response = parsed(f.response);
		const JVal* result = response.get("result");
		if (!result || (result->kind != JVal::STR && result->kind != JVal::BOOL && result->kind != JVal::NUM) || result->text == "null") return;
		std::string want = result->kind == JVal::STR ? result->text : result->kind == JVal::BOOL ? (result->b ? "true" : "false") : result->text;
		bool found = false;
		for (auto& t : page.command("\"c\":\"texts\",\"form\":" + form + ",\"button\":" + std::to_string(button)).arr) found |= t.text == want;
		if (!found) violation("not-shown", "the form of " + call.method.path + " doesn't show the result " + cut(want));
	};
	if (choose(WORK, 2)) { // of single methods
		for (int n = 1 + choose(WORK, 3); n > 0; n--) {
			const Offered& method = pick(WORK, site.interface.offered);
			JVal v = page.command("\"c\":\"form\",\"path\":" + jsonString(method.path, false));
			auto all = buttons(v, method.path);
			if (all.size() != 1) violation("wrong-form", fmt("the form of %s has %d buttons", method.path.c_str(), int(all.size())));
			for (int times = 1 + choose(WORK, 3); times > 0; times--) {
				bool alone = choose(WORK, 3); // otherwise which result is shown depends on their order
				if (alone) page.settle();
				Made call = press(v.get("form")->text, 0, method, all[0]);
				if (alone) { page.settle(); shown(v.get("form")->text, 0, call); }
			}
		}
	} else { // of everything
		JVal v = page.command("\"c\":\"form\",\"path\":null");
		auto all = buttons(v, "everything");
		if (all.size() != site.interface.offered.size()) violation("wrong-form", fmt("the form of everything has %d buttons instead of %d", int(all.size()), int(site.interface.offered.size())));
		// Which is which follows from what pressing it sends
		bool faults = page.faults;
		page.faults = false;
		std::vector<const Offered*> of(all.size());
		std::set<std::string> found;
		for (size_t b = 0; b < all.size(); b++) {
			std::string values;
			for (auto& type : all[b]) values += (values.empty() ? "" : ",") + std::string(type == "checkbox" ? "false" : "0");
			size_t before = page.fetches.size();
			page.command(fmt("\"c\":\"press\",\"form\":%s,\"button\":%d,\"values\":[", v.get("form")->text.c_str(), int(b)) + values + "]");
			if (page.fetches.size() != before + 1) violation("not-sent", fmt("pressing a button made %d requests", int(page.fetches.size() - before)));
			JVal request = parsed(page.fetches[before].body);
			for (auto& o : site.interface.offered) if (request.get("method") && o.path == request.get("method")->text) of[b] = &o;
			if (!of[b] || !found.insert(of[b]->path).second) violation("wrong-form", "a button sent " + cut(page.fetches[before].body));
			if (choose(WORK, 2)) page.settle();
		}
		page.settle();
		page.faults = faults;
		site.interface.ran.clear();
		for (int n = 1 + choose(WORK, 5); n > 0; n--) {
			int b = choose(WORK, all.size());
			bool alone = choose(WORK, 3);
			if (alone) page.settle();
			Made call = press(v.get("form")->text, b, *of[b], all[b]);
			if (alone) { page.settle(); shown(v.get("form")->text, b, call); }
		}
	}
	page.settle();
	// Forms tell nobody about the outcome of calls: what ran is what was entered
	std::stable_partition(made.begin(), made.end(), [&] (const Made& call) { return !page.fetches[call.fetch].broken; });
	for (auto& call : made) {
		std::string args = "[" + commas(call.args) + "]";
		bool ran = false;
		for (auto& e : site.interface.ran) if (!e.used && !ran && e.leaf == call.method.leaf && same(e.args, args)) e.used = ran = true;
		if (!ran && !page.fetches[call.fetch].broken) {
			std::string log;
			for (auto& e : site.interface.ran) if (!e.used) log += " " + site.interface.offered[e.leaf].path + cut(e.args);
			violation("wrong-execution", call.method.path + cut(args) + " was entered but the server ran" + log);
		}
	}
	for (auto& e : site.interface.ran) if (!e.used) violation("wrong-execution", "the server ran " + site.interface.offered[e.leaf].path + cut(e.args) + ", which wasn't entered");
	sim::count("forms-sent", made.size());
	if (made.size() > 1) sim::nontrivial();
}
