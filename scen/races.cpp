// T01: data races.  Built with the race runtime (sim/race.cpp), see there.  The harness's own fibers share
// nothing but what the operations of the library share; where they must, a sim::Harness scope says so.
#include "common.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_object.hpp"
#include "bomba_dynamic_object.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_binary_protocol.hpp"
#include "bomba_tcp_server.hpp"
#include "bomba_sync_client.hpp"
#include "bomba_download_server.hpp"
#include "bomba_json_wsp_description.hpp"

constexpr int64_t IDLE = 2000 * SEC;

struct Item : Bomba::Serialisable<Item> {
	int x = key<"x"> = 0;
	std::string name = key<"name">;
	std::vector<int> tags = key<"tags">;
	Bomba::Optional<int> extra = key<"extra">;
};
struct Group : Bomba::RpcObject<Group> {
	int64_t total = 0;
	Bomba::RpcMember<[] (Group* p, int by = Bomba::name("by")) { return p->total += by; }> bump = child<"bump">;
	Bomba::RpcMember<[] (int a = Bomba::name("a"), int b = Bomba::name("b")) { return int64_t(a) * b; }> times = child<"times">;
	Bomba::RpcMember<[] (std::string text = Bomba::name("text")) { return text + text; }> twice = child<"twice">;
	Bomba::RpcMember<[] (Item item = Bomba::name("item"), std::map<std::string, int> table = Bomba::name("table")) {
		item.x += int(table.size());
		for (auto& [k, v] : table) { item.name += k; item.tags.push_back(v); }
		if (item.extra) item.extra.reset(); else item.extra = item.x;
		return item;
	}> merge = child<"merge">;
	Bomba::RpcMember<[] (std::string text = Bomba::name("text")) { if (text.size() < 50) throw std::runtime_error(text); }> fail = child<"fail">;
};
static void swarmRaces() {
	sim::Harness h;
	NetOptions o;
	o.smallBuffers = o.stalls = false;
	swarmNet(o);
	auto& p = sim::params();
	p.segMode = chance(FAULT, 700) ? 0 : 1;
	p.memPreempt = chance(FAULT, 800);
	p.memPreemptEvery = pick(FAULT, std::vector<uint32_t>{20, 100, 500, 3000});
}
// Threads of the user
struct Threads {
	std::vector<std::thread> all;
	template <typename F> void start(F f) { all.emplace_back(std::move(f)); }
	void join() { for (auto& t : all) t.join(); all.clear(); }
};
static std::string httpPost(const std::string& body) { return "POST / HTTP/1.1\r\nContent-Type: application/json\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body; }
// A peer with its own connection, which nobody else looks at
static void askHttp(int port, int count, const std::function<std::string(int)>& request) {
	sim::Harness h;
	Raw raw;
	if (!raw.connectRetry(port)) return;
	size_t pos = 0;
	for (int i = 0; i < count; i++) {
		if (!raw.send(request(i))) return;
		HttpMessage m;
		std::string why;
		Parsed p = Parsed::MORE;
		raw.recvUntil([&] { return (p = parseResponse(raw.in, pos, m, why)) != Parsed::MORE; }, IDLE);
		if (p != Parsed::OK) return;
		sim::count("race.responses");
		if (chance(WORK, 200)) sim::sleepFor(range(WORK, 0, 3) * MS);
	}
}
static void endOfRun() {
	sim::count("race.accesses-checked", sim::accessesChecked());
	if (sim::accessesChecked() > 1000) sim::nontrivial();
}

// ---- statistics of a running server, stopping it from another thread ------------------------------
template <typename Protocol> void statistics(Protocol& protocol, const std::function<std::string(int)>& request, const std::function<void(int, int)>& ask) {
	int askers, peers, times, mode;
	{
		sim::Harness h;
		askers = 1 + choose(WORK, 2); peers = 1 + choose(WORK, 3); times = 1 + choose(WORK, 12); mode = choose(WORK, 3);
	}
	if (mode == 2) { // polled by one thread, asked by others
		Bomba::TcpServer<Protocol> server(protocol, 8080);
		std::atomic<bool> stop = false;
		Threads threads, poller;
		poller.start([&] { while (!stop) { server.runARound(); sim::sleepFor(100 * US); } });
		for (int i = 0; i < peers; i++) threads.start([&ask, i, times] { ask(8080, times); });
		for (int i = 0; i < askers; i++) threads.start([&server, times] { for (int k = 0; k < times * 2; k++) { server.averageResponseTime(); sim::sleepFor(300 * US); } });
		threads.join();
		stop = true;
		poller.join();
		return;
	}
	auto server = std::make_unique<Bomba::BackgroundTcpServer<Protocol>>(protocol, 8080);
	Threads threads, users;
	for (int i = 0; i < peers; i++) threads.start([&ask, i, times] { ask(8080, times); });
	for (int i = 0; i < askers; i++) users.start([&server, times] { for (int k = 0; k < times * 2; k++) { server->averageResponseTime(); sim::sleepFor(300 * US); } });
	users.join();
	// Stopped here or elsewhere, while the peers may still be at it
	if (mode == 1) {
		Threads stopper;
		stopper.start([&server] { server.reset(); });
		stopper.join();
	} else {
		if (times % 2) threads.join();
		server.reset();
	}
	threads.join();
}
SCENARIO(race_statistics) {
	swarmRaces();
	bool binary;
	{ sim::Harness h; binary = choose(WORK, 2); }
	Group group;
	if (binary) {
		Bomba::BinaryProtocolServer<> protocol(group);
		statistics(protocol, nullptr, [] (int port, int times) {
			sim::Harness h;
			Raw raw;
			if (!raw.connectRetry(port)) return;
			for (int i = 0; i < times; i++) {
				std::string m = {char(i), 0, 0, 0, 11, 0, 0, 1, 0, 0, 0};
				if (!raw.send(m) || !raw.recvUntil([&] { return raw.in.size() >= size_t(i + 1) * 14; }, 100 * MS)) return;
				sim::count("race.responses");
			}
		});
	} else {
		Bomba::JsonRpcServer<> protocol(group);
		statistics(protocol, nullptr, [] (int port, int times) {
			askHttp(port, times, [] (int i) { return httpPost("{\"jsonrpc\":\"2.0\",\"id\":" + std::to_string(i) + ",\"method\":\"bump\",\"params\":{\"by\":" + std::to_string(i) + "}}"); });
		});
	}
	endOfRun();
}

// ---- caching file server: served by servers and directly while it is modified ---------------------
struct Collect : Bomba::IWriteStarter {
	std::string type, body;
	void writeKnownSize(std::string_view resourceType, int64_t size, Bomba::Callback<void(Bomba::GeneralisedBuffer&)> writer) override {
		type = resourceType;
		Bomba::ExpandingBuffer<> buffer;
		writer(buffer);
		body = std::string(std::string_view(buffer));
	}
	void writeUnknownSize(std::string_view resourceType, Bomba::Callback<void(Bomba::GeneralisedBuffer&)> writer) override { writeKnownSize(resourceType, 0, writer); }
};
SCENARIO(race_files) {
	swarmRaces();
	int readers, writers, servers, rounds;
	{
		sim::Harness h;
		sim::fsReset();
		sim::fsMkdir("/srv/www/sub");
		for (auto n : {"/index.html", "/a.txt", "/b", "/sub/c.css"}) if (chance(WORK, 700)) sim::fsWrite(std::string("/srv/www") + n, std::string(choose(WORK, 300), char('a' + choose(WORK, 26))));
		sim::params().diskYieldPermille = chance(DISK, 500) ? 50 : 0;
		readers = choose(WORK, 4); writers = 1 + choose(WORK, 2); servers = choose(WORK, 3); rounds = 1 + choose(WORK, 5);
	}
	Bomba::CachingFileServer files("/srv/www");
	Threads threads;
	{
		std::vector<std::unique_ptr<Bomba::HttpServer<>>> protocols;
		std::vector<std::unique_ptr<Bomba::BackgroundTcpServer<Bomba::HttpServer<>>>> hosts;
		static const char* paths[] = {"/index.html", "/", "/a.txt", "/b", "/sub/c.css", "/gen0", "/gen1.html", "/none"};
		for (int s = 0; s < servers; s++) {
			protocols.push_back(std::make_unique<Bomba::HttpServer<>>(files));
			hosts.push_back(std::make_unique<Bomba::BackgroundTcpServer<Bomba::HttpServer<>>>(*protocols.back(), 8080 + s));
			threads.start([s, rounds] { askHttp(8080 + s, rounds * 2, [] (int) { return std::string("GET ") + paths[choose(WORK, 8)] + " HTTP/1.1\r\nHost: x\r\n\r\n"; }); });
		}
		for (int r = 0; r < readers; r++) threads.start([&files, rounds] {
			for (int i = 0; i < rounds * 3; i++) {
				int k;
				{ sim::Harness h; k = choose(WORK, 8); }
				Collect c;
				files.get(paths[k], c);
			}
		});
		for (int w = 0; w < writers; w++) threads.start([&files, w, rounds] {
			for (int i = 0; i < rounds; i++) {
				int what, k;
				{ sim::Harness h; what = choose(WORK, 8); k = choose(WORK, 400); if (chance(WORK, 300)) sim::sleepFor(range(WORK, 0, 2) * MS); }
				if (what < 2) files.reload();
				else if (what == 2) files.reset();
				else if (what < 5) { std::vector<char> v(k, 'v'); files.addGeneratedFile(what == 3 ? "gen0" : "gen1.html", std::move(v)); }
				else { std::string s(k, 'g'); files.addGeneratedFile("gen1.html", s); }
			}
		});
		threads.join();
	}
	endOfRun();
}

// ---- separate objects, servers and clients in separate threads ------------------------------------
static std::string genShort() { sim::Harness h; return genText(60); }
static int64_t genNumber() { sim::Harness h; return int(choose(WORK, 2000)) - 1000; }
static uint32_t pickOne(uint32_t n) { sim::Harness h; return choose(WORK, n); }
static void expect(bool ok, const char* what) { sim::Harness h; if (!ok) violation("wrong-result", std::string(what) + " gave a wrong result"); }
static void useRemote(Group& remote) {
	int64_t total = 0;
	for (int n = 1 + pickOne(4); n > 0; n--) switch (pickOne(7)) {
		case 0: { int by = genNumber(); expect(remote.bump(by) == (total += by), "bump"); break; }
		case 1: { int a = genNumber(), b = genNumber(); expect(remote.times(a, b) == int64_t(a) * b, "times"); break; }
		case 2: { std::string s = genShort(); expect(remote.twice(s) == s + s, "twice"); break; }
		case 3: {
			Item item;
			item.x = genNumber();
			item.name = genShort();
			std::map<std::string, int> table = {{"k", int(genNumber())}};
			Item got = remote.merge(item, table);
			expect(got.x == item.x + 1 && got.name == item.name + "k" && got.tags.size() == 1 && got.tags[0] == table["k"] && got.extra && *got.extra == got.x, "merge");
			break;
		}
		case 4: {
			auto a = remote.times.async(3, n);
			auto b = remote.twice.async(std::string("xy"));
			expect(b.get() == "xyxy", "twice");
			expect(a.get() == 3 * n, "times");
			break;
		}
		case 5: { std::string s(60 + n, 's'); remote.fail(s); break; }
		case 6: { auto a = remote.twice.async(std::string("q")); while (!a.is_ready()) sim::sleepFor(200 * US); expect(a.get() == "qq", "twice"); break; }
	}
}
template <typename Server, typename MakeClient> void ownCorner(int port, MakeClient makeClient) {
	auto object = std::make_unique<Group>();
	Server protocol(*object);
	auto host = std::make_unique<Bomba::BackgroundTcpServer<Server>>(protocol, port);
	if (pickOne(2)) { // the client in a thread of its own
		Threads t;
		t.start([port, makeClient] { makeClient(port); });
		t.join();
	} else makeClient(port);
	if (pickOne(2)) host->averageResponseTime();
	host.reset();
}
static void jsonClient(int port) {
	Group remote;
	Bomba::SyncNetworkClient net("127.0.0.1", std::to_string(port));
	Bomba::JsonRpcClient<> client(remote, net, "example.com");
	useRemote(remote);
	try { if (pickOne(2)) { std::string s = "short"; remote.fail(s); } } catch (Bomba::RemoteError&) {}
}
static void binaryClient(int port) {
	Group remote;
	Bomba::SyncNetworkClient net("127.0.0.1", std::to_string(port));
	Bomba::BinaryProtocolClient<> client(remote, net);
	useRemote(remote);
}
static void localUse(int which) {
	if (which == 0) { // texts of objects
		Item item;
		item.name = genShort();
		item.tags = {1, 2, int(genNumber())};
		std::string text = item.serialise<Bomba::BasicJson<>>();
		Item other;
		other.deserialise<Bomba::BasicJson<>>(text);
		expect(other.name == item.name && other.tags == item.tags, "reading back JSON");
		std::string bytes = item.serialise<Bomba::BinaryFormat<>>();
		Item third;
		third.deserialise<Bomba::BinaryFormat<>>(bytes);
		expect(third.name == item.name && third.tags == item.tags, "reading back binary data");
	} else if (which == 1) { // objects built at run time
		Group group;
		Bomba::DynamicRpcObject root;
		root.add("group", Bomba::RpcLambdaHolder::nonOwning(group));
		root.add("plus", [] (int a = Bomba::name("a"), int b = Bomba::name("b")) { return a + b; });
		std::string description = Bomba::describeInJsonWsp(group, "http://example.com", "Example");
		expect(description.find("times") != std::string::npos, "the description");
	} else {
		Bomba::DynamicFileServer files("/srv/www");
		files.addGeneratedFile("gen", true, [] (Bomba::Callback<void(std::span<const char>)> write) { write(std::span<const char>("constant", 8)); });
		for (auto path : {"/index.html", "/gen", "/none.css"}) { Collect c; files.get(path, c); }
	}
}
SCENARIO(race_separate) {
	swarmRaces();
	int corners, kinds[4];
	{
		sim::Harness h;
		sim::fsReset();
		sim::fsMkdir("/srv/www");
		sim::fsWrite("/srv/www/index.html", "hello");
		corners = 2 + choose(WORK, 3);
		for (int& k : kinds) k = choose(WORK, 4);
	}
	Threads threads;
	for (int i = 0; i < corners; i++) threads.start([kind = kinds[i], port = 8080 + i] {
		if (kind == 0) ownCorner<Bomba::JsonRpcServer<>>(port, jsonClient);
		else if (kind == 1) ownCorner<Bomba::BinaryProtocolServer<>>(port, binaryClient);
		else { int n = 1 + pickOne(3); for (int k = 0; k < n; k++) localUse(pickOne(3)); if (kind == 2) ownCorner<Bomba::JsonRpcServer<>>(port, jsonClient); }
	});
	threads.join();
	endOfRun();
}
