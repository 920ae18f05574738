// Scenarios about remote calls, written once for both protocols.
#pragma once
#include <cxxabi.h>
#include "api.hpp"
#include "proxy.hpp"
#include "bomba_tcp_server.hpp"
#include "bomba_sync_client.hpp"

constexpr int PORT = 8080;
constexpr int64_t IDLE = 2000 * SEC; // nothing takes so long unless something is stuck

// ---- a server running in the background or polled by a fiber ------------------------------------
template <typename Protocol> struct ServerHost {
	std::unique_ptr<Bomba::BackgroundTcpServer<Protocol>> background;
	std::unique_ptr<Bomba::TcpServer<Protocol>> polled;
	bool stop = false;
	int fiber = -1;
	ServerHost(Protocol& protocol, bool poll, int port = PORT) {
		if (!poll) { background = std::make_unique<Bomba::BackgroundTcpServer<Protocol>>(protocol, port); return; }
		polled = std::make_unique<Bomba::TcpServer<Protocol>>(protocol, port);
		fiber = sim::spawn("poller", [this] {
			double slowdown = 1; // long waits shouldn't take many rounds
			for (int round = 0; !stop; round++) {
				polled->runARound();
				if (round > 2000 && slowdown < 1e6) slowdown *= 1.005;
				sim::sleepFor(std::min<int64_t>(100 * MS, slowdown * pick(SCHED, std::vector<int64_t>{1 * MS + sim::params().maxDelay / 2, 100 * US, 10 * US})));
			}
		});
	}
	void end() {
		if (fiber >= 0) { stop = true; sim::join(fiber); fiber = -1; }
		background.reset();
		polled.reset();
	}
	~ServerHost() { end(); }
};
inline std::string exceptionText(std::exception& e) { int st = 0; char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st); std::string r = std::string(n ? n : "?") + ": " + e.what(); free(n); return r; }

inline size_t swarmTextSize(size_t usual, size_t big) {
	auto& p = sim::params();
	if (p.sndBuf < 100 || p.rcvBuf < 100 || p.segMode == 2) return 300;
	if (chance(WORK, 80)) return big;
	return usual;
}
inline void swarmProcessing(Impl& impl) {
	if (!chance(WORK, 300)) return;
	int64_t most = pick(WORK, std::vector<int64_t>{10 * US, 2 * MS, 300 * MS});
	impl.onCall = [most] { if (chance(WORK, 300)) sim::sleepFor(range(WORK, 0, most)); };
}

// ---- R01, R02: calls over a working connection ---------------------------------------------------
template <typename P> void callScenario() {
	swarmNet();
	if (chance(FAULT, 150)) sim::params().eintrPermille = 30;
	if constexpr (requires { P::tls; }) sim::params().eintrPermille = 0; // Asio doesn't continue after those
	int shape = choose(WORK, P::deep ? 5 : 4);
	int clients = chance(WORK, 500) ? 1 : 2 + choose(WORK, 3);
	size_t maxText = swarmTextSize(P::usualText, P::bigText);
	bool many = chance(WORK, 8); // so many that numbers of requests grow
	if (many) { auto& p = sim::params(); p.segMode = 0; p.sndBuf = p.rcvBuf = 1 << 20; maxText = 30; clients = 1; sim::count("config.many-calls"); }
	mostText = P::mostText;
	anyDouble = P::anyByte;
	deepNesting = P::deep;
	struct Site { // There may be several in a process, with objects of their own
		Tree served;
		typename P::Server protocol;
		ServerHost<typename P::Server> host;
		Site(int shape, int port) : served(shape), protocol(*served.top), host(protocol, chance(WORK, 200), port) { swarmProcessing(served.impl); }
	};
	int sites = clients > 1 && chance(WORK, 250) ? 2 : 1;
	if (sites > 1) sim::count("config.two-servers");
	Site first(shape, PORT);
	std::unique_ptr<Site> second = sites > 1 ? std::make_unique<Site>(shape, PORT + 1) : nullptr;
	struct Made { Call call; std::string got; };
	std::vector<std::vector<Made>> made(clients);
	Fibers fibers;
	for (int c = 0; c < clients; c++) fibers.start("client" + std::to_string(c), [&, c] {
		Tree remote(shape);
		std::string doing = "connecting";
		try {
			Bomba::SyncNetworkClient net("127.0.0.1", std::to_string(PORT + c % sites));
			typename P::Client client = P::client(*remote.top, net);
			int n = many ? 260 + choose(WORK, 300) : 1 + choose(WORK, 8);
			for (int i = 0; i < n; i++) {
				made[c].push_back({genCall(c, maxText, P::anyByte, clients > 1), ""});
				doing = made[c].back().call.text;
				note("client %d calls %s", c, cut(doing).c_str());
				std::string got = made[c].back().call.run(remote.api);
				made[c].back().got = got;
				if (chance(WORK, 200)) sim::sleepFor(range(WORK, 0, 20) * MS);
			}
		} catch (std::exception& e) { violation("call-threw", "client " + std::to_string(c) + ": " + cut(doing) + " over a working connection threw " + exceptionText(e)); }
	});
	fibers.joinAll();
	// The order of execution on the server is the order that must explain all results.
	std::vector<size_t> next(clients, 0);
	size_t ran = 0;
	for (int site = 0; site < sites; site++) {
		Impl model;
		Tree& served = site ? second->served : first.served;
		for (auto& entry : served.impl.log) {
			bool found = false;
			for (int c = site; c < clients && !found; c += sites) {
				if (next[c] >= made[c].size() || made[c][next[c]].call.text != entry) continue;
				auto& m = made[c][next[c]++];
				found = true;
				std::string expected = m.call.model(model);
				if (m.got != expected) violation("wrong-result", "client " + std::to_string(c) + ": " + cut(entry) + " returned " + cut(m.got) + ", executing the calls in the server's order gives " + cut(expected) + "; " + firstDifference(m.got, expected));
			}
			if (!found) {
				std::string want;
				for (int c = site; c < clients; c += sites) if (next[c] < made[c].size()) want += " [" + cut(made[c][next[c]].call.text) + "]";
				violation("wrong-execution", "the server ran " + cut(entry) + ", next expected:" + want);
			}
		}
		if (!served.otherImpl.log.empty()) violation("wrong-object", "a method ran on another object of the tree: " + cut(served.otherImpl.log[0]));
		ran += served.impl.log.size();
	}
	for (int c = 0; c < clients; c++) if (next[c] != made[c].size()) violation("not-executed", cut(made[c][next[c]].call.text) + " returned but never ran on the server");
	sim::count("calls", ran);
	if (ran > 1) sim::nontrivial();
}

// ---- M01, M02: calls in flight together ---------------------------------------------------------
template <typename P> void pipelineScenario() {
	NetOptions o;
	o.smallBuffers = false; // a client that does not read while it writes needs room for the responses
	swarmNet(o);
	int shape = choose(WORK, 4);
	Tree served(shape), remote(shape);
	typename P::Server protocol(*served.top);
	swarmProcessing(served.impl);
	ServerHost<typename P::Server> host(protocol, chance(WORK, 200));
	struct Flight { int number; std::string text, expected; std::unique_ptr<Pending> pending; bool ended = false; };
	std::vector<std::string> sent;
	std::vector<Flight> open;
	Impl model;
	std::string doing = "connecting";
	try {
		Bomba::SyncNetworkClient net("127.0.0.1", std::to_string(PORT));
		typename P::Client client = P::client(*remote.top, net);
		int total = 2 + choose(WORK, 11), started = 0;
		size_t maxText = chance(WORK, 150) ? 12000 : 1200;
		int collectBias = choose(WORK, 3);
		if (chance(WORK, 8)) { // so many that numbers of requests grow
			auto& p = sim::params();
			p.segMode = 0;
			p.sndBuf = p.rcvBuf = 1 << 22;
			total = 260 + choose(WORK, 300);
			maxText = 30;
			collectBias = 0;
			sim::count("config.many-calls");
		}
		auto collect = [&](size_t i) {
			Flight& f = open[i];
			doing = "collecting " + cut(f.text);
			note("collect %d", f.number);
			std::string got = f.pending->get();
			if (got != f.expected) violation("wrong-result", "call " + std::to_string(f.number) + " " + cut(f.text) + " gave " + cut(got) + ", expected " + cut(f.expected) + "; " + firstDifference(got, f.expected));
			sim::count("collected");
		};
		while (started < total || !open.empty()) {
			int what = choose(WORK, 10);
			if (started < total && (what < 4 || open.empty() || (collectBias == 0 && started < total))) {
				Flight f;
				Call c = genCall(0, maxText, P::anyByte, false);
				f.number = started++;
				f.text = c.text;
				f.expected = c.model(model);
				doing = "starting " + cut(c.text);
				note("start %d %s", f.number, cut(c.text).c_str());
				sent.push_back(c.text);
				f.pending = c.start(remote.api);
				open.push_back(std::move(f));
			} else if (what < 7) {
				size_t i = choose(WORK, open.size());
				collect(i);
				if (chance(WORK, 300)) collect(i); // the value stays available
				open.erase(open.begin() + i);
			} else if (what == 7) {
				size_t i = choose(WORK, open.size());
				doing = "discarding " + cut(open[i].text);
				note("discard %d", open[i].number);
				open.erase(open.begin() + i);
			} else if (what == 8) {
				size_t i = choose(WORK, open.size());
				doing = "polling " + cut(open[i].text);
				bool ready = open[i].pending->ready();
				note("ready %d: %d", open[i].number, ready);
				if (ready) {
					uint64_t before = sim::waitCount();
					collect(i);
					if (sim::waitCount() != before) violation("ready-but-waits", "call " + std::to_string(open[i].number) + " was reported ready but collecting it had to wait");
					open.erase(open.begin() + i);
				}
			} else sim::sleepFor(range(WORK, 0, 30) * MS);
		}
		doing = "the last call";
		Call last = makeCall<int64_t>("bump", &Api::bump, 1);
		sent.push_back(last.text);
		model.counter++;
		std::string got = last.run(remote.api); // calls whose results were discarded have run when this one has
		if (got != showArgs(model.counter)) violation("wrong-result", "the last call " + last.text + " gave " + got + ", expected " + showArgs(model.counter));
	} catch (std::exception& e) { violation("call-threw", doing + " threw " + exceptionText(e)); }
	if (served.impl.log != sent) {
		size_t i = 0;
		while (i < sent.size() && i < served.impl.log.size() && sent[i] == served.impl.log[i]) i++;
		violation("wrong-execution", fmt("the client made %zu calls, the server ran %zu; first difference at %zu: ", sent.size(), served.impl.log.size(), i) + (i < served.impl.log.size() ? cut(served.impl.log[i]) : "nothing") + " instead of " + (i < sent.size() ? cut(sent[i]) : "nothing"));
	}
	sim::nontrivial();
}

// ---- M03: polling -------------------------------------------------------------------------------
template <typename P> void readyScenario() {
	NetOptions o;
	o.smallBuffers = false;
	swarmNet(o);
	if (chance(FAULT, 300)) sim::params().rcvBuf = 2000 + choose(FAULT, 3000); // it comes piece by piece
	int shape = choose(WORK, 4);
	Tree served(shape), remote(shape);
	typename P::Server protocol(*served.top);
	ServerHost<typename P::Server> host(protocol, false);
	auto proxy = std::make_shared<Proxy>(PORT + 1, PORT, P::framer);
	Proxy::start(proxy);
	struct Flight { size_t number; std::string text, expected; std::unique_ptr<Pending> pending; bool saidReady = false; };
	std::vector<Flight> open;
	Impl model;
	std::string doing = "connecting";
	try {
		Bomba::SyncNetworkClient net("127.0.0.1", std::to_string(PORT + 1));
		typename P::Client client = P::client(*remote.top, net);
		size_t total = 2 + choose(WORK, 7), started = 0, extra = 0;
		size_t maxText = pick(WORK, std::vector<size_t>{200, 3000, 9000});
		auto arrived = [&] (size_t number) { return !proxy->links.empty() && proxy->links[0]->ends.size() > number && proxy->links[0]->sent >= proxy->links[0]->ends[number]; };
		auto poll = [&] (Flight& f) {
			doing = "polling " + cut(f.text);
			uint64_t waits = sim::waitCount();
			bool r = f.pending->ready();
			sim::count("polls");
			if (sim::waitCount() != waits) violation("poll-waits", "asking whether call " + std::to_string(f.number) + " is ready waited for the network");
			if (r && !arrived(f.number)) violation("ready-too-early", "call " + std::to_string(f.number) + " " + cut(f.text) + " was reported ready before its complete response was sent");
			if (f.saidReady && !r) violation("ready-taken-back", "call " + std::to_string(f.number) + " was reported ready and later not ready");
			f.saidReady = r;
			note("ready %zu: %d", f.number, r);
			return r;
		};
		auto collect = [&] (Flight& f) {
			doing = "collecting " + cut(f.text);
			uint64_t waits = sim::waitCount();
			std::string got = f.pending->get();
			if (f.saidReady && sim::waitCount() != waits) violation("ready-but-waits", "call " + std::to_string(f.number) + " was reported ready but collecting it had to wait");
			if (got != f.expected) violation("wrong-result", "call " + std::to_string(f.number) + " " + cut(f.text) + " gave " + cut(got) + ", expected " + cut(f.expected) + "; " + firstDifference(got, f.expected));
			sim::count("collected");
		};
		while (started < total || !open.empty()) {
			int what = choose(WORK, 12);
			if (started < total && (what < 3 || open.empty())) {
				Call c = genCall(0, maxText, P::anyByte, false);
				Flight f{started++ + extra, c.text, c.model(model)};
				doing = "starting " + cut(c.text);
				note("start %zu %s", f.number, cut(c.text).c_str());
				f.pending = c.start(remote.api);
				open.push_back(std::move(f));
				continue;
			}
			if (open.empty()) continue;
			size_t i = choose(WORK, open.size());
			if (what < 7) {
				for (int n = 1 + choose(WORK, 3); n > 0; n--) poll(open[i]);
			} else if (what == 7) {
				collect(open[i]);
				if (chance(WORK, 500) && !open[i].pending->ready()) violation("ready-taken-back", "a collected call isn't ready");
				open.erase(open.begin() + i);
			} else if (what == 8) {
				if (poll(open[i])) { collect(open[i]); open.erase(open.begin() + i); }
			} else if (what == 9) {
				// Wait until the response has come, then polling must find it
				if (!sim::waitUntil([&] { return arrived(open[i].number); }, 60 * SEC)) {
					// The buffers may be full of it: reading is what lets it continue
					sim::waitUntil([&] { poll(open[i]); return arrived(open[i].number); }, 200 * SEC, 5 * MS);
				}
				if (!arrived(open[i].number)) violation("no-progress", "the response to call " + std::to_string(open[i].number) + " isn't accepted by the client that polls");
				int polls = 0;
				while (!poll(open[i])) {
					if (++polls > 3000) violation("never-ready", "call " + std::to_string(open[i].number) + " " + cut(open[i].text) + " isn't reported ready though its complete response has arrived");
					sim::sleepFor(10 * MS);
				}
				if (chance(WORK, 700)) { collect(open[i]); open.erase(open.begin() + i); }
			} else if (what == 10 && chance(WORK, 500)) {
				Call c = genCall(0, 100, P::anyByte, false);
				doing = "calling " + c.text;
				extra++;
				std::string expected = c.model(model), got = c.run(remote.api);
				if (got != expected) violation("wrong-result", "the synchronous call " + c.text + " gave " + cut(got) + ", expected " + cut(expected));
			} else sim::sleepFor(range(WORK, 0, 30) * MS);
		}
	} catch (std::exception& e) { violation("call-threw", doing + " threw " + exceptionText(e)); }
	sim::nontrivial();
}

// ---- C01: failing connections -------------------------------------------------------------------
// A call that can be recognised in the server's log
inline Call genUnique(int serial, size_t maxText, bool anyByte) {
	Call c;
	std::string tag = "#" + std::to_string(serial) + "#";
	switch (choose(WORK, 8)) {
		case 0: { int by = serial + 1; c = makeCall<int64_t>("bump", &Api::bump, by); c.model = [=](Impl& m) { return showArgs(m.counter += by); }; break; }
		case 1: { std::string v = tag + genText(maxText, anyByte); c = makeCall<std::string>("swap", &Api::swap, v); c.model = [=](Impl& m) { std::string old = m.stored; m.stored = v; return showArgs(old); }; break; }
		case 2: { std::string v = tag + genText(maxText, anyByte); c = makeCall<void>("store", &Api::store, v); c.model = [=](Impl& m) { m.stored = v; return std::string("void"); }; break; }
		case 3: { int a = serial, b = int(genInt(32, true)); c = makeCall<int>("add", &Api::add, a, b); c.model = [=](Impl&) { return showArgs(int(unsigned(a) + unsigned(b))); }; break; }
		case 4: case 5: { std::string s = tag + genText(maxText, anyByte); bool t = choose(WORK, 2); c = makeCall<std::string>("echo", &Api::echo, s, t); c.model = [=](Impl&) { return showArgs(t ? s + s : s); }; break; }
		case 6: { std::optional<int> o = serial; c = makeCall<std::optional<int>>("maybe", &Api::maybe, o); c.model = [=](Impl&) { return *o % 3 == 0 ? std::string("none") : "some " + std::to_string(*o / 2); }; break; }
		default: { Point p = genPoint(std::min<size_t>(maxText, 1000), anyByte); int dx = serial; c = makeCall<Point>("move", &Api::move, p, dx);
			c.model = [=](Impl&) { Point q = p; q.x = int(unsigned(p.x) + unsigned(dx)); q.tags.push_back(dx); q.flag = !p.flag; if (p.extra) q.extra.reset(); else q.extra = dx; return showArgs(q); }; break; }
	}
	return c;
}
template <typename P> void failScenario() {
	bool pipelined = chance(WORK, 500);
	NetOptions o;
	o.smallBuffers = !pipelined;
	swarmNet(o);
	auto& p = sim::params();
	if constexpr (requires { P::tls; }) p.maxDelay = std::min(p.maxDelay, 3 * MS); // Each message is longer and causes more of them
	int mode = choose(FAULT, 3);
	int shape = choose(WORK, 4);
	int clients = 1 + choose(WORK, 3);
	size_t maxText = p.sndBuf < 100 || p.rcvBuf < 100 || p.segMode == 2 ? 300 : pick(WORK, std::vector<size_t>{30, 1000, 9000});
	size_t safeText = maxText;
	if constexpr (requires { P::truncates; }) { safeText = 10; sim::fault("message-too-large"); }
	else if (!pipelined && maxText > 300 && P::mostText < SIZE_MAX && chance(WORK, 400)) { maxText = P::mostText + 4000; sim::fault("message-too-large"); } // More than a message can contain
	if (mode == 0) {
		p.resetPermille = pick(FAULT, std::vector<uint32_t>{0, 300, 900});
		p.finPermille = pick(FAULT, std::vector<uint32_t>{0, 300, 900});
		p.connectFailPermille = pick(FAULT, std::vector<uint32_t>{0, 0, 300, 800});
		p.resolveFailPermille = pick(FAULT, std::vector<uint32_t>{0, 0, 300});
		p.eintrPermille = pick(FAULT, std::vector<uint32_t>{0, 0, 30});
		if constexpr (requires { P::tls; }) p.eintrPermille = 0;
		p.faultByteSpan = pick(FAULT, std::vector<size_t>{300, 3000, 30000});
	}
	Tree served(shape);
	typename P::Server protocol(*served.top);
	swarmProcessing(served.impl);
	auto host = std::make_unique<ServerHost<typename P::Server>>(protocol, chance(WORK, 200));
	int port = PORT;
	std::shared_ptr<Proxy> proxy;
	if (mode == 1) {
		port = PORT + 1;
		proxy = std::make_shared<Proxy>(port, PORT, P::framer);
		proxy->onLink = [] (Proxy::Link& l) {
			if (!chance(FAULT, 800)) return;
			l.cutAt = choose(FAULT, pick(FAULT, std::vector<uint32_t>{40, 400, 2000, 10000}));
			l.cutByReset = choose(FAULT, 2);
			sim::fault("net.cut-response");
		};
		Proxy::start(proxy);
	}
	struct Made { std::string text; std::function<std::string(Impl&)> model; bool returned = false; std::string got; };
	std::vector<Made> made;
	auto result = [&] (size_t i, std::string got) { made[i].returned = true; made[i].got = std::move(got); };
	Fibers fibers;
	int live = clients;
	for (int c = 0; c < clients; c++) fibers.start("client" + std::to_string(c), [&, c] {
		int left = 2 + choose(WORK, 7);
		while (left > 0) {
			left--;
			Tree remote(shape);
			std::unique_ptr<Bomba::SyncNetworkClient> net;
			try { net = std::make_unique<Bomba::SyncNetworkClient>("127.0.0.1", std::to_string(port)); }
			catch (std::exception& e) { note("client %d: %s", c, e.what()); sim::count("failures-reported"); continue; }
			typename P::Client client = P::client(*remote.top, *net);
			std::vector<std::pair<size_t, std::unique_ptr<Pending>>> open;
			auto collect = [&] (size_t at) {
				size_t i = open[at].first;
				bool failed = false;
				try { result(i, open[at].second->get()); }
				catch (std::exception& e) { failed = true; note("client %d: collecting %zu: %s", c, i, e.what()); sim::count("failures-reported"); }
				if (chance(WORK, 300)) { // Asking again must give the same
					try {
						std::string again = open[at].second->get();
						if (failed) violation("failure-forgotten", "collecting " + cut(made[i].text) + " threw at first and then gave " + cut(again));
						if (again != made[i].got) violation("result-changed", "collecting " + cut(made[i].text) + " gave " + cut(made[i].got) + " and then " + cut(again));
					} catch (std::exception& e) { if (!failed) violation("result-lost", "collecting " + cut(made[i].text) + " again threw " + exceptionText(e)); }
				}
				open.erase(open.begin() + at);
			};
			bool giveUp = false;
			while (left > 0 && !giveUp) {
				left--;
				Call call = genUnique(int(made.size()), maxText, P::anyByte);
				size_t i = made.size();
				made.push_back({call.text, call.model});
				note("client %d: %zu %s", c, i, cut(call.text).c_str());
				try {
					if (pipelined && chance(WORK, 700)) {
						std::unique_ptr<Pending> f = call.start(remote.api);
						open.emplace_back(i, std::move(f));
						if (chance(WORK, 300)) open[choose(WORK, open.size())].second->ready();
					} else result(i, call.run(remote.api));
				} catch (std::exception& e) { note("client %d: %zu threw: %s", c, i, e.what()); sim::count("failures-reported"); giveUp = chance(WORK, 500); }
				if (!open.empty() && chance(WORK, 300)) collect(choose(WORK, open.size()));
				if (!open.empty() && chance(WORK, 100)) open.erase(open.begin() + choose(WORK, open.size()));
				if (chance(WORK, 200)) sim::sleepFor(range(WORK, 0, 50) * MS);
			}
			while (!open.empty()) collect(choose(WORK, open.size()));
		}
		live--;
	});
	if (mode == 2) fibers.start("stopper", [&] {
		for (int n = 1 + choose(FAULT, 3); n > 0 && live > 0; n--) {
			sim::sleepFor(range(FAULT, 0, pick(FAULT, std::vector<int64_t>{1, 100, 2000})) * (p.maxDelay / 4 + 100 * US));
			sim::fault("process.server-stopped");
			host.reset();
			sim::sleepFor(range(FAULT, 0, 20) * MS);
			host = std::make_unique<ServerHost<typename P::Server>>(protocol, chance(WORK, 200));
		}
	});
	if (!sim::waitUntil([&] { for (int i : fibers.ids) if (!sim::fiberDone(i)) return false; return true; }, 2000 * SEC, 5 * MS)) {
		std::string who;
		for (int i : fibers.ids) if (!sim::fiberDone(i)) who += std::string(" ") + sim::fiberName(i) + ": " + sim::fiberState(i);
		violation("never-ends", "calls still haven't ended 2000 seconds later:" + who);
	}
	fibers.joinAll();
	// Once the faults stop, calls work
	sim::allowFaults(false);
	sim::sleepFor(100 * MS);
	std::string doing = "a call after the faults stopped";
	try {
		Tree remote(shape);
		Bomba::SyncNetworkClient net("127.0.0.1", std::to_string(PORT));
		typename P::Client client = P::client(*remote.top, net);
		Call call = genUnique(int(made.size()), safeText, P::anyByte);
		if constexpr (requires { P::truncates; }) while (call.text.size() > 80 || call.text.starts_with("swap")) call = genUnique(int(made.size()), safeText, P::anyByte);
		made.push_back({call.text, call.model});
		result(made.size() - 1, call.run(remote.api));
	} catch (std::exception& e) { violation("not-recovered", doing + " threw " + exceptionText(e)); }
	// What ran must explain what was returned
	std::map<std::string, size_t> byText;
	for (size_t i = 0; i < made.size(); i++) byText[made[i].text] = i;
	std::vector<int> ran(made.size(), 0);
	Impl model;
	size_t returned = 0;
	for (auto& entry : served.impl.log) {
		auto found = byText.find(entry);
		if (found == byText.end()) violation("wrong-execution", "the server ran " + cut(entry) + " that nobody called");
		Made& m = made[found->second];
		if (++ran[found->second] > 1) violation("ran-twice", cut(entry) + " ran more than once");
		std::string expected = m.model(model);
		if (m.returned && m.got != expected) violation("wrong-result", cut(entry) + " returned " + cut(m.got) + ", the server returned " + cut(expected));
	}
	for (size_t i = 0; i < made.size(); i++) {
		if (made[i].returned && !ran[i]) violation("invented-result", cut(made[i].text) + " returned " + cut(made[i].got) + " but never ran");
		returned += made[i].returned;
	}
	sim::count("calls", made.size());
	sim::count("returned", returned);
	if (returned < made.size()) { sim::nontrivial(); sim::count("calls-failed", made.size() - returned); }
}

// ---- C02: garbage -------------------------------------------------------------------------------
inline std::string mutate(std::string s, const std::string& other) {
	for (int n = 1 + choose(FAULT, 3); n > 0; n--) {
		size_t at = s.empty() ? 0 : choose(FAULT, s.size() + 1), len = std::min<size_t>(s.size() - at, 1 + choose(FAULT, chance(FAULT, 300) ? 200 : 8));
		// Numbers matter more than other parts
		std::vector<size_t> digits;
		for (size_t i = 0; i < s.size() && i < 4000; i++) if (isdigit((unsigned char)s[i]) && (i == 0 || !isdigit((unsigned char)s[i - 1]))) digits.push_back(i);
		switch (choose(FAULT, 11)) {
			case 10: { static const char* often[] = {"[", "{\"a\":", " ", "\"", "0", "\\", ",", "\r\n", "\xff"}; const char* what = often[choose(FAULT, 9)]; std::string many; for (int i = chance(FAULT, 100) ? 20000 : choose(FAULT, 2000); i > 0; i--) many += what; s.insert(at, many); break; }
			case 0: if (at < s.size()) s[at] = char(choose(FAULT, 256)); break;
			case 1: if (at < s.size()) s[at] ^= char(1 << choose(FAULT, 8)); break;
			case 2: s.erase(at, len); break;
			case 3: s.insert(at, s.substr(at, len)); break;
			case 4: { std::string junk; for (size_t i = 0; i < len; i++) junk += char(choose(FAULT, 256)); s.insert(at, junk); break; }
			case 5: s.resize(at); break;
			case 6: case 7: if (!digits.empty()) {
				size_t d = digits[choose(FAULT, digits.size())], e = d;
				while (e < s.size() && isdigit((unsigned char)s[e])) e++;
				static const char* numbers[] = {"-1", "0", "1", "2147483647", "2147483648", "4294967296", "-2147483649", "9223372036854775807", "9223372036854775808", "99999999999999999999999999", "1e999", "1e-999", "-", "+5", "0x10", "", "1.5", "00012", "1 2"};
				s.replace(d, e - d, numbers[choose(FAULT, sizeof numbers / sizeof *numbers)]);
				break;
			}
			[[fallthrough]];
			case 8: if (s.size() > 8) { size_t i = choose(FAULT, std::min<size_t>(s.size(), 16)); static const int v[] = {0, 1, 5, 6, 7, 127, 128, 254, 255}; s[i] = char(v[choose(FAULT, 9)]); } break;
			case 9: if (!other.empty()) { size_t from = choose(FAULT, other.size()); s.insert(at, other.substr(from, 1 + choose(FAULT, 300))); } break;
		}
	}
	return s;
}
// Values that come from memory that was never written (the build fills it with these patterns)
inline bool looksUninitialised(const std::string& s) {
	for (const char* v : {"-16843010", "4278124286", "-72340172838076674", "-1094795586", "3200171710", "-4702111234474983746", "-5.4861240687936887e+303"})
		if (s.find(v) != std::string::npos) return true;
	return false;
}
template <typename P> void garbageScenario() {
	NetOptions o;
	o.smallBuffers = false;
	swarmNet(o);
	int shape = choose(WORK, 4);
	Tree served(shape);
	typename P::Server protocol(*served.top);
	ServerHost<typename P::Server> host(protocol, false);
	auto proxy = std::make_shared<Proxy>(PORT + 1, PORT, P::framer);
	uint32_t badness = pick(FAULT, std::vector<uint32_t>{200, 500, 1000});
	auto last = std::make_shared<std::string>();
	proxy->transform = [badness, last] (size_t, std::string m) {
		std::string original = m;
		if (chance(FAULT, badness)) {
			if (chance(FAULT, 50)) { m.clear(); for (int n = choose(FAULT, 3000); n > 0; n--) m += char(choose(FAULT, 256)); }
			else m = mutate(m, *last);
			sim::fault("net.corrupted-response");
		}
		*last = original;
		return m;
	};
	proxy->onLink = [] (Proxy::Link& l) { l.idleClose = 2 * SEC; l.cutByReset = chance(FAULT, 200); };
	Proxy::start(proxy);
	sim::setMemoryLimit(400 << 20);
	int clients = 1 + choose(WORK, 2);
	Fibers fibers;
	size_t values = 0, failures = 0;
	for (int c = 0; c < clients; c++) fibers.start("client" + std::to_string(c), [&, c] {
		Tree remote(shape);
		try {
			Bomba::SyncNetworkClient net("127.0.0.1", std::to_string(PORT + 1));
			typename P::Client client = P::client(*remote.top, net);
			std::vector<std::pair<std::string, std::unique_ptr<Pending>>> open;
			bool pipelined = chance(WORK, 500);
			auto attempt = [&] (const std::string& text, std::function<std::string()> f) {
				try {
					std::string got = f();
					values++;
					note("got %s", cut(got).c_str());
					if (looksUninitialised(got) && !looksUninitialised(text)) violation("uninitialised", cut(text) + " returned " + cut(got) + " that looks like memory never written");
				} catch (std::exception& e) { failures++; note("failed: %s", e.what()); }
			};
			for (int n = 1 + choose(WORK, 6); n > 0; n--) {
				Call call = genCall(c, 1500, P::anyByte, false);
				if (pipelined && chance(WORK, 600)) { try { auto f = call.start(remote.api); open.emplace_back(call.text, std::move(f)); } catch (std::exception&) { failures++; } }
				else attempt(call.text, [&] { return call.run(remote.api); });
				if (!open.empty() && chance(WORK, 300)) try { open[choose(WORK, open.size())].second->ready(); } catch (std::exception&) {}
				if (!open.empty() && chance(WORK, 300)) { size_t i = choose(WORK, open.size()); attempt(open[i].first, [&] { return open[i].second->get(); }); open.erase(open.begin() + i); }
			}
			while (!open.empty()) { size_t i = choose(WORK, open.size()); attempt(open[i].first, [&] { return open[i].second->get(); }); open.erase(open.begin() + i); }
		} catch (std::exception& e) { violation("call-threw", "connecting threw " + exceptionText(e)); }
	});
	if (!sim::waitUntil([&] { for (int i : fibers.ids) if (!sim::fiberDone(i)) return false; return true; }, 3000 * SEC, 5 * MS))
		violation("never-ends", "a call hasn't ended 3000 seconds after the stream of responses ended");
	sim::count("returned", values);
	sim::count("calls-failed", failures);
	if (failures) sim::nontrivial();
}
