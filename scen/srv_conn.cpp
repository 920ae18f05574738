// Connections to servers: S02, S03, S04, S05, L01, L02, L03.
#include <cxxabi.h>
#include "world.hpp"

// Reads until the exchange is answered. Returns false if the connection ended or nothing comes.
static bool receive(Raw& raw, size_t& pos, const Exchange& e, const std::string& who, int64_t idle = IDLE, size_t chunk = 65536) {
	std::string why;
	Parsed p = Parsed::MORE;
	raw.recvUntil([&] { return (p = e.judge(raw.in, pos, why)) != Parsed::MORE; }, idle, chunk);
	if (p == Parsed::BAD) violation("wrong-response", who + ": the response to " + cut(e.text) + " is wrong: " + why);
	return p == Parsed::OK;
}
static const char* howEnded(Raw& raw) { return raw.eof ? ", the connection was closed" : raw.failed ? ", the connection failed" : ", nothing comes"; }

// ---- S02 ----------------------------------------------------------------------------------------
SCENARIO(bin_stream) {
	swarmNet();
	if (chance(FAULT, 150)) sim::params().eintrPermille = 30;
	size_t maxText = swarmTextSize(3000, 65400);
	World w(World::BINARY);
	swarmProcessing(w.tree.impl);
	auto host = w.host(chance(WORK, 200));
	Poller poller(*host);
	int peers = chance(WORK, 600) ? 1 : 2 + choose(WORK, 3);
	std::vector<std::vector<std::string>> expected(peers);
	Fibers fibers;
	for (int c = 0; c < peers; c++) fibers.start("peer" + std::to_string(c), [&, c] {
		std::string who = "peer " + std::to_string(c), all;
		Impl model;
		std::vector<Exchange> messages;
		for (int n = 1 + choose(WORK, 14); n > 0; n--) {
			uint32_t id = chance(WORK, 700) ? messages.size() : choose(WORK, 2) ? 0xffffffff - choose(WORK, 3) : choose(WORK, 3);
			messages.push_back(binExchange(w.tree, model, peers == 1, maxText, peers == 1 ? "" : std::to_string(c) + ":", id));
			expected[c].push_back(messages.back().logged);
			all += messages.back().request;
		}
		Raw raw;
		if (!raw.connectRetry(PORT)) violation("not-accepted", who + " can't connect");
		int sender = sim::spawn(who + " sender", [&] { raw.sendPieces(all); });
		size_t pos = 0;
		for (auto& m : messages) if (!receive(raw, pos, m, who)) violation("no-response", who + ": " + cut(m.text) + " isn't answered" + howEnded(raw));
		sim::join(sender);
		if (raw.readable(2 * SEC)) { raw.recvSome(); violation("extra-bytes", who + (raw.eof || raw.failed ? ": the connection was ended though nobody demanded it" : ": after the last response came " + cut(std::string_view(raw.in).substr(pos)))); }
		sim::count("messages", messages.size());
	});
	fibers.joinAll();
	judgeInterleaving(w.tree.impl.log, expected);
	if (!w.tree.otherImpl.log.empty()) violation("wrong-object", "a method ran on another object: " + cut(w.tree.otherImpl.log[0]));
	if (w.tree.impl.log.size() > 1) sim::nontrivial();
}

// ---- S03 ----------------------------------------------------------------------------------------
// One act of a peer that behaves badly; ends with its connection closed
static void misbehave(World& w, size_t maxSize) {
	Raw raw;
	if (!raw.connect(PORT)) return;
	int what = choose(FAULT, 9);
	bool reset = choose(FAULT, 2);
	auto send = [&] (std::string_view data) { return raw.sendFor(data, 50 * MS); }; // not to read while blocked in writing would be another thing
	auto pause = [] { if (chance(FAULT, 600)) sim::sleepFor(range(FAULT, 0, pick(FAULT, std::vector<int64_t>{20, 2000, 50000})) * US); };
	auto drain = [&] (int64_t ns) { int64_t until = sim::now() + ns; while (sim::now() < until && raw.readable(std::max<int64_t>(0, until - sim::now())) && raw.recvSome()) raw.in.clear(); };
	switch (what) {
		case 0: sim::fault("peer.connects-only"); pause(); break;
		case 1: sim::fault("peer.garbage"); send(mutate(w.exchange(maxSize).request, w.exchange(100).request)); drain(range(FAULT, 0, 200) * MS); break;
		case 2: { sim::fault("peer.partial-request"); std::string r = w.exchange(maxSize).request; send(std::string_view(r).substr(0, choose(FAULT, r.size()))); pause(); break; }
		case 3: { sim::fault("peer.leaves-before-response"); std::string r; for (int n = 1 + choose(FAULT, 4); n > 0; n--) r += w.exchange(maxSize).request; send(r); pause(); break; }
		case 4: case 5: { sim::fault("peer.leaves-during-response"); send(w.large(maxSize < 1000 ? 3000 : pick(FAULT, std::vector<size_t>{3000, 30000, 300000})).request); size_t most = choose(FAULT, 5000); raw.recvUntil([&] { return raw.in.size() >= most; }, 50 * MS, 1 + choose(FAULT, 3000)); break; }
		case 6: { sim::fault("peer.half-close"); std::string r = w.exchange(maxSize).request; send(chance(FAULT, 500) ? r : r.substr(0, choose(FAULT, r.size()))); raw.finish(); drain(range(FAULT, 0, 300) * MS); break; }
		case 7: { sim::fault("peer.cut-off"); send(w.exchange(maxSize).request + w.large(maxSize < 1000 ? 3000 : 20000).request); sim::killConnectionOfFd(raw.fd); break; }
		default: { sim::fault("peer.request-by-bytes-then-leaves"); std::string r = w.exchange(200).request; int64_t until = sim::now() + 20 * MS; for (char c : r) { if (chance(FAULT, 20) || !send(std::string_view(&c, 1)) || sim::now() > until) break; } pause(); break; }
	}
	if (reset) raw.reset(); else raw.close();
}
SCENARIO(faulty_peers) {
	swarmNet();
	auto& p = sim::params();
	bool tiny = p.sndBuf < 100 || p.rcvBuf < 100 || p.segMode >= 2;
	size_t maxSize = tiny ? 600 : 4000;
	if (chance(FAULT, 300)) p.acceptFailPermille = pick(FAULT, std::vector<uint32_t>{50, 300, 700});
	if (chance(FAULT, 150)) p.eintrPermille = 30;
	World w;
	if (chance(WORK, 300)) w.onHandle([] { if (chance(WORK, 300)) sim::sleepFor(range(WORK, 0, 3000) * US); });
	int before = sim::openVirtualFds();
	auto host = w.host(chance(WORK, 200));
	auto poller = std::make_unique<Poller>(*host);
	sim::sleepFor(1 * MS);
	int idleFds = sim::openVirtualFds();
	int bad = 1 + choose(WORK, 4), good = 1 + choose(WORK, 3), left = good;
	Fibers fibers;
	for (int c = 0; c < bad; c++) fibers.start("bad" + std::to_string(c), [&, c] {
		for (int n = 1 + choose(WORK, 5); n > 0 && left > 0; n--) { misbehave(w, maxSize); if (chance(WORK, 400)) sim::sleepFor(range(WORK, 0, 10) * MS); }
	});
	for (int c = 0; c < good; c++) fibers.start("good" + std::to_string(c), [&, c] {
		std::string who = "peer " + std::to_string(c);
		int lost = 0;
		for (int n = 1 + choose(WORK, 3); n > 0; n--) {
			Raw raw;
			if (!raw.connectRetry(PORT, 100 * SEC)) violation("not-accepted", who + " can't connect");
			size_t pos = 0;
			bool pipelined = chance(WORK, 300);
			std::vector<Exchange> exchanges;
			for (int k = 1 + choose(WORK, 5); k > 0; k--) exchanges.push_back(w.exchange(maxSize));
			std::string all;
			for (auto& e : exchanges) all += e.request;
			bool gone = false;
			int sender = pipelined ? sim::spawn(who + " sender", [&] { raw.sendPieces(all); }) : -1;
			for (auto& e : exchanges) {
				int one = pipelined ? -1 : sim::spawn(who + " sender", [&] { raw.sendPieces(e.request); });
				bool ok = receive(raw, pos, e, who);
				if (!ok) { // An aborted connection has never been accepted
					if (raw.in.empty() && raw.failed && p.acceptFailPermille && ++lost < 30) gone = true;
					else violation("no-response", who + ": " + cut(e.text) + " isn't answered" + howEnded(raw) + (raw.in.empty() ? " from the start" : ""));
				}
				if (one >= 0) sim::join(one);
				if (gone) break;
				sim::count("good-exchanges");
			}
			if (sender >= 0) sim::join(sender);
			if (gone) { n++; continue; }
			if (chance(WORK, 300)) sim::sleepFor(range(WORK, 0, 20) * MS);
		}
		left--;
	});
	fibers.joinAll();
	sim::allowFaults(false);
	{
		Raw raw;
		size_t pos = 0;
		Exchange e = w.exchange(200);
		bool ok = false;
		for (int attempt = 0; attempt < 3 && !ok; attempt++) { // Connections queued before may still be affected
			raw.in.clear(); raw.eof = raw.failed = false; pos = 0;
			if (!raw.connectRetry(PORT, 100 * SEC)) violation("not-accepted", "no new connection is accepted after the faults");
			raw.send(e.request);
			ok = receive(raw, pos, e, "a new peer");
			if (!ok) raw.close();
		}
		if (!ok) violation("no-response", std::string("after the faults, a new connection isn't served") + howEnded(raw));
	}
	if (!sim::waitUntil([&] { return sim::openVirtualFds() <= idleFds; }, IDLE, 10 * MS)) {
		std::string what;
		for (auto& d : sim::describeOpenFds()) what += " " + d;
		violation("not-released", fmt("%d descriptors are open after all peers left, %d were before:", sim::openVirtualFds(), idleFds) + what);
	}
	poller.reset();
	host.reset();
	if (sim::openVirtualFds() > before) violation("not-released", fmt("%d descriptors are open after the server was destroyed, %d were before it existed", sim::openVirtualFds(), before));
	if (sim::badFdUses()) violation("bad-descriptor", "a descriptor was used that isn't open: " + sim::lastBadFdUse());
	sim::nontrivial();
}

// ---- S04 ----------------------------------------------------------------------------------------
// So many connections that numbers of them grow
static void crowd() {
	NetOptions o;
	o.smallBuffers = false;
	o.stalls = false;
	swarmNet(o);
	auto& p = sim::params();
	p.segMode = 0;
	p.preemptPermille = std::min<uint32_t>(p.preemptPermille, 20);
	p.maxDelay = std::min<int64_t>(p.maxDelay, 200 * US);
	World w;
	auto host = w.host(false);
	sim::sleepFor(1 * MS);
	int idleFds = sim::openVirtualFds();
	struct Link { Raw raw; size_t pos = 0; };
	std::vector<std::unique_ptr<Link>> open;
	auto ask = [&] (Link& l) {
		Exchange e = w.exchange(100);
		if (!l.raw.send(e.request) || !receive(l.raw, l.pos, e, "a peer", 20 * SEC)) violation("no-response", fmt("with %zu connections open, ", open.size()) + cut(e.text) + " isn't answered" + howEnded(l.raw));
	};
	auto settle = [&] {
		int want = idleFds + 2 * int(open.size());
		if (!sim::waitUntil([&] { return sim::openVirtualFds() == want; }, 20 * SEC, 1 * MS)) {
			int have = sim::openVirtualFds();
			violation(have > want ? "not-released" : "released-early", fmt("%d descriptors are open though %zu connections are (%d with their server's ends and the server's own)", have, open.size(), want));
		}
		if (sim::badFdUses()) violation("bad-descriptor", "a descriptor was used that isn't open: " + sim::lastBadFdUse());
	};
	size_t most = 258 + choose(WORK, 60);
	for (int round = 0; round < 2; round++) {
		while (open.size() < most) {
			open.push_back(std::make_unique<Link>());
			if (!open.back()->raw.connectRetry(PORT)) violation("not-accepted", "can't connect");
			if (chance(WORK, 30)) ask(*open.back());
		}
		settle();
		for (int n = 20; n > 0; n--) ask(*open[choose(WORK, open.size())]);
		// Some leave, more often recent ones or old ones
		int bias = choose(WORK, 3);
		for (int n = choose(WORK, most) / 2 + 1; n > 0; n--) {
			size_t i = bias == 0 ? choose(WORK, open.size()) : bias == 1 ? open.size() - 1 - choose(WORK, std::min<size_t>(10, open.size())) : choose(WORK, std::min<size_t>(10, open.size()));
			if (chance(WORK, 300)) open[i]->raw.reset();
			open.erase(open.begin() + i);
			if (chance(WORK, 50)) settle();
		}
		settle();
		for (int n = 20; n > 0 && !open.empty(); n--) ask(*open[choose(WORK, open.size())]);
	}
	shuffle(open);
	while (open.size() > 3) open.pop_back();
	settle();
	for (auto& l : open) ask(*l);
	open.clear();
	settle();
	sim::count("config.many-connections");
	sim::nontrivial();
}
SCENARIO(connections) {
	if (chance(WORK, 8)) { crowd(); return; }
	NetOptions o;
	o.smallBuffers = false;
	o.stalls = false;
	swarmNet(o);
	auto& p = sim::params();
	if (p.maxDelay > 3 * MS) p.maxDelay = 3 * MS;
	World w;
	int before = sim::openVirtualFds();
	bool poll = chance(WORK, 300);
	auto host = w.host(poll);
	auto poller = std::make_unique<Poller>(*host);
	sim::sleepFor(1 * MS);
	int idleFds = sim::openVirtualFds();
	struct Link { Raw raw; size_t pos = 0; bool serverCloses = false; };
	std::vector<std::unique_ptr<Link>> open;
	auto settle = [&] (const std::string& after) {
		int want = idleFds;
		for (auto& l : open) want += l->serverCloses ? 1 : 2;
		if (!sim::waitUntil([&] { return sim::openVirtualFds() == want; }, 20 * SEC, 1 * MS)) {
			int have = sim::openVirtualFds();
			violation(have > want ? "not-released" : "released-early", fmt("%d descriptors are open though %zu connections are (%d with their server's ends and the server's own), ", have, open.size(), want) + after);
		}
		if (sim::badFdUses()) violation("bad-descriptor", "a descriptor was used that isn't open: " + sim::lastBadFdUse());
	};
	size_t totalOpened = 0;
	auto phase = [&] (int operations, size_t most) {
		for (int n = 0; n < operations; n++) {
			int what = choose(WORK, 12);
			if (open.empty() || (what < 4 && open.size() < most)) {
				for (int k = chance(WORK, 200) ? 1 + choose(WORK, 6) : 1; k > 0 && open.size() < most; k--) {
					auto l = std::make_unique<Link>();
					if (!l->raw.connectRetry(PORT)) violation("not-accepted", "can't connect");
					open.push_back(std::move(l));
					totalOpened++;
				}
				continue;
			}
			size_t i = choose(WORK, open.size());
			Link& l = *open[i];
			auto remove = [&] { open.erase(open.begin() + i); };
			switch (what) {
				case 4: case 5: case 0: case 1: {
					if (l.serverCloses) break;
					Exchange e = w.exchange(chance(WORK, 100) ? 9000 : 300, "", true);
					if (!l.raw.send(e.request) || !receive(l.raw, l.pos, e, "a peer", 20 * SEC)) violation("no-response", cut(e.text) + " isn't answered" + howEnded(l.raw));
					if (e.ends) l.serverCloses = true;
					l.raw.in.clear();
					l.pos = 0;
					break;
				}
				case 6: if (!l.serverCloses) { std::string r = w.exchange(chance(WORK, 100) ? 9000 : 300).request; l.raw.send(std::string_view(r).substr(0, choose(WORK, r.size()))); } [[fallthrough]]; // it can't be continued
				case 2: case 7: l.raw.close(); remove(); break;
				case 8: case 3: l.raw.reset(); remove(); break;
				case 9: if (!l.serverCloses) { l.raw.finish(); l.serverCloses = true; } break;
				case 10: { // Many at once
					for (int k = 1 + choose(WORK, open.size()); k > 0 && !open.empty(); k--) {
						size_t j = choose(WORK, open.size());
						if (chance(WORK, 500)) { std::string r = w.exchange(300).request; if (!open[j]->serverCloses) open[j]->raw.send(r); }
						if (chance(WORK, 500)) open[j]->raw.reset(); else open[j]->raw.close();
						open.erase(open.begin() + j);
					}
					break;
				}
				default: settle("in the middle"); break;
			}
		}
		settle("after some operations");
		for (auto& l : open) if (!l->serverCloses && chance(WORK, 700)) { // The others still work
			Exchange e = w.exchange(300);
			if (!l->raw.send(e.request) || !receive(l->raw, l->pos, e, "a peer", 20 * SEC)) violation("no-response", "of an old connection " + cut(e.text) + " isn't answered" + howEnded(l->raw));
			l->raw.in.clear();
			l->pos = 0;
		}
		for (auto& l : open) if (l->serverCloses) { // Nothing but the end can come
			if (!l->raw.readable(20 * SEC)) violation("not-closed", "the end of a connection isn't seen by its peer");
			l->raw.recvSome();
			if (!l->raw.eof) violation("not-closed", "after the last response came " + cut(l->raw.in) + howEnded(l->raw));
		}
		shuffle(open);
		while (!open.empty()) { if (chance(WORK, 300)) open.back()->raw.reset(); open.pop_back(); }
		settle("when all had been closed");
	};
	size_t most = 2 + choose(WORK, 14);
	// As many connections as there may be later, so that lists have grown
	for (size_t i = 0; i < most + 1; i++) { auto l = std::make_unique<Link>(); if (!l->raw.connectRetry(PORT)) violation("not-accepted", "can't connect"); open.push_back(std::move(l)); }
	phase(20, most);
	sim::sleepFor(1 * SEC); // sockets are closed before their sessions are freed
	w.forget();
	size_t live = sim::liveBytes();
	totalOpened = 0;
	phase(20 + choose(WORK, 60), most);
	sim::sleepFor(1 * SEC);
	w.forget();
	size_t after = sim::liveBytes();
	note("live bytes %zu, then %zu after %zu connections", live, after, totalOpened);
	if (after > live + 2500) violation("leak", fmt("%zu bytes more are in use after %zu more connections came and went", after - live, totalOpened));
	sim::count("connections", totalOpened);
	if (totalOpened > 3) sim::nontrivial();
	poller.reset();
	host.reset();
	if (sim::openVirtualFds() != before) violation("not-released", fmt("%d descriptors are open after the server was destroyed, %d were before it existed", sim::openVirtualFds(), before));
	if (sim::badFdUses()) violation("bad-descriptor", "a descriptor was used that isn't open: " + sim::lastBadFdUse());
}

// ---- S05 ----------------------------------------------------------------------------------------
SCENARIO(server_garbage) {
	NetOptions o;
	o.smallBuffers = chance(FAULT, 200);
	swarmNet(o);
	auto& p = sim::params();
	if (p.sndBuf < 500 || p.rcvBuf < 500) p.sndBuf = p.rcvBuf = 500; // much is sent
	World w;
	auto host = w.host(chance(WORK, 200));
	Poller poller(*host);
	sim::sleepFor(1 * MS);
	size_t base = sim::liveBytes(), sent = 0;
	sim::peakBytes(true);
	sim::setMemoryLimit(300 << 20);
	int peers = 1 + choose(WORK, 3), left = peers;
	Fibers fibers;
	for (int c = 0; c < peers; c++) fibers.start("peer" + std::to_string(c), [&, c] {
		for (int n = 1 + choose(WORK, 5); n > 0; n--) {
			Raw raw;
			if (!raw.connectRetry(PORT)) violation("not-accepted", "can't connect");
			bool ended = false;
			std::string all;
			for (int k = 1 + choose(FAULT, 4); k > 0; k--) {
				std::string r = w.exchange(chance(FAULT, 200) ? 9000 : 500).request;
				if (chance(FAULT, 60)) { r.clear(); for (int b = choose(FAULT, 4000); b > 0; b--) r += char(choose(FAULT, 256)); }
				else if (chance(FAULT, 700)) r = mutate(r, w.exchange(200).request);
				all += r;
			}
			sim::fault("peer.garbage");
			sent += all.size();
			int sender = sim::spawn("sender", [&] { raw.sendPieces(all); ended = true; });
			while (raw.readable(ended ? 50 * MS + 4 * p.maxDelay : 1000 * MS) || !ended) if (raw.readable(0) && !raw.recvSome()) break;
			// the bytes given to the peer can't be memory never written
			if (raw.in.find("\xfe\xfe\xfe\xfe") != std::string::npos && all.find("\xfe\xfe\xfe\xfe") == std::string::npos) violation("uninitialised", "a response has bytes of memory never written: " + cut(raw.in));
			if (w.kind != World::BINARY && looksUninitialised(raw.in) && !looksUninitialised(all)) violation("uninitialised", "a response has a value that looks like memory never written: " + cut(raw.in));
			if (chance(FAULT, 500)) sim::killConnectionOfFd(raw.fd); else ::shutdown(raw.fd, SHUT_RDWR);
			sim::join(sender);
		}
		left--;
	});
	fibers.joinAll();
	for (auto& l : w.log()) if (looksUninitialised(l)) {
		note("%s", l.c_str());
		violation("uninitialised", "a method got an argument that looks like memory never written: " + cut(l));
	}
	size_t peak = sim::peakBytes(false);
	note("sent %zu, live %zu, peak %zu", sent, base, peak);
	if (peak > base + (size_t(3) << 20) + 100 * sent) violation("memory", fmt("%zu bytes were used though only %zu were sent", peak - base, sent));
	sim::allowFaults(false);
	Raw raw;
	if (!raw.connectRetry(PORT)) violation("not-accepted", "can't connect after the garbage");
	Exchange e = w.exchange(300);
	size_t pos = 0;
	raw.send(e.request);
	if (!receive(raw, pos, e, "a peer")) violation("no-response", std::string("after the garbage, a proper request isn't answered") + howEnded(raw));
	sim::count("garbage-bytes", sent);
	sim::nontrivial();
}

// ---- L01 ----------------------------------------------------------------------------------------
SCENARIO(server_stop) {
	NetOptions o;
	o.smallBuffers = chance(FAULT, 300);
	swarmNet(o);
	auto& p = sim::params();
	if (p.sndBuf < 500 || p.rcvBuf < 500) p.sndBuf = p.rcvBuf = 500;
	if (chance(FAULT, 150)) p.eintrPermille = 30;
	World w;
	int64_t slow = chance(WORK, 400) ? pick(WORK, std::vector<int64_t>{100 * US, 20 * MS, 500 * MS}) : 0;
	if (slow) w.onHandle([slow] { if (chance(WORK, 400)) sim::sleepFor(range(WORK, 0, slow)); });
	int before = sim::openVirtualFds(), peers = choose(WORK, 5);
	auto host = w.host(false);
	bool stopped = false;
	int handlersAfter = 0;
	Fibers fibers;
	struct Stream { std::vector<Exchange> sent; std::string in; };
	for (int c = 0; c < peers; c++) fibers.start("peer" + std::to_string(c), [&, c] {
		std::string who = "peer " + std::to_string(c);
		while (!stopped) {
			Raw raw;
			if (!raw.connect(PORT)) break;
			std::vector<Exchange> exchanges;
			std::string all;
			for (int k = 1 + choose(WORK, 6); k > 0; k--) { exchanges.push_back(w.exchange(chance(WORK, 200) ? 20000 : 500)); all += exchanges.back().request; }
			if (chance(WORK, 300)) all.resize(choose(WORK, all.size()));
			bool ended = false;
			int sender = sim::spawn(who + " sender", [&] { raw.sendPieces(all); ended = true; });
			size_t pos = 0, i = 0;
			std::string why;
			Parsed parsed = Parsed::OK;
			while (i < exchanges.size()) {
				parsed = exchanges[i].judge(raw.in, pos, why);
				if (parsed == Parsed::BAD) violation("wrong-response", who + ": the response to " + cut(exchanges[i].text) + " is wrong: " + why);
				if (parsed == Parsed::OK) { i++; sim::count("responses"); continue; }
				bool afterwards = stopped;
				if (!raw.readable(afterwards ? 200 * SEC : 1 * SEC)) { if (afterwards) violation("not-closed", who + " sees no end of its connection after the server was destroyed"); if (ended) break; continue; }
				if (!raw.recvSome()) break;
			}
			while (!raw.eof && !raw.failed && chance(WORK, 500)) { // waits for the end
				bool afterwards = stopped;
				if (raw.readable(afterwards ? 200 * SEC : 1 * SEC)) { if (!raw.recvSome()) break; if (i == exchanges.size()) violation("extra-bytes", who + " got more than the responses: " + cut(std::string_view(raw.in).substr(pos))); }
				else if (afterwards) violation("not-closed", who + " sees no end of its connection after the server was destroyed");
			}
			sim::killConnectionOfFd(raw.fd); // unblocks the sender
			sim::join(sender);
			if (chance(WORK, 300)) sim::sleepFor(range(WORK, 0, 10) * MS);
		}
	});
	if (chance(WORK, 850)) sim::sleepFor(range(FAULT, 0, 1000) * pick(FAULT, std::vector<int64_t>{100, 1 * US, 20 * US, 1 * MS}));
	if (chance(WORK, 200)) host->average();
	int64_t start = sim::now();
	sim::fault("process.server-stopped");
	host.reset();
	int64_t took = sim::now() - start;
	size_t handled = w.handled();
	stopped = true;
	note("stopped in %ld us", long(took / US));
	if (took > 100 * SEC) violation("slow-stop", fmt("destroying the server took %g s", took / 1e9));
	// Nothing of it runs any more, the port is free
	if (chance(WORK, 500)) sim::sleepFor(range(WORK, 0, 100) * MS);
	bool again = chance(WORK, 700);
	if (again) {
		std::unique_ptr<HostBase> second;
		try { second = w.host(chance(WORK, 300)); }
		catch (std::exception& e) { violation("port-taken", "after the server was destroyed, another can't use the port: " + exceptionText(e)); }
		Poller poller(*second);
		Raw raw;
		if (!raw.connectRetry(PORT)) violation("not-accepted", "the next server on the port accepts nobody");
		Exchange e = w.exchange(300);
		size_t pos = 0;
		raw.send(e.request);
		if (!receive(raw, pos, e, "a peer of the next server")) violation("no-response", std::string("the next server doesn't answer") + howEnded(raw));
	}
	fibers.joinAll();
	sim::sleepFor(1 * SEC);
	if (!again && w.handled() != handled) violation("runs-after-stop", "a request was handled after the server was destroyed");
	if (sim::openVirtualFds() != before) {
		std::string what;
		for (auto& d : sim::describeOpenFds()) what += " " + d;
		violation("not-released", fmt("%d descriptors are open after the server was destroyed, %d were before:", sim::openVirtualFds(), before) + what);
	}
	if (sim::badFdUses()) violation("bad-descriptor", "a descriptor was used that isn't open: " + sim::lastBadFdUse());
	sim::nontrivial();
}

// ---- L02 ----------------------------------------------------------------------------------------
SCENARIO(average_time) {
	NetOptions o;
	o.smallBuffers = false;
	o.stalls = false;
	swarmNet(o);
	auto& p = sim::params();
	p.maxDelay = 20 * US;
	World w;
	int64_t worked = 0, most = pick(WORK, std::vector<int64_t>{0, 10 * US, 3 * MS, 200 * MS});
	w.onHandle([&] { int64_t d = most ? range(WORK, 0, most) : 0; worked += d; if (d) sim::sleepFor(d); });
	bool poll = chance(WORK, 300);
	auto host = w.host(poll);
	if (host->average().count() != 0) violation("wrong-average", fmt("%lld ns before anything was handled", (long long)host->average().count()));
	auto poller = std::make_unique<Poller>(*host);
	int peers = 1 + choose(WORK, 3);
	size_t messages = 0;
	int64_t begin = sim::now(), waited = 0; // an upper bound of the time of handling
	bool done = false;
	int finished = 0;
	Fibers fibers;
	for (int c = 0; c < peers; c++) fibers.start("peer" + std::to_string(c), [&, c] {
		Raw raw;
		if (!raw.connectRetry(PORT)) violation("not-accepted", "can't connect");
		size_t pos = 0;
		for (int n = 1 + choose(WORK, 8); n > 0; n--) {
			std::vector<Exchange> exchanges;
			std::string all;
			for (int k = chance(WORK, 300) ? 1 + choose(WORK, 5) : 1; k > 0; k--) { exchanges.push_back(w.exchange(500)); all += exchanges.back().request; }
			int64_t start = sim::now();
			raw.send(all);
			for (auto& e : exchanges) if (!receive(raw, pos, e, "a peer")) violation("no-response", cut(e.text) + " isn't answered" + howEnded(raw));
			waited += sim::now() - start;
			messages += exchanges.size();
			if (chance(WORK, 500)) sim::sleepFor(range(WORK, 0, 200) * MS);
		}
		finished++;
		sim::waitUntil([&] { return done; }, 10000 * SEC, 20 * MS); // closing takes handling too
	});
	int asker = sim::spawn("asker", [&] {
		while (!done) {
			auto a = host->average().count();
			if (a < 0 || a > sim::now()) violation("wrong-average", fmt("%lld ns", (long long)a));
			sim::count("averages");
			sim::sleepFor(range(SCHED, 0, 3000) * US);
		}
	});
	sim::waitUntil([&] { return finished == peers; }, 5000 * SEC, 1 * MS);
	sim::sleepFor(1 * SEC);
	int64_t average = host->average().count();
	int64_t total = sim::now() - begin;
	double low = double(worked) / messages, high = double(std::min(waited, total)) / messages + 200 * US;
	note("worked %ld in %zu messages, waited %ld, average %ld", long(worked), messages, long(waited), long(average));
	if (average < low - 1) violation("wrong-average", fmt("%lld ns reported, %g ns were spent on each of the %zu messages", (long long)average, low, messages));
	if (average > high) violation("wrong-average", fmt("%lld ns reported, at most %g ns can have been spent on each of the %zu messages", (long long)average, high, messages));
	done = true;
	fibers.joinAll();
	sim::join(asker);
	if (messages > 1) sim::nontrivial();
}

// ---- L03 ----------------------------------------------------------------------------------------
SCENARIO(polled_rounds) {
	NetOptions o;
	o.smallBuffers = false;
	swarmNet(o);
	auto& p = sim::params();
	if (chance(FAULT, 150)) p.eintrPermille = 30;
	World w;
	int before = sim::openVirtualFds();
	auto host = w.host(true);
	host->round();
	int idleFds = sim::openVirtualFds();
	struct Link { Raw raw; size_t pos = 0, judged = 0; std::vector<Exchange> asked; std::string unsent; bool leaves = false; };
	std::vector<std::unique_ptr<Link>> links;
	size_t rounds = 0;
	auto round = [&] {
		uint64_t waits = sim::waitCount();
		int64_t start = sim::now();
		host->round();
		rounds++;
		if (sim::waitCount() != waits) violation("round-waits", "a round waited for something");
		if (sim::now() - start > 1 * SEC) violation("round-waits", fmt("a round took %g s", (sim::now() - start) / 1e9));
	};
	int operations = 5 + choose(WORK, 30);
	for (int n = 0; n < operations; n++) {
		int what = choose(WORK, 8);
		if (links.empty() || what == 0) {
			auto l = std::make_unique<Link>();
			if (!l->raw.connectRetry(PORT)) violation("not-accepted", "can't connect");
			links.push_back(std::move(l));
		} else if (what < 5) {
			Link& l = *links[choose(WORK, links.size())];
			if (l.unsent.empty()) { l.asked.push_back(w.exchange(chance(WORK, 100) ? 9000 : 500)); l.unsent = l.asked.back().request; }
			size_t k = chance(WORK, 500) ? l.unsent.size() : 1 + choose(WORK, l.unsent.size());
			if (!l.raw.send(std::string_view(l.unsent).substr(0, k))) violation("connection-lost", "a connection broke");
			l.unsent.erase(0, k);
		} else if (what == 5) {
			size_t i = choose(WORK, links.size());
			if (chance(WORK, 500)) links[i]->raw.reset(); else links[i]->raw.close();
			links.erase(links.begin() + i);
		} else if (what == 6) sim::sleepFor(range(WORK, 0, 50) * MS);
		for (int k = choose(WORK, 3); k > 0; k--) round();
	}
	// What has been sent arrives
	for (auto& l : links) if (!l->unsent.empty()) { l->raw.send(l->unsent); l->unsent.clear(); }
	sim::sleepFor(30 * SEC);
	size_t bytes = 0;
	for (auto& l : links) for (auto& e : l->asked) bytes += e.request.size();
	size_t enough = 20 + 6 * links.size() + 6 * operations + bytes / 200;
	for (size_t i = 0; i < enough; i++) { round(); if (chance(WORK, 50)) sim::sleepFor(1 * MS); }
	sim::allowFaults(false);
	for (auto& l : links) for (auto& e : l->asked) {
		if (!receive(l->raw, l->pos, e, "a peer", 30 * SEC)) violation("no-progress", cut(e.text) + fmt(" isn't answered after %zu more rounds", enough) + howEnded(l->raw));
		sim::count("responses");
	}
	if (sim::openVirtualFds() != idleFds + 2 * int(links.size())) violation("no-progress", fmt("%d descriptors are open after %zu more rounds, the %zu connections have %zu", sim::openVirtualFds(), enough, links.size(), idleFds + 2 * links.size()));
	links.clear();
	sim::sleepFor(10 * SEC);
	for (size_t i = 0; i < enough; i++) round();
	if (sim::openVirtualFds() != idleFds) violation("not-released", fmt("%d descriptors are open after all connections were closed and %zu rounds", sim::openVirtualFds(), enough));
	host.reset();
	if (sim::openVirtualFds() != before) violation("not-released", "descriptors are open after the server was destroyed");
	sim::count("rounds", rounds);
	sim::nontrivial();
}
