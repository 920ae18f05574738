#include <cxxabi.h>
#include "rpc.hpp"
#include "bomba_binary_protocol.hpp"
struct Binary {
	using Server = Bomba::BinaryProtocolServer<>;
	using Client = Bomba::BinaryProtocolClient<>;
	static constexpr size_t usualText = 6000, bigText = 65400, mostText = 65500;
	static constexpr bool anyByte = true, deep = false;
	static size_t framer(std::string_view s) { if (s.size() < 6) return 0; size_t n = (unsigned char)s[4] | (unsigned char)s[5] << 8; return n >= 6 && s.size() >= n ? n : 0; }
	static Client client(Bomba::IRemoteCallable& top, Bomba::ITcpClient& net) { return Client(top, net); }
};
// Other template arguments: larger messages, deeper nesting
struct WideBinary {
	using Numbers = Bomba::LittleEndianNumberFormat<Bomba::ExpandingBuffer<>>;
	using Server = Bomba::BinaryProtocolServer<uint32_t, Bomba::ExpandingBuffer<>, Numbers, 5>;
	using Client = Bomba::BinaryProtocolClient<uint32_t, Bomba::ExpandingBuffer<>, Numbers, 5>;
	static constexpr size_t usualText = 6000, bigText = 200000, mostText = SIZE_MAX;
	static constexpr bool anyByte = true, deep = true;
	static size_t framer(std::string_view s) { if (s.size() < 8) return 0; size_t n = 0; for (int i = 3; i >= 0; i--) n = n << 8 | (unsigned char)s[4 + i]; return n >= 8 && s.size() >= n ? n : 0; }
	static Client client(Bomba::IRemoteCallable& top, Bomba::ITcpClient& net) { return Client(top, net); }
};
SCENARIO(bin_call_wide) { callScenario<WideBinary>(); }
SCENARIO(bin_garbage_wide) { garbageScenario<WideBinary>(); }
SCENARIO(bin_call) { callScenario<Binary>(); }
SCENARIO(bin_pipeline) { pipelineScenario<Binary>(); }
SCENARIO(bin_ready) { readyScenario<Binary>(); }
SCENARIO(bin_fail) { failScenario<Binary>(); }
SCENARIO(bin_garbage) { garbageScenario<Binary>(); }

// ---- M02: responses in any order --------------------------------------------------------------------
SCENARIO(bin_outoforder) {
	NetOptions o;
	o.smallBuffers = false;
	swarmNet(o);
	Listener listener(PORT);
	Api probe;
	int echoIndex = static_cast<Bomba::IRemoteCallable&>(probe).childName(&probe.echo).second;
	int eagerness = choose(WORK, 3);
	std::vector<std::string> seen;
	bool clientWaits = false;
	Fibers fibers;
	fibers.start("server", [&] {
		Raw peer;
		if (!listener.accept(peer)) return;
		size_t pos = 0;
		std::vector<std::pair<std::string, std::string>> held; // id, text
		while (true) {
			// Everything that has come is looked at before answering
			bool more = peer.readable(held.empty() ? 100000 * SEC : range(WORK, 0, 20) * MS);
			if (more && !peer.recvSome()) return;
			while (size_t n = Binary::framer(std::string_view(peer.in).substr(pos))) {
				std::string_view m = std::string_view(peer.in).substr(pos, n);
				pos += n;
				if (n < 10 || (unsigned char)m[6] != echoIndex) violation("bad-request", "the client sent an unexpected message " + cut(m));
				size_t len = (unsigned char)m[7] | (unsigned char)m[8] << 8;
				if (n != 10 + len) violation("bad-request", fmt("a message of %zu bytes has %zu bytes of text", n, len));
				std::string text(m.substr(9, len));
				held.emplace_back(m.substr(0, 4), m[9 + len] ? text + text : text);
				seen.push_back(text);
			}
			while (!held.empty() && (!more || chance(WORK, eagerness == 0 ? 50 : eagerness == 1 ? 300 : 800))) {
				size_t i = choose(WORK, held.size());
				std::string r = held[i].first, text = held[i].second;
				held.erase(held.begin() + i);
				size_t total = 8 + text.size();
				r += {char(total & 255), char(total >> 8), char(text.size() & 255), char(text.size() >> 8)};
				r += text;
				if (chance(WORK, 500)) peer.sendPieces(r, 20); else if (!peer.send(r)) return;
				if (more && chance(WORK, 500)) break;
			}
		}
	});
	std::vector<std::string> made;
	std::string doing = "connecting";
	try {
		Api remote;
		Bomba::SyncNetworkClient net("127.0.0.1", std::to_string(PORT));
		Binary::Client client(remote, net);
		struct Flight { std::string text, expected; std::unique_ptr<Pending> pending; bool saidReady = false; };
		std::vector<Flight> open;
		size_t total = 2 + choose(WORK, 11), maxText = pick(WORK, std::vector<size_t>{20, 1500, 9000});
		auto call = [&] { std::string s = std::to_string(made.size()) + ":" + genText(maxText, true); bool t = choose(WORK, 2); Call c = makeCall<std::string>("echo", &Api::echo, s, t); c.model = [=](Impl&) { return showArgs(t ? s + s : s); }; made.push_back(s); return c; };
		Impl none;
		auto collect = [&] (size_t i) {
			Flight f = std::move(open[i]);
			open.erase(open.begin() + i);
			doing = "collecting " + cut(f.text);
			uint64_t before = sim::waitCount();
			std::string got = f.pending->get();
			if (f.saidReady && sim::waitCount() != before) violation("ready-but-waits", cut(f.text) + " was reported ready but collecting it had to wait");
			if (got != f.expected) violation("wrong-result", cut(f.text) + " gave " + cut(got) + "; " + firstDifference(got, f.expected));
			if (chance(WORK, 200) && f.pending->get() != f.expected) violation("wrong-result", cut(f.text) + " gave another result the second time");
			sim::count("collected");
		};
		while (made.size() < total || !open.empty()) {
			int what = choose(WORK, 9);
			if (made.size() < total && (what < 4 || open.empty())) {
				Call c = call();
				doing = "starting " + cut(c.text);
				Flight f{c.text, c.model(none), c.start(remote)};
				open.push_back(std::move(f));
			} else if (open.empty()) continue;
			else if (what < 6) collect(choose(WORK, open.size()));
			else if (what == 6) { size_t i = choose(WORK, open.size()); doing = "polling"; open[i].saidReady = open[i].pending->ready(); if (open[i].saidReady) collect(i); }
			else if (what == 7 && made.size() < total && chance(WORK, 300)) {
				Call c = call();
				doing = "calling " + cut(c.text);
				std::string got = c.run(remote), expected = c.model(none);
				if (got != expected) violation("wrong-result", cut(c.text) + " gave " + cut(got) + "; " + firstDifference(got, expected));
			} else if (what == 7 && chance(WORK, 200)) open.erase(open.begin() + choose(WORK, open.size()));
			else sim::sleepFor(range(WORK, 0, 30) * MS);
		}
	} catch (std::exception& e) { violation("call-threw", doing + " threw " + exceptionText(e)); }
	if (seen.size() > made.size()) violation("wrong-execution", "more messages arrived than calls were made");
	for (size_t i = 0; i < seen.size(); i++) if (seen[i] != made[i]) violation("wrong-execution", fmt("message %zu arrived as ", i) + cut(seen[i]));
	sim::nontrivial();
}
