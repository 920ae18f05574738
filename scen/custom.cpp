// S07: protocols the library doesn't know, on its servers and on its client
#include "bomba_tcp_server.hpp"
#include "bomba_sync_client.hpp"
#include "common.hpp"
#include <cxxabi.h>
namespace {
constexpr int PORT = 8080;
using Bomba::ServerReaction; using Bomba::RequestToken;

enum Style { LINES, SIZED, BLOCKS, SIZED_BY_PARTS, BYTES, STYLES };
constexpr size_t BLOCK = 97;
std::string wrap(Style style, std::string text) {
	switch (style) {
		case LINES: std::replace(text.begin(), text.end(), '\n', ' '); return text + '\n';
		case BLOCKS: text.resize(BLOCK, '.'); return text;
		case BYTES: std::replace(text.begin(), text.end(), '\0', ' '); return text;
		default: { uint32_t n = text.size(); std::string r((const char*)&n, 4); return r + text; }
	}
}
std::string answer(std::string_view text) {
	if (text.empty()) return "empty;";
	std::string r;
	for (int i = (unsigned char)text[0] % 4; i >= 0; i--) { r += char('0' + i); r.append(text.rbegin(), text.rend()); }
	return r;
}
char mirrored(char c) { return c ^ 0x55; }

struct Custom {
	struct Record { std::string seen; size_t consumed = 0; std::string part; int64_t wanted = -1; bool ended = false; };
	Style style;
	bool greedy;
	std::vector<std::shared_ptr<Record>> records;
	std::function<void()> onCall;
	struct Session {
		Custom& parent;
		std::shared_ptr<Record> record;
		std::pair<ServerReaction, int64_t> respond(std::span<char> input, Bomba::Callback<void(std::span<const char>)> writer) {
			Record& r = *record;
			if (parent.onCall) parent.onCall();
			std::string_view in(input.data(), input.size()), before = std::string_view(r.seen).substr(r.consumed);
			if (r.ended) violation("given-after-end", "a session that had ended was given " + cut(in));
			if (in.empty()) violation("given-nothing", "a session was given no bytes");
			if (!in.starts_with(before)) violation("wrong-bytes", "bytes that weren't consumed were given again differently: " + firstDifference(in.substr(0, before.size()), before));
			r.seen.replace(r.consumed, std::string::npos, in);
			auto consume = [&] (size_t n) { r.consumed += n; in.remove_prefix(n); };
			auto say = [&] (std::string text) {
				std::string_view left = text;
				while (!left.empty()) {
					size_t n = chance(WORK, 600) ? left.size() : choose(WORK, left.size() + 1);
					std::string part(left.substr(0, n)); // Valid only during the call
					writer(std::span<const char>(part.data(), part.size()));
					left.remove_prefix(n);
				}
			};
			int64_t junk = choose(WORK, 2) ? int64_t(input.size()) : choose(WORK, 5); // Of no meaning
			size_t total = 0;
			do {
				std::string text;
				size_t used = 0;
				bool complete = true;
				switch (parent.style) {
					case LINES: { size_t e = in.find('\n'); if (e == std::string_view::npos) complete = false; else { text = in.substr(0, e); used = e + 1; } break; }
					case BLOCKS: if (in.size() < BLOCK) complete = false; else { text = in.substr(0, BLOCK); used = BLOCK; } break;
					case SIZED: { uint32_t n; if (in.size() < 4) { complete = false; break; } memcpy(&n, in.data(), 4); if (in.size() - 4 < n) complete = false; else { text = in.substr(4, n); used = 4 + n; } break; }
					case SIZED_BY_PARTS: // Consumes what there is, though it isn't whole
						if (r.wanted < 0) {
							if (in.size() < 4) { complete = false; break; }
							uint32_t n; memcpy(&n, in.data(), 4);
							r.wanted = n; r.part.clear();
							used = 4;
						} else {
							used = std::min<size_t>(in.size(), r.wanted - r.part.size());
							r.part += in.substr(0, used);
						}
						if (r.part.size() < size_t(r.wanted)) { if (!used) complete = false; else { consume(used); total += used; if (in.empty() || !parent.greedy) return {ServerReaction::OK, int64_t(total)}; continue; } }
						else { text = r.part; r.wanted = -1; r.part.clear(); }
						break;
					default: { // Every byte has its answer
						std::string mirror;
						bool bye = false;
						for (char c : in) { used++; if (!c) { bye = true; break; } mirror += mirrored(c); }
						say(mirror);
						consume(used);
						if (bye) { r.ended = true; return {ServerReaction::DISCONNECT, 0}; }
						return {ServerReaction::OK, int64_t(used)};
					}
				}
				if (!complete) break;
				consume(used);
				total += used;
				sim::count("messages");
				if (text.starts_with("bye")) { say(answer(text)); r.ended = true; return {ServerReaction::DISCONNECT, 0}; }
				if (text.starts_with("die")) { r.ended = true; sim::fault("responder.throws"); throw std::runtime_error("I can't"); }
				say(answer(text));
			} while (parent.greedy && !in.empty() && chance(WORK, 700));
			if (total == 0) return {ServerReaction::READ_ON, junk};
			return {ServerReaction::OK, int64_t(total)};
		}
	};
	Session getSession() { records.push_back(std::make_shared<Record>()); return Session{*this, records.back()}; }
};
size_t messageSize(size_t most) {
	size_t n = 0;
	switch (choose(WORK, 6)) {
		case 0: n = choose(WORK, 4); break;
		case 1: n = choose(WORK, 100); break;
		case 2: n = choose(WORK, 3000); break;
		case 3: n = pick(WORK, std::vector<size_t>{1024, 2048, 3072, 4096, 6144, 9216}) - 8 + choose(WORK, 17); break;
		case 4: n = choose(WORK, 300); break;
		default: n = choose(WORK, 20000); break;
	}
	return std::min(n, most);
}
std::string randomText(size_t n) {
	std::string r(n, 0);
	char base = choose(WORK, 250), step = choose(WORK, 7);
	for (size_t i = 0; i < n; i++) r[i] = base + char(i * step) + char(i >> 8);
	return r;
}
size_t sizeLimit() {
	auto& p = sim::params();
	return p.sndBuf < 100 || p.rcvBuf < 100 || p.segMode == 2 ? 300 : chance(WORK, 100) ? 100000 : 20000;
}
} // namespace

SCENARIO(custom_server) {
	swarmNet();
	if (chance(FAULT, 150)) sim::params().eintrPermille = 30;
	size_t most = sizeLimit();
	Custom protocol{Style(choose(WORK, STYLES)), bool(choose(WORK, 2))};
	if (chance(WORK, 300)) protocol.onCall = [] { if (chance(WORK, 300)) sim::sleepFor(range(WORK, 0, 3000) * US); };
	struct Host {
		std::unique_ptr<Bomba::BackgroundTcpServer<Custom>> background;
		std::unique_ptr<Bomba::TcpServer<Custom>> polled;
		bool stop = false;
		int fiber = -1;
		~Host() { if (fiber >= 0) { stop = true; sim::join(fiber); } }
	} host;
	if (chance(WORK, 250)) {
		host.polled = std::make_unique<Bomba::TcpServer<Custom>>(protocol, PORT);
		host.fiber = sim::spawn("poller", [&] { while (!host.stop) { host.polled->runARound(); sim::sleepFor(pick(SCHED, std::vector<int64_t>{1 * MS + sim::params().maxDelay / 2, 100 * US, 10 * US})); } });
	} else host.background = std::make_unique<Bomba::BackgroundTcpServer<Custom>>(protocol, PORT);
	int peers = chance(WORK, 400) ? 1 : 2 + choose(WORK, 4);
	std::vector<std::string> streams(peers);
	Fibers fibers;
	for (int c = 0; c < peers; c++) fibers.start("peer" + std::to_string(c), [&, c] {
		std::string who = "peer " + std::to_string(c), stream, expected;
		bool ends = false;
		for (int n = 1 + choose(WORK, 12); n >= 0 && !ends; n--) {
			std::string text = std::to_string(c) + ":" + randomText(messageSize(most));
			if (n == 0) {
				if (chance(WORK, 300)) { ends = true; text = protocol.style == BYTES ? "bye" : "bye" + text; }
				else if (protocol.style != BYTES && chance(WORK, 200)) { ends = true; text = "die" + text; }
				else break;
			}
			std::string message = wrap(protocol.style, text);
			if (protocol.style == BYTES && ends) message += '\0';
			stream += message;
			if (protocol.style == BYTES) { for (char byte : message) if (byte) expected += mirrored(byte); continue; }
			if (protocol.style == LINES) text = message.substr(0, message.size() - 1);
			if (protocol.style == BLOCKS) text = message;
			if (!text.starts_with("die")) expected += answer(text);
		}
		streams[c] = stream;
		Raw raw;
		if (!raw.connectRetry(PORT)) violation("not-accepted", who + " can't connect");
		int sender = sim::spawn(who + " sender", [&] { raw.sendPieces(stream); });
		raw.recvUntil([&] { return raw.in.size() >= expected.size(); }, 3000 * SEC);
		sim::join(sender);
		if (!raw.eof && !raw.failed) raw.recvUntil([&] { return raw.in.size() > expected.size(); }, ends ? 3000 * SEC : 2 * SEC);
		if (raw.in != expected) violation("wrong-response", who + ": " + firstDifference(raw.in, expected));
		if (ends && !raw.eof && !raw.failed) violation("not-ended", who + ": the connection wasn't ended after the protocol had demanded it");
		if (!ends && (raw.eof || raw.failed)) violation("ended", who + ": the connection was ended though nobody demanded it");
	});
	fibers.joinAll();
	std::multiset<std::string> consumed, sent(streams.begin(), streams.end());
	for (auto& r : protocol.records) consumed.insert(r->seen.substr(0, r->consumed));
	for (auto& s : sent) if (!consumed.count(s)) violation("not-consumed", "nobody consumed exactly " + cut(s));
	if (consumed.size() != sent.size()) violation("extra-session", std::to_string(consumed.size()) + " sessions for " + std::to_string(sent.size()) + " connections");
	sim::nontrivial();
}

// ---- the client, with a simulated server that answers in any order -----------------------------
SCENARIO(custom_client) {
	swarmNet();
	if (chance(FAULT, 150)) sim::params().eintrPermille = 30;
	size_t most = sizeLimit();
	auto frame = [] (uint32_t token, std::string_view text) { uint32_t n = text.size(); std::string r((const char*)&token, 4); r.append((const char*)&n, 4); r += text; return r; };
	constexpr uint32_t MALFORMED = 0xffffffff;
	bool inOrder = chance(WORK, 300);
	int fault = chance(FAULT, 300) ? 1 + choose(FAULT, 2) : 0; // 1 closes, 2 sends something malformed
	int answered = 0, faultAfter = choose(FAULT, 12);
	bool faulty = false;
	std::map<uint32_t, std::string> answers; // completely sent
	std::string sent;
	auto listener = std::make_shared<Listener>(PORT);
	auto link = std::make_shared<Raw>();
	std::vector<std::pair<uint32_t, std::string>> waiting;
	std::map<uint32_t, std::string> requested;
	bool over = false;
	int up = sim::spawn("server-in", [&] {
		if (!listener->accept(*link)) return;
		size_t pos = 0;
		while (!over && link->recvSome()) while (link->in.size() - pos >= 8) {
			uint32_t token, n;
			memcpy(&token, link->in.data() + pos, 4);
			memcpy(&n, link->in.data() + pos + 4, 4);
			if (n > 200000) violation("wrong-request", "the request's length became " + std::to_string(n));
			if (link->in.size() - pos - 8 < n) break;
			std::string text = link->in.substr(pos + 8, n);
			if (!requested.count(token) || requested[token] != text) violation("wrong-request", "the server got " + cut(text) + " as request " + std::to_string(token));
			pos += 8 + n;
			waiting.emplace_back(token, text);
		}
		over = true;
	});
	int down = sim::spawn("server-out", [&] {
		while (true) {
			sim::waitUntil([&] { return !waiting.empty() || over; }, 5000 * SEC, 100 * US);
			if (over && waiting.empty()) return;
			if (chance(WORK, 300)) sim::sleepFor(range(WORK, 0, 20) * MS);
			if (fault && answered == faultAfter) {
				faulty = true;
				if (fault == 1) { sim::fault("net.server-closes"); std::string part = frame(waiting[0].first, "cut off"); if (chance(FAULT, 500)) link->send(part.substr(0, choose(FAULT, part.size()))); link->finish(); }
				else { sim::fault("server.malformed-response"); std::string bad = frame(waiting[0].first, "bad"); memset(bad.data() + 4, 0xff, 4); link->send(bad); }
				return;
			}
			size_t at = inOrder ? 0 : choose(WORK, waiting.size());
			auto [token, text] = waiting[at];
			waiting.erase(waiting.begin() + at);
			std::string response = answer(text);
			sent += frame(token, response);
			if (!link->sendPieces(frame(token, response))) return;
			answers[token] = response;
			answered++;
		}
	});
	size_t consumed = 0, collected = 0, failures = 0;
	{
		Bomba::SyncNetworkClient net("127.0.0.1", std::to_string(PORT));
		Bomba::ITcpClient& client = net;
		std::map<uint32_t, std::string> aside; // responses the reader has identified
		std::vector<uint32_t> open;
		uint32_t next = choose(WORK, 2) ? 1 : 0x7ffffff0;
		std::string got;
		bool found = false;
		auto reader = [&] (uint32_t sought, std::span<char> input, bool identified) -> std::tuple<ServerReaction, RequestToken, int64_t> {
			std::string_view in(input.data(), input.size());
			if (identified) {
				auto known = aside.find(sought);
				if (known == aside.end()) violation("wrong-identified", "the reader was told that " + cut(in) + " is response " + std::to_string(sought) + " but it hasn't said so");
				if (in != known->second) violation("wrong-bytes", "a response put aside came back differently: " + firstDifference(in, known->second));
			} else {
				if (in.empty()) violation("given-nothing", "the reader was given no bytes");
				std::string_view expected = std::string_view(sent).substr(std::min(sent.size(), consumed));
				size_t n = std::min(expected.size(), in.size());
				if (in.substr(0, n) != expected.substr(0, n) || (in.size() > n && !faulty)) violation("wrong-bytes", "the reader wasn't given what comes next: " + firstDifference(in, expected.substr(0, n)));
			}
			uint32_t token, size;
			int64_t junk = choose(WORK, 2) ? int64_t(in.size()) : 0;
			if (in.size() < 8) return {ServerReaction::READ_ON, RequestToken{}, junk};
			memcpy(&token, in.data(), 4);
			memcpy(&size, in.data() + 4, 4);
			if (size == MALFORMED) return {ServerReaction::DISCONNECT, RequestToken{}, 0};
			if (in.size() - 8 < size) return {ServerReaction::READ_ON, RequestToken{}, junk};
			int64_t whole = 8 + size;
			if (!identified) { consumed += whole; aside[token] = in.substr(0, whole); }
			if (token != sought) return {ServerReaction::WRONG_REPLY, RequestToken{int(token)}, whole};
			if (found) violation("found-twice", "the reader was given response " + std::to_string(sought) + " twice");
			found = true;
			got = in.substr(8, size);
			return {ServerReaction::OK, RequestToken{int(token)}, whole};
		};
		bool broken = false;
		int steps = 3 + choose(WORK, 40);
		for (int i = 0; i < steps || !open.empty(); i++) {
			bool last = i >= steps;
			int what = last ? 1 + choose(WORK, 4) : choose(WORK, 6);
			if (what == 0 || what == 5 || open.empty()) {
				if (broken || open.size() > 40) continue;
				std::string text = randomText(messageSize(most)), whole = frame(next, text);
				requested[next] = text;
				try { net.writeRequest(whole); open.push_back(next); }
				catch (std::exception& e) { if (!faulty) violation("call-threw", "writeRequest threw " + std::string(e.what()) + " over a working connection"); broken = true; failures++; }
				next++;
			} else if (size_t at = choose(WORK, open.size()); what < 4) {
				uint32_t token = open[at];
				found = false;
				bool failed = false;
				try { client.getResponse(RequestToken{int(token)}, [&] (std::span<char> input, bool identified) { return reader(token, input, identified); }); }
				catch (std::exception& e) { failed = true; failures++; if (!faulty) violation("call-threw", "getResponse threw " + std::string(e.what()) + " over a working connection"); }
				if (failed) { if (answers.count(token)) violation("lost-response", "response " + std::to_string(token) + " was sent before the failure but can't be collected"); }
				else if (!found) violation("no-response", "getResponse of " + std::to_string(token) + " returned without giving the response");
				else if (got != answer(requested[token])) violation("wrong-result", "response " + std::to_string(token) + ": " + firstDifference(got, answer(requested[token])));
				else collected++;
				open.erase(open.begin() + at);
			} else {
				uint32_t token = open[at];
				found = false;
				bool known = aside.count(token);
				uint64_t waits = sim::waitCount();
				try { client.tryToGetResponse(RequestToken{int(token)}, [&] (std::span<char> input, bool identified) { return reader(token, input, identified); }); }
				catch (std::exception& e) { if (!faulty) violation("call-threw", "tryToGetResponse threw " + std::string(e.what()) + " over a working connection"); }
				if (sim::waitCount() != waits) violation("poll-waits", "asking for response " + std::to_string(token) + " without wanting to wait waited for the network");
				if (known && !found) violation("forgotten", "response " + std::to_string(token) + " was already received but isn't found again");
				sim::count("polls");
			}
			if (chance(WORK, 200)) sim::sleepFor(range(WORK, 0, 30) * MS);
		}
	}
	over = true;
	sim::join(up);
	link->finish();
	sim::join(down);
	sim::count("collected", collected);
	if (collected > 1) sim::nontrivial();
}
