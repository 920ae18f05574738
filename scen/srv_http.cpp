// HTTP servers against raw peers: S01, S06, R03, J01.
#include <cxxabi.h>
#include "rpc.hpp"
#include "httpreq.hpp"
#include "bomba_json_rpc.hpp"

// What has come of a response whose rest never comes
static void judgePartial(std::string_view in, const Req& r, const std::string& who) {
	static const std::string_view start = "HTTP/1.1 ";
	if (in.substr(0, start.size()) != start.substr(0, std::min(start.size(), in.size()))) violation("wrong-response", who + ": garbage instead of a status line: " + cut(in));
	size_t end = in.find("\r\n\r\n");
	if (end == std::string_view::npos) return;
	std::string_view body = in.substr(end + 4);
	if (!r.hasBody) return;
	if (body != std::string_view(r.body).substr(0, body.size())) violation("wrong-response", who + ": the beginning of an incomplete body is wrong; " + firstDifference(body, r.body));
}
// limit: the size of a buffer for responses of unknown size that doesn't grow, 0 if it does
template <typename Buffer = Bomba::ExpandingBuffer<1024>> static void streamScenario(bool responseEmphasis, size_t limit = 0) {
	swarmNet();
	auto& p = sim::params();
	if (chance(FAULT, 150)) p.eintrPermille = 30;
	bool tiny = p.sndBuf < 100 || p.rcvBuf < 100 || p.segMode >= 2;
	size_t maxSize = tiny ? 1500 : responseEmphasis ? (chance(WORK, 300) ? 300000 : 8000) : (chance(WORK, 150) ? chance(WORK, 30) ? 1800000 : 40000 : 4000);
	Producer producer;
	if (chance(WORK, 200)) producer.onHandle = [] { if (chance(WORK, 300)) sim::sleepFor(range(WORK, 0, 3000) * US); };
	using Protocol = Bomba::HttpServer<Buffer>;
	Protocol protocol(producer, producer);
	ServerHost<Protocol> host(protocol, chance(WORK, 200));
	// Another server in the same process, with handlers of its own
	Producer otherProducer;
	otherProducer.onHandle = producer.onHandle;
	std::optional<Protocol> otherProtocol;
	std::optional<ServerHost<Protocol>> otherHost;
	if (chance(WORK, 150)) {
		sim::count("config.two-servers");
		otherProtocol.emplace(otherProducer, otherProducer);
		otherHost.emplace(*otherProtocol, false, PORT + 1);
	}
	int peers = chance(WORK, 600) ? 1 : 2 + choose(WORK, 3);
	bool slow = responseEmphasis && chance(WORK, 400), alone = !responseEmphasis && chance(WORK, 300);
	std::vector<std::string> expectedHandledBy[2];
	size_t answered = 0;
	Fibers fibers;
	for (int c = 0; c < peers; c++) fibers.start("peer" + std::to_string(c), [&, c] {
		std::string who = "peer " + std::to_string(c);
		int port = PORT + (otherHost ? choose(WORK, 2) : 0);
		auto& expectedHandled = expectedHandledBy[port - PORT];
		std::vector<Req> reqs;
		int n = 1 + choose(WORK, responseEmphasis ? 5 : 12);
		bool longStream = !tiny && !responseEmphasis && !limit && chance(WORK, 8);
		if (longStream) { n = 100 + choose(WORK, 1200); sim::count("config.long-stream"); }
		bool trailing = chance(WORK, 300); // more requests behind one that ends the connection
		for (int i = 0; i < n; i++) {
			reqs.push_back(makeReq(longStream ? 100 : maxSize, responseEmphasis || (!longStream && chance(WORK, 200)), !longStream && chance(WORK, 40), c * 100 + i));
			if ((reqs.back().close || reqs.back().breaks) && !trailing) break;
		}
		size_t last = 0; // how many are to be answered
		bool ends = false, breaks = false;
		for (auto& r : reqs) { last++; if (!r.handled.empty()) expectedHandled.push_back(r.handled); if (r.breaks) { breaks = true; break; } if (r.close) { ends = true; break; } }
		bool more = last < reqs.size(); // then the close may reset the connection, which may destroy responses
		std::string all;
		for (auto& r : reqs) all += r.bytes;
		Raw raw;
		if (!raw.connectRetry(port)) violation("not-accepted", who + " can't connect");
		bool sent = false;
		int sender = sim::spawn(who + " sender", [&] { raw.sendPieces(all); sent = true; });
		size_t pos = 0, i = 0;
		auto receive = [&] (size_t until, int64_t idle) {
			std::string why;
			HttpMessage m;
			while (i < until) {
				Parsed parsed = parseResponse(raw.in, pos, m, why);
				if (parsed == Parsed::BAD) violation("wrong-response", who + ": response " + std::to_string(i) + " to " + cut(reqs[i].handled.empty() ? reqs[i].bytes : reqs[i].handled, 80) + ": " + why);
				if (parsed == Parsed::MORE) {
					if (slow && chance(WORK, 200)) sim::sleepFor(range(WORK, 0, 300) * MS);
					if (!raw.readable(idle) && (sent || sim::now() > 20000 * SEC)) return false;
					else if (!raw.readable(0)) continue; // the request isn't sent yet
					if (!raw.recvSome(slow ? 1 + choose(WORK, 500) : 65536)) return false;
					continue;
				}
				const Req& r = reqs[i];
				std::string what = who + ": response " + std::to_string(i) + " to " + cut(r.handled.empty() ? r.bytes : r.handled, 80);
				if (r.breaks) violation("wrong-response", what + " looks complete though its producer failed");
				if (m.status != r.status) violation("wrong-status", what + fmt(" has status %d, expected %d", m.status, r.status));
				if (limit && r.what == "unknown" && m.body.size() < r.body.size()) { // what doesn't fit is cut off
					if (m.body + std::string(r.body.substr(m.body.size())) != r.body) violation("wrong-body", what + " isn't the beginning: " + firstDifference(m.body, r.body));
					if (m.body.size() + 200 < limit) violation("wrong-body", what + fmt(" has only %zu bytes of %zu though there was place for %zu", m.body.size(), r.body.size(), limit));
					sim::count("responses-cut-off");
				} else if (r.hasBody && m.body != r.body) violation("wrong-body", what + ": " + firstDifference(m.body, r.body));
				if (r.status == 200 && m.header("content-type") != r.type) violation("wrong-type", what + " has type " + cut(m.header("content-type")) + ", expected " + r.type);
				i++;
				answered++;
			}
			return true;
		};
		bool complete = receive(breaks ? last - 1 : last, IDLE);
		if (!complete) {
			if (more && raw.failed) { judgePartial(std::string_view(raw.in).substr(pos), reqs[i], who); sim::count("reset-by-trailing-data"); }
			else violation("no-response", who + fmt(": request %zu of %zu isn't answered (", i, reqs.size()) + cut(reqs[i].handled.empty() ? reqs[i].bytes : reqs[i].handled, 80) + (raw.eof ? "), the connection was closed" : raw.failed ? "), the connection failed" : "), nothing comes"));
		} else if (ends || breaks) {
			while (!raw.eof && !raw.failed) { if (!raw.readable(IDLE)) violation("not-closed", who + ": the connection isn't closed after " + (ends ? "a request demanding it" : "a response that failed midway")); raw.recvSome(); }
			std::string_view rest = std::string_view(raw.in).substr(pos);
			if (ends && !rest.empty()) violation("extra-bytes", who + ": after the last response came " + cut(rest));
			if (breaks) judgePartial(rest, reqs[i], who);
		} else {
			sim::join(sender); sender = -1;
			bool quiet = !raw.readable(2 * SEC);
			if (!quiet) { raw.recvSome(); violation("extra-bytes", who + (raw.eof ? ": the connection was closed though nobody demanded it" : raw.failed ? ": the connection broke" : ": after the last response came " + cut(std::string_view(raw.in).substr(pos)))); }
			// It stays usable
			reqs.push_back(makeReq(100, false, false, c * 100 + 99));
			if (!reqs.back().handled.empty()) expectedHandled.push_back(reqs.back().handled);
			raw.send(reqs.back().bytes);
			if (!receive(reqs.size(), IDLE)) violation("no-response", who + ": a request after a pause isn't answered");
		}
		std::string together = raw.in.substr(0, pos), separately;
		if (sender >= 0) { if (!sim::fiberDone(sender)) raw.in.clear(); while (!sim::fiberDone(sender)) { if (raw.readable(10 * MS) && !raw.recvSome()) break; } sim::join(sender); }
		// Each request alone gives the same bytes
		if (alone && complete && !breaks) {
			for (size_t k = 0; k < i; k++) {
				Raw one;
				if (!one.connectRetry(port)) violation("not-accepted", who + " can't connect");
				one.send(reqs[k].bytes);
				std::string why;
				HttpMessage m;
				size_t at = 0;
				if (!reqs[k].handled.empty()) expectedHandled.push_back(reqs[k].handled);
				one.recvUntil([&] { return parseResponse(one.in, at, m, why) != Parsed::MORE; }, IDLE);
				separately += one.in;
			}
			if (together != separately) violation("depends-on-stream", who + ": the stream differs from the responses to the requests sent alone; " + firstDifference(together, separately));
			sim::count("compared-with-alone");
		}
	});
	fibers.joinAll();
	for (int k = 0; k < 2; k++) {
		auto& which = k ? otherProducer : producer;
		auto& expectedHandled = expectedHandledBy[k];
		auto got = which.handled;
		std::sort(got.begin(), got.end());
		std::sort(expectedHandled.begin(), expectedHandled.end());
		if (got != expectedHandled) {
			size_t i = 0;
			while (i < got.size() && i < expectedHandled.size() && got[i] == expectedHandled[i]) i++;
			violation("wrong-execution", fmt("%zu requests reached the responders, expected %zu; first difference: ", got.size(), expectedHandled.size()) + (i < got.size() ? cut(got[i]) : "none") + " instead of " + (i < expectedHandled.size() ? cut(expectedHandled[i]) : "none"));
		}
	}
	sim::count("responses", answered);
	if (answered > 1 || responseEmphasis) sim::nontrivial();
}
SCENARIO(http_stream) { streamScenario(false); }
SCENARIO(http_response) {
	switch (choose(WORK, 8)) {
		case 0: streamScenario<Bomba::NonExpandingBuffer<600>>(true, 600); break;
		case 1: streamScenario<Bomba::NonExpandingBuffer<>>(true, 1024); break;
		case 2: streamScenario<Bomba::ExpandingBuffer<64, std::vector<char>>>(true); break;
		default: streamScenario(true); break;
	}
}

// ---- J01 ----------------------------------------------------------------------------------------
struct JReq {
	std::string text, logged; // what it looks like; what it should run, empty if nothing
	bool hasId = false, fails = false;
	JVal id;
	std::function<void(const JVal&)> judge; // of the result
	std::string name;
};
// An integer in one of its spellings, many languages don't distinguish integers from other numbers
static std::string intText(int64_t v) {
	std::string plain = std::to_string(v);
	if (!chance(WORK, 150)) return plain;
	int zeroes = 0;
	for (size_t at = plain.size(); v && plain[at - 1] == '0'; at--) zeroes++;
	switch (choose(WORK, 5)) {
		case 0: return plain + ".0";
		case 1: return plain + (choose(WORK, 2) ? "e0" : "E+0");
		case 2: return plain + "0e-1";
		case 3: if (zeroes) return plain.substr(0, plain.size() - zeroes) + pick(WORK, std::vector<std::string>{"e", "E", "e+"}) + std::to_string(zeroes); [[fallthrough]];
		default: return std::abs(v) < 10 ? plain + ".00" : plain.substr(0, plain.size() - 1) + "." + plain.back() + "e1";
	}
}
static bool sameId(const JVal& a, const JVal& b) {
	if (a.kind != b.kind) return false;
	if (a.kind == JVal::NUM) return a.text == b.text || strtod(a.text.c_str(), nullptr) == strtod(b.text.c_str(), nullptr);
	return a.kind == JVal::STR ? a.text == b.text : true;
}
static JReq makeJReq(const Tree& tree, Impl& model, int serial, bool stateful, size_t maxText, const std::string& tag) {
	JReq r;
	std::string method;
	std::vector<std::string> params;
	bool omitParams = false;
	auto expectText = [&r] (std::string want) { r.judge = [want] (const JVal& v) { if (v.kind != JVal::STR || v.text != want) violation("wrong-result", "the result isn't " + cut(want) + " but " + cut(v.text)); }; };
	auto expectNum = [&r] (std::string want) { r.judge = [want] (const JVal& v) { if (v.kind != JVal::NUM || (v.text != want && strtod(v.text.c_str(), nullptr) != strtod(want.c_str(), nullptr))) violation("wrong-result", "the result isn't " + want + " but " + cut(v.text)); }; };
	auto expectNull = [&r] { r.judge = [] (const JVal& v) { if (v.kind != JVal::NUL) violation("wrong-result", "the result of a method without result isn't null"); }; };
	switch (choose(WORK, stateful ? 12 : 8)) {
		case 0: { int a = int(genInt(32, true)), b = int(genInt(32, true)); method = "add"; params = {pair("a", intText(a)), pair("b", intText(b))}; r.logged = "add(" + showArgs(a, b) + ")"; expectNum(std::to_string(int(unsigned(a) + unsigned(b)))); break; }
		case 1: { std::string s = tag + genText(maxText); bool t = choose(WORK, 2); method = "echo"; params = {pair("text", jsonString(s)), pair("twice", t ? "true" : "false")}; r.logged = "echo(" + showArgs(s, t) + ")"; expectText(t ? s + s : s); break; }
		case 2: { std::string m = tag + genText(100); method = "fail"; params = {pair("message", jsonString(m))}; r.logged = "fail(" + showArgs(m) + ")"; r.fails = true; if (m.empty()) { r.fails = false; expectNum("0"); } break; }
		case 3: { method = pick(WORK, std::vector<std::string>{"nothing", "Add", "addd", "ad", "add.x", "api.api.add", "", "other.nothing", "x.add"}); params = {pair("a", "1"), pair("b", pick(WORK, std::vector<std::string>{"2", "{\"x\":[1,{\"y\":\"}\"}]}", "\"te\\\"xt\"", "null", "[[],{}]"}))}; r.fails = true; r.logged = ""; if (chance(WORK, 300)) omitParams = true; break; }
		case 4: { bool present = chance(WORK, 600); int o = int(genInt(32, true)); method = "maybe"; if (present) params = {pair("o", intText(o))}; else if (chance(WORK, 300)) params = {pair("o", "null")}; else omitParams = chance(WORK, 500);
			r.logged = "maybe(" + showArgs(present ? std::optional<int>(o) : std::optional<int>()) + ")";
			if (present && o % 3 == 0) expectNull(); else expectNum(std::to_string(present ? o / 2 : 7)); break; }
		case 5: { bool b = choose(WORK, 2); method = "flip"; params = {pair("b", b ? "true" : "false")}; r.logged = "flip(" + showArgs(b) + ")"; r.judge = [b] (const JVal& v) { if (v.kind != JVal::BOOL || v.b == b) violation("wrong-result", "flip gave the same"); }; break; }
		case 6: { double d = genDouble(); float f = choose(WORK, 2) ? 1.5f : -2.25f; method = "real"; params = {pair("d", numText(d)), pair("f", numText(f))}; r.logged = "real(" + showArgs(d, f) + ")"; expectNum(numText(f > 0 ? d : -d)); break; }
		case 7: { Point p = genPoint(std::min<size_t>(maxText, 500), false); int dx = int(genInt(32, true));
			method = "move";
			std::vector<std::string> tags, members;
			for (int t : p.tags) tags.push_back(intText(t));
			members = {pair("x", intText(p.x)), pair("y", numText(p.y)), pair("name", jsonString(std::string(p.name))), pair("tags", "[" + join(tags, true) + jsonSpace() + "]"), pair("flag", p.flag ? "true" : "false")};
			if (p.extra) members.push_back(pair("extra", intText(*p.extra)));
			if (chance(WORK, 200)) members.push_back(pair("z", pick(WORK, std::vector<std::string>{"null", "5", "[1,[\"]\"],{\"a\":{}}]", "{ \"x\" : [ { } , \"}\" ] }", "\"}\\\"\""})));
			params = {pair("point", "{" + join(members) + jsonSpace() + "}"), pair("dx", intText(dx))};
			r.logged = "move(" + showArgs(p, dx) + ")";
			int x = int(unsigned(p.x) + unsigned(dx));
			bool extra = bool(p.extra), flag = !p.flag;
			std::string name = p.name;
			size_t count = p.tags.size() + 1;
			double y = p.y;
			r.judge = [=] (const JVal& v) {
				if (v.kind != JVal::OBJ || !v.get("x") || v.get("x")->text != std::to_string(x) || !v.get("name") || v.get("name")->text != name || !v.get("tags") || v.get("tags")->arr.size() != count || v.get("tags")->arr.back().text != std::to_string(dx)
					|| !v.get("flag") || v.get("flag")->b != flag || !v.get("y") || strtod(v.get("y")->text.c_str(), nullptr) != y || (extra ? v.get("extra") && v.get("extra")->kind != JVal::NUL : !v.get("extra") || v.get("extra")->text != std::to_string(dx)))
					violation("wrong-result", "move gave another object");
			};
			break; }
		case 8: { int by = choose(WORK, 1000); method = "bump"; params = {pair("by", intText(by))}; r.logged = "bump(" + showArgs(by) + ")"; model.counter += by; expectNum(std::to_string(model.counter)); break; }
		case 9: { std::string v = genText(maxText); method = "swap"; params = {pair("value", jsonString(v))}; r.logged = "swap(" + showArgs(v) + ")"; expectText(model.stored); model.stored = v; break; }
		case 10: { std::string v = genText(maxText); method = "store"; params = {pair("value", jsonString(v))}; r.logged = "store(" + showArgs(v) + ")"; model.stored = v; expectNull(); break; }
		default: { method = "load"; omitParams = chance(WORK, 500); r.logged = "load()"; expectText(model.stored); break; }
	}
	static const std::vector<std::string> junk = {"null", "5", "-1.5e3", "true", "\"}\\\"]\"", "[]", "{}", "[1,[\"]\"],{\"a\":{}}]", "{ \"x\" : [ { } , \"}\" ] }", "\"\""};
	if (!r.logged.empty() && !omitParams && chance(WORK, 120)) params.push_back(pair("unknown", pick(WORK, junk))); // the server may be older than the client
	r.name = method;
	bool known = !r.logged.empty();
	std::string full = known ? tree.prefix(".") + method : (chance(WORK, 700) ? tree.prefix(".") : "") + method;
	if (!known && chance(WORK, 200)) full = tree.shape == 0 ? "." : tree.shape == 1 ? "api" : chance(WORK, 500) ? tree.shape == 3 ? "deep" : "group" : tree.shape == 3 ? "deep.api" : "group.api"; // only a group of methods
	std::vector<std::string> members = {pair("jsonrpc", "\"2.0\""), pair("method", jsonString(full, chance(WORK, 100)))};
	if (!omitParams) members.push_back(pair("params", "{" + join(params) + jsonSpace() + "}"));
	r.hasId = chance(WORK, 800);
	if (r.hasId) {
		std::string id;
		switch (choose(WORK, 8)) {
			case 0: case 1: r.id.kind = JVal::NUM; r.id.text = id = std::to_string(serial); break;
			case 2: r.id.kind = JVal::NUM; r.id.text = id = std::to_string(genInt(64, true) / 1000 * 1000 + serial % 1000); break;
			case 3: r.id.kind = JVal::STR; r.id.text = std::to_string(serial) + genText(60); id = jsonString(r.id.text); break;
			case 4: r.id.kind = JVal::NUM; r.id.text = id = (choose(WORK, 2) ? "-" : "") + std::to_string(serial) + pick(WORK, std::vector<std::string>{".5", ".25e0", ".125E-2", "e-3"}); break;
			case 6: r.id.kind = JVal::NUM; r.id.text = id = (choose(WORK, 2) ? "-" : "") + std::to_string(serial + 1) + pick(WORK, std::vector<std::string>{"0000000000000000000", "00000000000000000000", "73709551615000000000", "000000000000000000000000000000"}); break; // beyond 64 bits
			case 5: if (serial % 8 == 0) { r.id.kind = JVal::NUL; r.id.text = id = "null"; break; } [[fallthrough]];
			default: r.id.kind = JVal::STR; r.id.text = std::to_string(serial) + genText(8); id = jsonString(r.id.text); break;
		}
		members.push_back(pair("id", id));
	}
	r.text = "{" + join(members) + jsonSpace() + "}";
	return r;
}
static void judgeJson(const JVal& v, const std::vector<JReq*>& asked, const std::string& who, std::vector<bool>& used) {
	if (v.kind != JVal::OBJ) violation("bad-response", who + ": a response isn't an object");
	const JVal* id = v.get("id");
	if (!id || v.countKey("id") != 1) violation("bad-response", who + ": a response has no or several ids");
	if (!v.get("jsonrpc") || v.get("jsonrpc")->text != "2.0") violation("bad-response", who + ": a response lacks the version");
	for (size_t i = 0; i < asked.size(); i++) {
		JReq& r = *asked[i];
		if (used[i] || !r.hasId || !sameId(r.id, *id)) continue;
		used[i] = true;
		std::string what = who + ": " + cut(r.text);
		if (v.countKey("result") + v.countKey("error") != 1 || v.obj.size() != 3) violation("bad-response", what + " was answered with neither a result nor an error, or with both");
		if (r.fails != bool(v.get("error"))) violation(r.fails ? "error-not-reported" : "wrong-error", what + (r.fails ? " should have failed" : " failed: ") + (v.get("error") && v.get("error")->get("message") ? v.get("error")->get("message")->text : ""));
		if (r.fails) {
			const JVal& e = *v.get("error");
			if (e.kind != JVal::OBJ || !e.get("code") || e.get("code")->kind != JVal::NUM || !e.get("message") || e.get("message")->kind != JVal::STR) violation("bad-response", what + ": the error isn't an object with a code and a message");
		} else { note("%s", what.c_str()); r.judge(*v.get("result")); }
		return;
	}
	violation("unexpected-response", who + ": nobody waits for a response with the id " + cut(id->text));
}
SCENARIO(json_requests) {
	swarmNet();
	if (chance(FAULT, 150)) sim::params().eintrPermille = 30;
	size_t maxText = swarmTextSize(1500, 20000);
	Tree served(choose(WORK, 4));
	Bomba::JsonRpcServer<> protocol(*served.top);
	swarmProcessing(served.impl);
	ServerHost<Bomba::JsonRpcServer<>> host(protocol, chance(WORK, 200));
	int peers = chance(WORK, 650) ? 1 : 2 + choose(WORK, 2);
	// Another server in the same process, with objects of its own
	std::optional<Tree> otherServed;
	std::optional<Bomba::JsonRpcServer<>> otherProtocol;
	std::optional<ServerHost<Bomba::JsonRpcServer<>>> otherHost;
	if (peers > 1 && chance(WORK, 300)) {
		sim::count("config.two-servers");
		otherServed.emplace(choose(WORK, 4));
		otherProtocol.emplace(*otherServed->top);
		otherHost.emplace(*otherProtocol, false, PORT + 1);
	}
	std::vector<std::vector<std::string>> expectedBy[2] = {std::vector<std::vector<std::string>>(peers), std::vector<std::vector<std::string>>(peers)};
	Impl model;
	size_t answers = 0;
	Fibers fibers;
	for (int c = 0; c < peers; c++) fibers.start("peer" + std::to_string(c), [&, c] {
		std::string who = "peer " + std::to_string(c);
		bool other = otherHost && choose(WORK, 2);
		auto& expected = expectedBy[other];
		Raw raw;
		if (!raw.connectRetry(PORT + other)) violation("not-accepted", who + " can't connect");
		size_t pos = 0;
		int serial = 0;
		struct Posted { std::vector<std::unique_ptr<JReq>> reqs; bool batch; std::string body; };
		std::vector<Posted> posts;
		for (int n = 1 + choose(WORK, 5); n > 0; n--) {
			Posted p;
			p.batch = chance(WORK, 500);
			int count = p.batch ? chance(WORK, 5) ? 200 + choose(WORK, 400) : 1 + choose(WORK, 8) : 1;
			std::vector<std::string> texts;
			for (int k = 0; k < count; k++) {
				p.reqs.push_back(std::make_unique<JReq>(makeJReq(other ? *otherServed : served, model, serial++, peers == 1, maxText, peers == 1 ? "" : "c" + std::to_string(c) + ":")));
				texts.push_back(p.reqs.back()->text);
				if (!p.reqs.back()->logged.empty()) expected[c].push_back(p.reqs.back()->logged);
			}
			p.body = jsonSpace() + (p.batch ? "[" + join(texts, true) + "]" : texts[0]) + jsonSpace();
			posts.push_back(std::move(p));
		}
		bool pipelined = chance(WORK, 500);
		std::string all;
		auto request = [&] (const Posted& p) { return "POST / HTTP/1.1\r\n" + headerLines({"Host: x", "Content-Type: application/json", "Content-Length: " + std::to_string(p.body.size())}, true) + "\r\n" + p.body; };
		int sender = -1;
		if (pipelined) { for (auto& p : posts) all += request(p); sender = sim::spawn(who + " sender", [&] { raw.sendPieces(all); }); }
		for (auto& p : posts) {
			std::string bytes;
			if (!pipelined) { bytes = request(p); sender = sim::spawn(who + " sender", [&] { raw.sendPieces(bytes); }); }
			std::vector<HttpMessage> got;
			std::string why;
			if (!recvResponses(raw, pos, 1, got, why, IDLE)) violation("no-response", who + ": " + cut(p.body) + " isn't answered: " + why);
			if (!pipelined) { sim::join(sender); sender = -1; }
			const HttpMessage& m = got[0];
			std::vector<JReq*> asked;
			size_t withId = 0;
			for (auto& r : p.reqs) { asked.push_back(r.get()); withId += r->hasId; }
			if (m.status != 200 && !(m.status == 204 && withId == 0)) violation("wrong-status", who + fmt(": status %d to ", m.status) + cut(p.body));
			if (m.status == 200 && m.header("content-type") != "application/json") violation("wrong-type", who + ": the response has type " + m.header("content-type"));
			std::vector<bool> used(asked.size(), false);
			if (m.body.find_first_not_of(" \t\r\n") == std::string::npos) {
				if (withId > 0) violation("no-response", who + ": the response to " + cut(p.body) + " is empty");
				continue;
			}
			JVal v;
			if (!parseJson(m.body, v, why)) violation("bad-response", who + ": the response to " + cut(p.body) + " isn't JSON: " + why + ": " + cut(m.body));
			if (p.batch) {
				if (v.kind != JVal::ARR) violation("bad-response", who + ": the response to a batch isn't an array");
				for (auto& one : v.arr) judgeJson(one, asked, who, used);
			} else judgeJson(v, asked, who, used);
			for (size_t i = 0; i < asked.size(); i++) if (asked[i]->hasId && !used[i]) violation("no-response", who + ": " + cut(asked[i]->text) + " isn't answered");
			answers += withId;
		}
		if (sender >= 0) sim::join(sender);
	});
	fibers.joinAll();
	// Executions in the order of each peer's requests
	judgeInterleaving(served.impl.log, expectedBy[0]);
	if (otherServed) {
		judgeInterleaving(otherServed->impl.log, expectedBy[1]);
		if (!otherServed->otherImpl.log.empty()) violation("wrong-object", "a method ran on another object: " + cut(otherServed->otherImpl.log[0]));
	}
	if (!served.otherImpl.log.empty()) violation("wrong-object", "a method ran on another object: " + cut(served.otherImpl.log[0]));
	sim::count("answers", answers);
	if (answers > 1) sim::nontrivial();
}

// ---- R03 ----------------------------------------------------------------------------------------
struct FormApi : Bomba::RpcObject<FormApi> {
	Impl* impl = nullptr;
	Bomba::RpcMember<[] (FormApi* p, std::string text = Bomba::name("text"), int n = Bomba::name("n"), bool loud = Bomba::name("loud") | Bomba::SerialisationFlags::OMIT_FALSE) {
		p->impl->called("say", text, n, loud); return text + (loud ? "!" : ".") + std::to_string(n);
	}> say = child<"say">;
	Bomba::RpcMember<[] (FormApi* p, double x = Bomba::name("x"), int64_t k = Bomba::name("k"), std::string unit = Bomba::name("unit")) {
		p->impl->called("scale", x, k, unit); return x;
	}> scale = child<"scale">;
	Bomba::RpcMember<[] (FormApi* p, std::string first = Bomba::name("first"), std::string second = Bomba::name("second"), std::optional<int> o = Bomba::name("o")) {
		p->impl->called("pick", first, second, o); return o ? *o : -1;
	}> pick = child<"pick">;
	Bomba::RpcMember<[] (FormApi* p, std::string why = Bomba::name("why")) {
		p->impl->called("fail", why); if (why != "") throw std::runtime_error(why); return 1;
	}> fail = child<"fail">;
	Bomba::RpcMember<[] (FormApi* p, std::string text = Bomba::name("text")) {
		p->impl->called("put", text);
	}> put = child<"put">;
};
static std::vector<uint32_t> codePoints(const std::string& s) {
	std::vector<uint32_t> r;
	for (size_t i = 0; i < s.size();) {
		unsigned char c = s[i];
		int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
		uint32_t v = n == 1 ? c : c & (0xff >> (n + 1));
		for (int k = 1; k < n; k++) v = v << 6 | (s[i + k] & 63);
		r.push_back(v);
		i += n;
	}
	return r;
}
// What a browser sends for the text in a page whose encoding is Latin-1, with its liberties
static std::string formEncode(const std::string& s) {
	std::string o;
	for (uint32_t c : codePoints(s)) {
		bool plain = (c < 128 && isalnum(int(c))) || c == '-' || c == '_' || c == '.' || c == '*';
		if (plain && !chance(WORK, 20)) o += char(c);
		else if (c == ' ' && chance(WORK, 700)) o += '+';
		else if (c < 256) o += fmt(chance(WORK, 500) ? "%%%02X" : "%%%02x", c);
		else o += (chance(WORK, 500) ? "%26%23" : "%26%23") + std::to_string(c) + (chance(WORK, 500) ? "%3B" : "%3b");
	}
	return o;
}
static std::string formDecode(std::string_view s, bool& bad) {
	std::string latin;
	std::string o;
	std::vector<uint32_t> points;
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] == '+') points.push_back(' ');
		else if (s[i] == '%') {
			if (i + 2 >= s.size() || !isxdigit((unsigned char)s[i + 1]) || !isxdigit((unsigned char)s[i + 2])) { bad = true; return o; }
			points.push_back(strtoul(std::string(s.substr(i + 1, 2)).c_str(), nullptr, 16));
			i += 2;
		} else if ((unsigned char)s[i] < 0x80 && s[i] != '&' && s[i] != '=') points.push_back((unsigned char)s[i]);
		else { bad = true; return o; }
	}
	for (size_t i = 0; i < points.size(); i++) {
		if (points[i] == '&' && i + 1 < points.size() && points[i + 1] == '#') {
			uint32_t v = 0;
			size_t k = i + 2;
			while (k < points.size() && points[k] >= '0' && points[k] <= '9') v = v * 10 + points[k++] - '0';
			if (k > i + 2 && k < points.size() && points[k] == ';') { JParser::utf8(o, v); i = k; continue; }
		}
		JParser::utf8(o, points[i]);
	}
	return o;
}
SCENARIO(forms) {
	swarmNet();
	if (chance(FAULT, 150)) sim::params().eintrPermille = 30;
	size_t maxText = swarmTextSize(800, 10000);
	Impl impl, otherImpl;
	FormApi api, other;
	api.impl = &impl;
	other.impl = &otherImpl;
	int shape = choose(WORK, 3);
	Bomba::DynamicRpcObject root, group;
	Bomba::IRemoteCallable* top = &api;
	std::string prefix;
	if (shape == 1) { root.add("other", Bomba::RpcLambdaHolder::nonOwning(other)); root.add("api", Bomba::RpcLambdaHolder::nonOwning(api)); top = &root; prefix = "api/"; }
	if (shape == 2) { group.add("api", Bomba::RpcLambdaHolder::nonOwning(api)); root.add("other", Bomba::RpcLambdaHolder::nonOwning(other)); root.add("group", Bomba::RpcLambdaHolder::nonOwning(group)); top = &root; prefix = "group/api/"; }
	struct Files : Bomba::IHttpGetResponder {
		std::map<std::string, std::string> files;
		bool get(std::string_view path, Bomba::IWriteStarter& w) override {
			auto f = files.find(std::string(path));
			if (f == files.end()) return false;
			w.writeKnownSize("text/html", f->second.size(), [&] (Bomba::GeneralisedBuffer& out) { out += std::string_view(f->second); });
			return true;
		}
	} files;
	files.files["/"] = "index";
	files.files["/page.html"] = "a page";
	for (auto m : {"say", "scale", "pick"}) if (chance(WORK, 300)) files.files["/" + prefix + m] = "file at " + std::string(m);
	Bomba::RpcGetResponder<> getter(files, *top);
	Bomba::HtmlPostResponder<> poster(*top);
	using Protocol = Bomba::HttpServer<>;
	Protocol protocol(getter, poster);
	swarmProcessing(impl);
	ServerHost<Protocol> host(protocol, chance(WORK, 200));
	int peers = chance(WORK, 600) ? 1 : 2 + choose(WORK, 2);
	std::vector<std::vector<std::string>> expected(peers);
	size_t answers = 0;
	Fibers fibers;
	for (int c = 0; c < peers; c++) fibers.start("peer" + std::to_string(c), [&, c] {
		std::string who = "peer " + std::to_string(c), all;
		struct One { std::string bytes, text; int form; std::string body; bool fails = false, numeric = false; double number = 0; }; // form: 0 result, 1 file, 2 error, 3 post success
		std::vector<One> ones;
		for (int n = 1 + choose(WORK, 7); n > 0; n--) {
			One o;
			std::string method, logged, result;
			std::vector<std::string> args;
			std::string tag = "c" + std::to_string(c) + ":";
			bool numeric = false, post = chance(WORK, 500);
			switch (choose(WORK, 6)) {
				case 0: case 1: { std::string t = tag + formText(maxText); int k = int(genInt(32, true)); bool loud = choose(WORK, 2); method = "say"; args = {"text=" + formEncode(t), "n=" + std::to_string(k)}; if (loud) args.push_back(pick(WORK, std::vector<std::string>{"loud=true", "loud=on", "loud="})); logged = "say(" + showArgs(t, k, loud) + ")"; result = t + (loud ? "!" : ".") + std::to_string(k); break; }
				case 2: { double x = genDouble(); int64_t k = genInt(64, true); std::string u = tag + formText(100); method = "scale"; args = {"x=" + formEncode(numText(x)), "k=" + std::to_string(k), "unit=" + formEncode(u)}; logged = "scale(" + showArgs(x, k, u) + ")"; numeric = true; o.number = x; break; }
				case 3: { std::optional<int> v; if (choose(WORK, 2)) v = int(genInt(32, true)); std::string a = tag + formText(200), b = formText(200); method = "pick"; args = {"first=" + formEncode(a), "second=" + formEncode(b)}; if (v) args.push_back("o=" + std::to_string(*v)); logged = "pick(" + showArgs(a, b, v) + ")"; numeric = true; o.number = v ? *v : -1; break; }
				case 4: { std::string w = tag + formText(50); method = "fail"; args = {"why=" + formEncode(w)}; logged = "fail(" + showArgs(w) + ")"; o.fails = true; break; }
				default: { if (choose(WORK, 4)) { std::string t = tag + formText(maxText); method = "put"; args = {"text=" + formEncode(t)}; logged = "put(" + showArgs(t) + ")"; } else { method = "nothing"; args = {"a=1"}; } break; }
			}
			shuffle(args);
			while (chance(WORK, 200)) args.insert(args.begin() + choose(WORK, args.size() + 1), pick(WORK, std::vector<std::string>{"button=", "csrf=" + formEncode(formText(30)), "zz=0", "empty=", "te=xt"})); // unknown to the method
			std::string form;
			for (auto& a : args) form += (form.empty() ? "" : "&") + a;
			std::string path = "/" + prefix + method;
			bool query = true;
			switch (choose(WORK, 10)) {
				case 0: path = "/" + pick(WORK, std::vector<std::string>{"nothing", prefix + "Say", prefix + "say/x", "other/none", "sayy"}); logged.clear(); o.fails = false; method = "nothing"; break;
				case 1: if (shape) { path = shape == 1 ? "/api" : chance(WORK, 500) ? "/group" : "/group/api"; logged.clear(); o.fails = false; method = "group"; } break;
				case 2: if (!post) { query = false; logged.clear(); o.fails = false; if (chance(WORK, 500)) path = pick(WORK, std::vector<std::string>{"/", "/page.html"}); } break;
				default: break;
			}
			if (post) {
				o.form = logged.empty() || o.fails ? 2 : 3;
				o.bytes = "POST " + path + " HTTP/1.1\r\n" + headerLines({"Host: x", "Content-Type: application/x-www-form-urlencoded", "Content-Length: " + std::to_string(form.size())}, true) + "\r\n" + form;
			} else {
				bool file = files.files.count(path);
				o.bytes = "GET " + path + (query ? "?" + form : "") + " HTTP/1.1\r\n" + headerLines({"Host: x"}, true) + "\r\n";
				if (file && !o.fails) { o.form = 1; o.body = files.files[path]; }
				else if (file) { o.form = 4; o.body = files.files[path]; } // the file was promised, the method failed
				else if (logged.empty() || o.fails) o.form = 2;
				else { o.form = 0; o.body = result; o.numeric = numeric; }
			}
			o.text = o.bytes.substr(0, o.bytes.find('\r')) + (post ? " " + form : "");
			if (!logged.empty()) expected[c].push_back(logged);
			ones.push_back(o);
			all += o.bytes;
			if (o.form == 4) break; // this one ends the connection
		}
		Raw raw;
		if (!raw.connectRetry(PORT)) violation("not-accepted", who + " can't connect");
		int sender = sim::spawn(who + " sender", [&] { raw.sendPieces(all); });
		size_t pos = 0;
		for (auto& o : ones) {
			if (o.form == 4) { // The response can't tell about the failure any more except by the close
				raw.recvUntil([&] { return false; }, IDLE);
				if (!raw.eof && !raw.failed) violation("not-closed", who + ": a failed method after a file doesn't end the connection");
				continue;
			}
			std::vector<HttpMessage> got;
			std::string why;
			if (!recvResponses(raw, pos, 1, got, why, IDLE)) violation("no-response", who + ": " + cut(o.text) + " isn't answered: " + why);
			const HttpMessage& m = got[0];
			std::string what = who + ": " + cut(o.text, 300);
			note("%s -> %d", what.c_str(), m.status);
			bool ok = m.status >= 200 && m.status < 300;
			if (o.form == 2) { if (m.status < 400) violation("wrong-status", what + fmt(" got status %d though it can't succeed", m.status)); }
			else if (!ok) violation("wrong-status", what + fmt(" got status %d", m.status));
			else if (o.form == 1) { if (m.body != o.body) violation("wrong-body", what + ": not the file; " + firstDifference(m.body, o.body)); }
			else if (o.form == 0) {
				bool bad = false;
				std::string d = formDecode(m.body, bad);
				if (bad) violation("bad-encoding", what + ": the result isn't encoded as a form: " + cut(m.body));
				if (o.numeric ? strtod(d.c_str(), nullptr) != o.number || d.empty() : d != o.body) violation("wrong-result", what + " gave " + cut(d) + ", " + (o.numeric ? "expected " + numText(o.number) : firstDifference(d, o.body)));
			}
			answers++;
		}
		sim::join(sender);
	});
	fibers.joinAll();
	size_t total = 0;
	for (auto& e : expected) total += e.size();
	sim::waitUntil([&] { return impl.log.size() >= total; }, 60 * SEC); // a file is sent before the method runs
	judgeInterleaving(impl.log, expected);
	if (!otherImpl.log.empty()) violation("wrong-object", "a method ran on another object: " + cut(otherImpl.log[0]));
	sim::count("answers", answers);
	if (answers > 1) sim::nontrivial();
}

// ---- S01: nothing but the request itself decides what comes of it, however wrong it is -----------
SCENARIO(isolated) {
	swarmNet();
	auto& p = sim::params();
	if (chance(FAULT, 150)) p.eintrPermille = 30;
	bool tiny = p.sndBuf < 100 || p.rcvBuf < 100 || p.segMode >= 2;
	Tree served(choose(WORK, 4));
	Impl& impl = served.impl;
	FormApi api;
	api.impl = &impl;
	Bomba::JsonRpcServerProtocol<> json(*served.top);
	Bomba::HtmlPostResponder<> forms(api);
	struct Post : Bomba::IHttpPostResponder {
		Bomba::IHttpPostResponder *json, *forms;
		bool post(std::string_view path, std::string_view type, std::span<char> body, Bomba::IWriteStarter& w) override { return (path == "/" ? json : forms)->post(path, type, body, w); }
	} poster;
	poster.json = &json;
	poster.forms = &forms;
	struct Files : Bomba::IHttpGetResponder {
		bool get(std::string_view path, Bomba::IWriteStarter& w) override {
			if (path != "/page") return false;
			w.writeKnownSize("text/html", 6, [&] (Bomba::GeneralisedBuffer& out) { out += std::string_view("a page"); });
			return true;
		}
	} files;
	Bomba::RpcGetResponder<> getter(files, api);
	using Protocol = Bomba::HttpServer<>;
	Protocol protocol(getter, poster);
	ServerHost<Protocol> host(protocol, chance(WORK, 200));
	struct One { std::string bytes, response; std::vector<std::string> log; bool closed = false; };
	std::vector<One> ones;
	Impl unused;
	std::string previous = "{\"jsonrpc\":\"2.0\"}";
	size_t maxText = tiny ? 100 : 1000;
	for (int i = 0, n = 2 + choose(WORK, 5); i < n; i++) {
		One o;
		int kind = choose(WORK, 4);
		std::string text;
		if (kind <= 1) {
			bool batch = chance(WORK, 300);
			std::vector<std::string> texts;
			for (int k = batch ? 1 + choose(WORK, 4) : 1; k > 0; k--) texts.push_back(makeJReq(served, unused, i * 10 + k, false, maxText, "").text);
			text = batch ? "[" + join(texts, true) + "]" : texts[0];
		} else {
			std::vector<std::string> args;
			auto maybe = [&] (std::string one) { if (!chance(WORK, 150)) args.push_back(one); };
			static const std::vector<std::string> methods = {"say", "scale", "pick", "fail", "put", "nothing"};
			std::string m = pick(WORK, methods);
			if (m == "say") { maybe("text=" + formEncode(formText(maxText))); maybe("n=" + std::to_string(genInt(32, true))); maybe("loud=true"); }
			else if (m == "scale") { maybe("x=" + numText(genDouble())); maybe("k=" + std::to_string(genInt(64, true))); maybe("unit=" + formEncode(formText(50))); }
			else if (m == "pick") { maybe("first=" + formEncode(formText(100))); maybe("second=" + formEncode(formText(100))); maybe("o=" + std::to_string(genInt(32, true))); }
			else if (m == "fail") maybe("why=" + formEncode(formText(50)));
			else maybe("text=" + formEncode(formText(maxText)));
			shuffle(args);
			text = "/" + m + "?";
			for (size_t k = 0; k < args.size(); k++) text += (k ? "&" : "") + args[k];
		}
		std::string path = "/", body = text;
		if (kind > 1) { size_t q = text.find('?'); path = text.substr(0, q); body = text.substr(q + 1); }
		std::string original = body;
		switch (choose(FAULT, 4)) {
			case 0: break;
			case 1: sim::fault("net.truncated-body"); body.resize(choose(FAULT, body.size() + 1)); break;
			case 2: sim::fault("net.truncated-body"); body.resize(body.size() - std::min<size_t>(body.size(), choose(FAULT, 12))); break; // more interesting there
			case 3: sim::fault("net.corrupted-body"); body = mutate(body, previous); break;
		}
		previous = original;
		if (tiny && body.size() > 2500) body.resize(2500);
		std::vector<std::string> headers = {"Host: x"};
		if (chance(WORK, 30)) headers.push_back("Connection: close");
		if (kind == 3) { // a GET request
			for (char& c : body) if (uint8_t(c) <= ' ') c = '_';
			if (body.size() > 6000) body.resize(6000);
			if (chance(WORK, 100)) path = "/page";
			o.bytes = "GET " + path + "?" + body + " HTTP/1.1\r\n" + headerLines(headers, true) + "\r\n";
		} else {
			headers.push_back(std::string("Content-Type: ") + (kind == 2 ? "application/x-www-form-urlencoded" : "application/json"));
			headers.push_back("Content-Length: " + std::to_string(body.size()));
			o.bytes = "POST " + path + " HTTP/1.1\r\n" + headerLines(headers, true) + "\r\n" + body;
		}
		ones.push_back(o);
	}
	size_t answers = 0;
	Fibers fibers;
	fibers.start("peer", [&] {
		std::string together, separately;
		std::vector<std::string> logged;
		size_t count = 0;
		for (auto& o : ones) {
			size_t before = impl.log.size();
			Raw raw;
			if (!raw.connectRetry(PORT)) violation("not-accepted", "can't connect");
			raw.send(o.bytes);
			HttpMessage m;
			std::string why;
			size_t at = 0;
			Parsed parsed = Parsed::MORE;
			raw.recvUntil([&] { at = 0; return (parsed = parseResponse(raw.in, at, m, why)) != Parsed::MORE; }, IDLE);
			while (!raw.eof && !raw.failed && raw.readable(2 * SEC)) raw.recvSome();
			o.closed = raw.eof || raw.failed;
			if (parsed == Parsed::BAD) violation("wrong-response", "the response to " + cut(o.bytes, 400) + " is " + cut(raw.in) + ": " + why);
			if (parsed == Parsed::MORE && !o.closed) violation("no-response", cut(o.bytes, 400) + " is not answered");
			if (parsed == Parsed::OK && at < raw.in.size()) violation("extra-bytes", "after the response to " + cut(o.bytes, 400) + " came " + cut(raw.in.substr(at)));
			o.response = raw.in;
			o.log.assign(impl.log.begin() + before, impl.log.end());
			note("%s -> %s%s", cut(o.bytes, 300).c_str(), cut(o.response, 300).c_str(), o.closed ? ", closed" : "");
			separately += o.response;
			logged.insert(logged.end(), o.log.begin(), o.log.end());
			count++;
			if (o.closed) break;
		}
		std::string all;
		for (size_t i = 0; i < count; i++) all += ones[i].bytes;
		size_t before = impl.log.size();
		Raw raw;
		if (!raw.connectRetry(PORT)) violation("not-accepted", "can't connect");
		int sender = sim::spawn("sender", [&] { raw.sendPieces(all); });
		while (!raw.eof && !raw.failed) {
			if (!raw.readable(sim::fiberDone(sender) && raw.in.size() >= separately.size() && !ones[count - 1].closed ? 2 * SEC : IDLE)) break;
			raw.recvSome();
		}
		while (!sim::fiberDone(sender) && (raw.eof || raw.failed)) sim::sleepFor(10 * MS);
		sim::join(sender);
		if (raw.in != separately) violation("depends-on-stream", "the stream differs from the responses to the requests sent alone; " + firstDifference(raw.in, separately));
		if ((raw.eof || raw.failed) != ones[count - 1].closed) violation("depends-on-stream", std::string("the connection was ") + (ones[count - 1].closed ? "not " : "") + "closed unlike with the requests sent alone");
		std::vector<std::string> now(impl.log.begin() + before, impl.log.end());
		for (size_t i = 0; i < std::max(now.size(), logged.size()); i++) {
			std::string a = i < now.size() ? now[i] : "none", b = i < logged.size() ? logged[i] : "none";
			if (a != b) violation("depends-on-stream", "in a stream, call " + std::to_string(i) + " is " + cut(a, 200) + ", with the requests sent alone, it is " + cut(b, 200));
		}
		answers = count;
	});
	fibers.joinAll();
	sim::count("compared-with-alone", answers);
	if (answers > 1) sim::nontrivial();
}
