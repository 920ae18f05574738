// A server of one of four kinds, and exchanges with it whose responses are known.
#pragma once
#include "httpreq.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_binary_protocol.hpp"

struct Exchange {
	std::string request, text;                                              // the bytes; what to call it
	std::function<Parsed(std::string_view, size_t&, std::string&)> judge;   // BAD if the response is wrong
	std::string logged;                                                     // what it runs
	bool ends = false;                                                      // demands closing
	size_t expect = 0;                                                      // roughly the length of the response
};

// ---- the binary protocol's messages, restated --------------------------------------------------
template <typename T> std::string le(T v) { std::string s(sizeof v, 0); memcpy(s.data(), &v, sizeof v); return s; }
inline std::string binText(const std::string& s) { return le(uint16_t(s.size())) + s; }
struct BinaryPaths {
	std::string prefix;
	Api& api;
	BinaryPaths(Tree& tree) : api(tree.api) {
		auto index = [] (Bomba::IRemoteCallable& parent, Bomba::IRemoteCallable& child) { return char(parent.childName(&child).second); };
		if (tree.shape == 1) prefix += index(tree.root, tree.api);
		if (tree.shape == 3) { auto* deep = const_cast<Bomba::IRemoteCallable*>(static_cast<Bomba::IRemoteCallable&>(tree.root).getChild("deep")); prefix += index(tree.root, *deep); prefix += index(*deep, tree.api); }
		if (tree.shape == 2) { prefix += index(tree.root, tree.group); prefix += index(tree.group, tree.api); }
	}
	template <typename M> std::string of(M& m) { return prefix + char(static_cast<Bomba::IRemoteCallable&>(api).childName(&m).second); }
};
inline Exchange binExchange(Tree& tree, Impl& model, bool stateful, size_t maxText, const std::string& tag, uint32_t id) {
	BinaryPaths paths(tree);
	Api& api = tree.api;
	std::string args, path, result;
	Exchange e;
	auto text = [&] { return tag + genText(maxText, true); };
	switch (choose(WORK, stateful ? 10 : 7)) {
		case 0: { int a = int(genInt(32, true)), b = int(genInt(32, true)); path = paths.of(api.add); args = le(a) + le(b); result = le(int(unsigned(a) + unsigned(b))); e.logged = "add(" + showArgs(a, b) + ")"; break; }
		case 1: case 2: { std::string s = text(); bool t = choose(WORK, 2) && s.size() < 32700; path = paths.of(api.echo); args = binText(s) + char(t); result = binText(t ? s + s : s); e.logged = "echo(" + showArgs(s, t) + ")"; break; }
		case 3: { std::optional<int> o; if (choose(WORK, 2)) o = int(genInt(32, true)); path = paths.of(api.maybe); args = o ? char(1) + le(*o) : std::string(1, 0); result = o && *o % 3 == 0 ? std::string(1, 0) : char(1) + le(o ? *o / 2 : 7); e.logged = "maybe(" + showArgs(o) + ")"; break; }
		case 4: { double d = genDouble(); float f = float(choose(WORK, 2001)) / 8 - 125; path = paths.of(api.real); args = le(d) + le(f); result = le(f > 0 ? d : -d); e.logged = "real(" + showArgs(d, f) + ")"; break; }
		case 5: { bool b = choose(WORK, 2); path = paths.of(api.flip); args = std::string(1, b); result = std::string(1, !b); e.logged = "flip(" + showArgs(b) + ")"; break; }
		case 6: { int8_t a = genInt(8, true); uint16_t b = genInt(16, false); int16_t c = genInt(16, true); uint32_t d = genInt(32, false); int64_t x = genInt(64, true);
			path = paths.of(api.mix); args = le(a) + le(b) + le(c) + le(d) + le(x);
			result = le(int64_t(uint64_t(x) ^ (uint64_t(d) << 8) ^ (uint64_t(uint16_t(c)) << 3) ^ b ^ uint64_t(int64_t(a)))); e.logged = "mix(" + showArgs(a, b, c, d, x) + ")"; break; }
		case 7: { int by = choose(WORK, 1000); path = paths.of(api.bump); args = le(by); result = le(int64_t(model.counter += by)); e.logged = "bump(" + showArgs(by) + ")"; break; }
		case 8: { std::string v = text(); path = paths.of(api.store); args = binText(v); model.stored = v; e.logged = "store(" + showArgs(v) + ")"; break; }
		default: { path = paths.of(api.load); result = binText(model.stored); e.logged = "load()"; break; }
	}
	e.request = le(id) + le(uint16_t(6 + path.size() + args.size())) + path + args;
	std::string want = le(id) + le(uint16_t(6 + result.size())) + result;
	e.text = e.logged;
	e.expect = want.size();
	e.judge = [want] (std::string_view s, size_t& pos, std::string& why) {
		std::string_view got = s.substr(pos, want.size());
		if (got != std::string_view(want).substr(0, got.size())) { why = firstDifference(got, want); return Parsed::BAD; }
		if (got.size() < want.size()) return Parsed::MORE;
		pos += want.size();
		return Parsed::OK;
	};
	return e;
}

struct HostBase {
	bool polled = false;
	virtual ~HostBase() {}
	virtual std::chrono::nanoseconds average() = 0;
	virtual void round() = 0;
};
// Background: runs by itself.  Polled: by rounds, called by a fiber or by the scenario.
template <typename Protocol> struct HostOf : HostBase {
	std::unique_ptr<Bomba::BackgroundTcpServer<Protocol>> background;
	std::unique_ptr<Bomba::TcpServer<Protocol>> server;
	HostOf(Protocol& protocol, bool poll, int port) {
		polled = poll;
		if (poll) server = std::make_unique<Bomba::TcpServer<Protocol>>(protocol, port);
		else background = std::make_unique<Bomba::BackgroundTcpServer<Protocol>>(protocol, port);
	}
	std::chrono::nanoseconds average() override { return background ? background->averageResponseTime() : server->averageResponseTime(); }
	void round() override { server->runARound(); }
};
struct Poller { // calls rounds until destroyed; gets slower when it takes long
	bool stop = false;
	int fiber = -1;
	explicit Poller(HostBase& host) {
		if (!host.polled) return;
		fiber = sim::spawn("poller", [this, &host] {
			double slowdown = 1;
			for (int round = 0; !stop; round++) {
				host.round();
				if (round > 2000 && slowdown < 1e4) slowdown *= 1.005;
				sim::sleepFor(std::min<int64_t>(100 * MS, slowdown * pick(SCHED, std::vector<int64_t>{1 * MS + sim::params().maxDelay / 2, 100 * US, 10 * US})));
			}
		});
	}
	~Poller() { if (fiber >= 0) { stop = true; sim::join(fiber); } }
};

struct World {
	enum Kind { HTTP, JSON, BINARY, FORMS } kind;
	Producer producer;
	Tree tree;
	struct NoFiles : Bomba::IHttpGetResponder { bool get(std::string_view, Bomba::IWriteStarter&) override { return false; } } noFiles;
	Bomba::HttpServer<> http{producer, producer};
	Bomba::JsonRpcServer<> json{*tree.top};
	Bomba::BinaryProtocolServer<> binary{*tree.top};
	Bomba::RpcGetResponder<> getter{noFiles, *tree.top};
	Bomba::HtmlPostResponder<> poster{*tree.top};
	Bomba::HttpServer<> forms{getter, poster};
	Impl model;
	uint32_t serial = 0;
	explicit World(int k = -1) : kind(Kind(k >= 0 ? k : choose(WORK, 4))), tree(choose(WORK, 4)) {}
	std::unique_ptr<HostBase> host(bool poll, int port = PORT) {
		switch (kind) {
			case HTTP: return std::make_unique<HostOf<Bomba::HttpServer<>>>(http, poll, port);
			case JSON: return std::make_unique<HostOf<Bomba::JsonRpcServer<>>>(json, poll, port);
			case BINARY: return std::make_unique<HostOf<Bomba::BinaryProtocolServer<>>>(binary, poll, port);
			default: return std::make_unique<HostOf<Bomba::HttpServer<>>>(forms, poll, port);
		}
	}
	void onHandle(std::function<void()> f) { producer.onHandle = f; tree.impl.onCall = f; }
	size_t handled() const { return kind == HTTP ? producer.handled.size() : tree.impl.log.size(); }
	const std::vector<std::string>& log() const { return kind == HTTP ? producer.handled : tree.impl.log; }
	void forget() { producer.handled.clear(); producer.handled.shrink_to_fit(); tree.impl.log.clear(); tree.impl.log.shrink_to_fit(); }
	// An exchange whose response does not depend on other connections
	Exchange exchange(size_t maxSize, const std::string& tag = "", bool mayEnd = false) {
		Exchange e;
		uint32_t id = serial++;
		switch (kind) {
			case HTTP: {
				Req r = makeReq(maxSize, false, mayEnd && chance(WORK, 200), int(id));
				e.request = r.bytes;
				e.text = cut(r.handled.empty() ? r.bytes : r.handled, 100);
				e.logged = r.handled;
				e.ends = r.close;
				e.expect = 60 + r.body.size();
				e.judge = [r] (std::string_view s, size_t& pos, std::string& why) {
					HttpMessage m;
					Parsed p = parseResponse(s, pos, m, why);
					if (p != Parsed::OK) return p;
					if (m.status != r.status) why = fmt("status %d instead of %d", m.status, r.status);
					else if (r.hasBody && m.body != r.body) why = "body differs " + firstDifference(m.body, r.body);
					else return Parsed::OK;
					return Parsed::BAD;
				};
				break;
			}
			case JSON: {
				std::string text = tag + genText(maxSize / 2), name = tree.prefix(".") + "echo";
				bool twice = choose(WORK, 2), close = mayEnd && chance(WORK, 200);
				std::string body = "{\"jsonrpc\":\"2.0\",\"method\":\"" + name + "\",\"params\":{\"text\":" + jsonString(text) + ",\"twice\":" + (twice ? "true" : "false") + "},\"id\":" + std::to_string(id) + "}";
				std::vector<std::string> headers = {"Host: x", "Content-Type: application/json", "Content-Length: " + std::to_string(body.size())};
				if (close) headers.push_back("Connection: close");
				e.request = "POST / HTTP/1.1\r\n" + headerLines(headers, chance(WORK, 300)) + "\r\n" + body;
				e.logged = e.text = "echo(" + showArgs(text, twice) + ")";
				e.ends = close;
				std::string want = twice ? text + text : text;
				e.expect = 120 + want.size();
				e.judge = [want, id] (std::string_view s, size_t& pos, std::string& why) {
					HttpMessage m;
					Parsed p = parseResponse(s, pos, m, why);
					if (p != Parsed::OK) return p;
					JVal v;
					if (m.status != 200) why = fmt("status %d", m.status);
					else if (!parseJson(m.body, v, why)) why = "not JSON: " + why;
					else if (!v.get("id") || v.get("id")->text != std::to_string(id)) why = "another id: " + cut(m.body);
					else if (!v.get("result") || v.get("result")->text != want) why = "another result: " + cut(m.body);
					else return Parsed::OK;
					return Parsed::BAD;
				};
				break;
			}
			case BINARY: e = binExchange(tree, model, false, std::min<size_t>(maxSize / 2, 20000), tag, id); break;
			default: {
				int a = int(genInt(32, true)), b = int(genInt(32, true));
				bool close = mayEnd && chance(WORK, 200), post = choose(WORK, 2);
				std::string form = "a=" + std::to_string(a) + "&b=" + std::to_string(b), path = "/" + tree.prefix("/") + "add";
				std::vector<std::string> headers = {"Host: x"};
				if (post) { headers.push_back("Content-Type: application/x-www-form-urlencoded"); headers.push_back("Content-Length: " + std::to_string(form.size())); }
				if (close) headers.push_back("Connection: close");
				e.request = (post ? "POST " + path : "GET " + path + "?" + form) + " HTTP/1.1\r\n" + headerLines(headers, chance(WORK, 300)) + "\r\n" + (post ? form : "");
				e.logged = e.text = "add(" + showArgs(a, b) + ")";
				e.ends = close;
				e.expect = 100;
				std::string want = std::to_string(int(unsigned(a) + unsigned(b)));
				e.judge = [want, post] (std::string_view s, size_t& pos, std::string& why) {
					HttpMessage m;
					Parsed p = parseResponse(s, pos, m, why);
					if (p != Parsed::OK) return p;
					if (m.status < 200 || m.status > 299) why = fmt("status %d", m.status);
					else if (!post && m.body != want) why = cut(m.body) + " instead of " + want;
					else return Parsed::OK;
					return Parsed::BAD;
				};
			}
		}
		return e;
	}
	// A request with a large response
	Exchange large(size_t size) {
		Exchange e;
		if (kind == HTTP) e.request = "GET /" + std::string(choose(WORK, 2) ? "known" : "unknown") + "/5/" + std::to_string(size) + "/text/plain HTTP/1.1\r\n\r\n";
		else if (kind == JSON) { std::string text(size / 2, 'x'), body = "{\"jsonrpc\":\"2.0\",\"method\":\"" + tree.prefix(".") + "echo\",\"params\":{\"text\":\"" + text + "\",\"twice\":true},\"id\":7}"; e.request = "POST / HTTP/1.1\r\nContent-Type: application/json\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body; }
		else if (kind == BINARY) { std::string text(std::min<size_t>(size / 2, 30000), 'x'); BinaryPaths paths(tree); std::string p = paths.of(tree.api.echo) + binText(text) + char(1); e.request = le(uint32_t(9)) + le(uint16_t(6 + p.size())) + p; }
		else return exchange(100);
		return e;
	}
};
