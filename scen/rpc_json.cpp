#include <cxxabi.h>
#include "rpc.hpp"
#include "bomba_json_rpc.hpp"
struct Json {
	using Server = Bomba::JsonRpcServer<>;
	using Client = Bomba::JsonRpcClient<>;
	static constexpr size_t usualText = 6000, bigText = 150000, mostText = SIZE_MAX;
	static constexpr bool anyByte = false, deep = true;
	static size_t framer(std::string_view s) { size_t pos = 0; HttpMessage m; std::string why; return parseResponse(s, pos, m, why) == Parsed::OK ? pos : 0; }
	static Client client(Bomba::IRemoteCallable& top, Bomba::ITcpClient& net) { return Client(top, net, "example.com"); }
};
SCENARIO(json_call) { callScenario<Json>(); }
SCENARIO(json_pipeline) { pipelineScenario<Json>(); }
SCENARIO(json_ready) { readyScenario<Json>(); }
SCENARIO(json_fail) { failScenario<Json>(); }
SCENARIO(json_garbage) { garbageScenario<Json>(); }

// ---- C03: failures the server reports -------------------------------------------------------------
static std::string httpResponse(int status, const std::string& type, const std::string& body) {
	static const std::map<int, std::string> reasons = {{200, "OK"}, {204, "No Content"}, {301, "Moved Permanently"}, {400, "Bad Request"}, {403, "Forbidden"}, {404, "Not Found"}, {418, "I'm a teapot"}, {500, "Internal Server Error"}, {501, "Not Implemented"}, {503, "Service Unavailable"}};
	std::vector<std::string> headers;
	std::string length = pick(WORK, std::vector<std::string>{"Content-Length", "content-length", "CONTENT-LENGTH"}) + ":" + (chance(WORK, 800) ? " " : chance(WORK, 500) ? "" : "  ");
	if (status != 204 || chance(WORK, 300)) headers.push_back(length + std::to_string(body.size()));
	if (!type.empty()) headers.push_back("Content-Type: " + type);
	for (int n = choose(WORK, 3); n > 0; n--) headers.push_back(pick(WORK, std::vector<std::string>{"Server: test", "Date: Mon, 01 Jan 2024 00:00:00 GMT", "X-Length: 17", "Cache-Control: no-cache", "X-Long: " + std::string(300, 'x')}));
	shuffle(headers);
	std::string r = "HTTP/1.1 " + std::to_string(status) + " " + reasons.at(status) + "\r\n";
	for (auto& h : headers) r += h + "\r\n";
	return r + "\r\n" + body;
}
SCENARIO(json_errors) {
	NetOptions o;
	o.smallBuffers = false;
	swarmNet(o);
	int shape = choose(WORK, 4);
	Tree served(shape);
	Json::Server protocol(*served.top);
	ServerHost<Json::Server> host(protocol, false);
	auto proxy = std::make_shared<Proxy>(PORT + 1, PORT, Json::framer);
	uint32_t failing = pick(WORK, std::vector<uint32_t>{200, 500, 900});
	auto failed = std::make_shared<std::map<size_t, std::string>>();
	proxy->transform = [failing, failed] (size_t index, std::string m) -> std::string {
		if (!chance(FAULT, failing)) return m;
		size_t pos = 0;
		HttpMessage was;
		std::string why;
		JVal j;
		parseResponse(m, pos, was, why);
		parseJson(was.body, j, why);
		std::string id = j.get("id") ? j.get("id")->text : "0";
		auto error = [&] {
			std::vector<std::string> e = {"\"code\":" + jsonSpace() + std::to_string(-32768 + int(choose(WORK, 40000))), "\"message\":" + jsonSpace() + jsonString(genText(200))};
			if (chance(WORK, 300)) e.push_back("\"data\":" + pick(WORK, std::vector<std::string>{"null", "{\"x\":[1,2,{\"y\":null}],\"message\":\"no\"}", "[\"a\",{\"b\":\"}\"}]", "\"text\"", "12.5", "false"}));
			if (chance(WORK, 100)) e.erase(e.begin() + choose(WORK, e.size())); // sloppy servers
			shuffle(e);
			std::string all;
			for (auto& x : e) all += (all.empty() ? "" : ",") + jsonSpace() + x + jsonSpace();
			std::vector<std::string> top = {"\"jsonrpc\":" + jsonSpace() + "\"2.0\"", "\"id\":" + jsonSpace() + (chance(WORK, 100) ? "null" : id), "\"error\":" + jsonSpace() + "{" + all + "}"};
			shuffle(top);
			std::string r;
			for (auto& x : top) r += (r.empty() ? "" : ",") + jsonSpace() + x + jsonSpace();
			return jsonSpace() + "{" + r + "}" + jsonSpace();
		};
		std::string form, r;
		switch (choose(FAULT, 4)) {
			case 0: case 1: form = "error object"; r = httpResponse(200, "application/json", error()); break;
			case 2: {
				int status = pick(FAULT, std::vector<int>{400, 403, 404, 418, 500, 501, 503});
				form = "status " + std::to_string(status);
				switch (choose(FAULT, 4)) {
					case 0: r = httpResponse(status, "", ""); break;
					case 1: r = httpResponse(status, "text/html", "<html><body>" + genText(3000) + "</body></html>"); break;
					case 2: r = httpResponse(status, "application/json", error()); break;
					case 3: r = httpResponse(status, "application/json", was.body); break;
				}
				break;
			}
			case 3: form = "status 500 and error object"; r = httpResponse(500, "application/json", error()); break;
		}
		(*failed)[index] = form;
		sim::fault("server.reported-failure");
		return r;
	};
	Proxy::start(proxy);
	Impl model;
	size_t failures = 0, successes = 0;
	std::string doing = "connecting";
	try {
		Tree remote(shape);
		Bomba::SyncNetworkClient net("127.0.0.1", std::to_string(PORT + 1));
		Json::Client client = Json::client(*remote.top, net);
		struct Flight { size_t number; std::string text, expected; std::unique_ptr<Pending> pending; };
		std::vector<Flight> open;
		size_t maxText = pick(WORK, std::vector<size_t>{100, 2500});
		bool pipelined = chance(WORK, 600);
		auto judge = [&] (size_t number, const std::string& text, const std::string& expected, std::function<std::string()> f) {
			std::string got;
			try { got = f(); }
			catch (std::exception& e) {
				note("%zu threw %s", number, e.what());
				if (!failed->count(number) && !expected.empty()) violation("call-threw", "call " + std::to_string(number) + " " + cut(text) + " succeeded on the server but threw " + exceptionText(e));
				failures++;
				return;
			}
			note("%zu gave %s", number, cut(got).c_str());
			if (failed->count(number)) violation("failure-lost", "call " + std::to_string(number) + " " + cut(text) + " was answered with " + (*failed)[number] + " but returned " + cut(got));
			if (expected.empty()) violation("failure-lost", "call " + std::to_string(number) + " " + cut(text) + " threw on the server but returned " + cut(got));
			if (got != expected) violation("wrong-result", "call " + std::to_string(number) + " " + cut(text) + " gave " + cut(got) + ", expected " + cut(expected) + "; " + firstDifference(got, expected));
			successes++;
		};
		size_t number = 0;
		for (int n = 2 + choose(WORK, 9); n > 0; n--) {
			Call c;
			std::string expected;
			if (chance(WORK, 200)) {
				std::string message = "x" + genText(200); // The method itself throws
				c = makeCall<int>("fail", &Api::fail, message);
			} else {
				c = genCall(0, maxText, false, false);
				expected = c.model(model);
			}
			doing = "starting " + cut(c.text);
			note("call %zu %s", number, cut(c.text).c_str());
			if (pipelined && chance(WORK, 700)) {
				Flight f{number++, c.text, expected};
				f.pending = c.start(remote.api);
				open.push_back(std::move(f));
			} else { judge(number, c.text, expected, [&] { return c.run(remote.api); }); number++; }
			auto collect = [&] {
				size_t i = choose(WORK, open.size());
				Flight f = std::move(open[i]);
				open.erase(open.begin() + i);
				if (chance(WORK, 300)) f.pending->ready();
				judge(f.number, f.text, f.expected, [&] { return f.pending->get(); });
				if (chance(WORK, 200)) judge(f.number, f.text, f.expected, [&] { return f.pending->get(); }); // The outcome stays the same
			};
			if (!open.empty() && chance(WORK, 100)) open.erase(open.begin() + choose(WORK, open.size()));
			while (!open.empty() && (n == 1 || chance(WORK, 300))) collect();
		}
	} catch (std::exception& e) { violation("call-threw", doing + " threw " + exceptionText(e)); }
	sim::count("failures", failures);
	sim::count("successes", successes);
	if (failures && successes) sim::nontrivial();
}

// ---- M01: plain HTTP requests in flight together ---------------------------------------------------
SCENARIO(http_pipeline) {
	NetOptions o;
	o.smallBuffers = false;
	swarmNet(o);
	Listener listener(PORT);
	struct Answer { bool success; std::string body; };
	std::vector<Answer> answers;
	std::vector<HttpMessage> received;
	struct Asked { std::string line, type, body; };
	std::vector<Asked> asked;
	size_t maxBody = pick(WORK, std::vector<size_t>{20, 3000, 40000});
	std::vector<std::string> sentParts;
	Fibers fibers;
	fibers.start("server", [&] {
		Raw peer;
		if (!listener.accept(peer)) return;
		size_t pos = 0;
		while (true) {
			HttpMessage m;
			std::string why;
			bool bad = false;
			if (!peer.recvUntil([&] { Parsed p = parseRequest(peer.in, pos, m, why); bad = p == Parsed::BAD; return p != Parsed::MORE; }, 100000 * SEC)) return;
			if (bad) violation("bad-request", "the client sent a malformed request: " + why);
			received.push_back(m);
			std::string body;
			if (chance(WORK, 300)) body = "HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nfalse";
			body += std::to_string(received.size()) + ":" + genText(maxBody, true);
			int status = pick(WORK, std::vector<int>{200, 200, 200, 204, 404, 500, 301});
			if (status == 204 || chance(WORK, 150)) body.clear();
			std::string r = httpResponse(status, chance(WORK, 800) ? "text/plain" : "", body);
			answers.push_back({status >= 200 && status < 300, body});
			if (chance(WORK, 300)) sim::sleepFor(range(WORK, 0, 30) * MS);
			if (chance(WORK, 500)) peer.sendPieces(r, 20); else peer.send(r);
		}
	});
	std::string doing = "connecting";
	try {
		Bomba::SyncNetworkClient net("127.0.0.1", std::to_string(PORT));
		Bomba::HttpClient<> client(net, "example.com");
		size_t total = 2 + choose(WORK, 11);
		std::vector<std::pair<size_t, Bomba::RequestToken>> open;
		auto collect = [&] (size_t i) {
			auto [number, token] = open[i];
			open.erase(open.begin() + i);
			doing = "collecting response " + std::to_string(number);
			int times = 0;
			std::string body;
			bool success = false;
			client.getResponse(token, [&] (std::span<char> message, bool ok) { times++; body.assign(message.begin(), message.end()); success = ok; return true; });
			if (times != 1) violation("lost-response", fmt("the reader of response %zu was called %d times", number, times));
			if (answers.size() <= number) violation("invented-response", fmt("response %zu was collected before it was sent", number));
			const Answer& a = answers[number];
			if (body != a.body) violation("wrong-response", fmt("response %zu: ", number) + firstDifference(body, a.body));
			if (success != a.success) violation("wrong-status", fmt("response %zu was reported as %s", number, success ? "success" : "failure"));
			sim::count("collected");
		};
		while (asked.size() < total || !open.empty()) {
			int what = choose(WORK, 8);
			if (asked.size() < total && (what < 4 || open.empty())) {
				doing = "sending request " + std::to_string(asked.size());
				Asked a;
				Bomba::RequestToken token;
				if (chance(WORK, 500)) {
					std::string path = "/" + std::to_string(asked.size()) + pick(WORK, std::vector<std::string>{"", "?a=b", "/x.html", "%20"});
					a.line = "GET " + path + " HTTP/1.1";
					token = client.get(path);
				} else {
					a.line = "POST / HTTP/1.1";
					a.type = pick(WORK, std::vector<std::string>{"text/plain", "application/json"});
					a.body = std::to_string(asked.size()) + ":" + genText(maxBody, true);
					token = client.post(a.type, [&] (auto& out, Bomba::RequestToken) { for (size_t at = 0; at < a.body.size();) { size_t n = 1 + choose(WORK, a.body.size() - at); out += std::string_view(a.body).substr(at, n); at += n; } });
				}
				open.emplace_back(asked.size(), token);
				asked.push_back(a);
			} else if (what < 6 && !open.empty()) collect(choose(WORK, open.size()));
			else if (what == 6 && !open.empty()) {
				size_t i = choose(WORK, open.size());
				doing = "polling";
				bool ready = static_cast<Bomba::IRpcResponder&>(client).hasResponse(open[i].second);
				if (ready && answers.size() <= open[i].first) violation("ready-too-early", "a response that wasn't sent was reported ready");
				if (ready) { uint64_t before = sim::waitCount(); collect(i); if (sim::waitCount() != before) violation("ready-but-waits", "a response was reported ready but collecting it had to wait"); }
			} else sim::sleepFor(range(WORK, 0, 30) * MS);
		}
	} catch (std::exception& e) { violation("call-threw", doing + " threw " + exceptionText(e)); }
	if (received.size() != asked.size()) violation("wrong-execution", fmt("%zu requests were made, %zu received", asked.size(), received.size()));
	for (size_t i = 0; i < asked.size(); i++) {
		const auto& r = received[i];
		if (r.startLine != asked[i].line || r.body != asked[i].body || r.header("host") != "example.com" || r.header("content-type") != asked[i].type)
			violation("wrong-request", fmt("request %zu arrived as ", i) + cut(r.startLine) + " type " + r.header("content-type") + "; " + firstDifference(r.body, asked[i].body));
	}
	sim::nontrivial();
}
