#include "rpc.hpp"
#include "httpreq.hpp"
#include "bomba_json.hpp"
#include "bomba_binary_protocol.hpp"

// ---- R04: an object updated again and again over connections, and mirrors of it ----------------------------
// A change: the JSON that describes it and what it does to the object, by the rules restated here.
template <typename T> struct Change {
	std::string json;
	std::function<void(T&)> apply;
};
static std::string braces(std::vector<std::string> members) {
	if (chance(WORK, 150)) members.push_back(pair(pick(WORK, std::vector<std::string>{"zz", "Triple", "levels", "unknown"}), pick(WORK, std::vector<std::string>{"null", "5", "[1,[\"]\"],{\"a\":{}}]", "{ \"x\" : [ { } , \"}\" ] }", "\"}\\\"\""})));
	return "{" + join(members) + jsonSpace() + "}";
}
static std::string brackets(std::vector<std::string> elements) { return "[" + join(elements, true) + jsonSpace() + "]"; }
static bool wanted() { return chance(WORK, 450); }
static std::string key() { return pick(WORK, std::vector<std::string>{"a", "b", "key", "longer key that does not fit inline", "\"\\\n", ""}); }
static Change<int> intChange() { int v = int(genInt(32, true)); return {std::to_string(v), [=] (int& t) { t = v; }}; }
static Change<double> doubleChange() { double v = genDouble(); return {numText(v), [=] (double& t) { t = v; }}; }
static Change<std::string> textChange() { std::string v = genText(chance(WORK, 100) ? 2000 : 60); return {jsonString(v), [=] (std::string& t) { t = v; }}; }
static Change<Small> smallChange() {
	std::vector<std::string> members;
	std::optional<int8_t> level;
	std::optional<std::string> title;
	if (wanted()) { level = int8_t(genInt(8, true)); members.push_back(pair("level", std::to_string(*level))); }
	if (wanted()) { auto c = textChange(); std::string v; c.apply(v); title = v; members.push_back(pair("title", c.json)); }
	return {braces(members), [=] (Small& t) { if (level) t.level = *level; if (title) t.title = *title; }};
}
// Elements are updated in place, those that aren't there are added or removed
template <typename T, typename F> Change<std::vector<T>> vectorChange(F element, int most = 4) {
	std::vector<Change<T>> all;
	std::vector<std::string> texts;
	for (int n = choose(WORK, most + 1); n > 0; n--) { all.push_back(element()); texts.push_back(all.back().json); }
	return {brackets(texts), [=] (std::vector<T>& t) { t.resize(all.size()); for (size_t i = 0; i < all.size(); i++) all[i].apply(t[i]); }};
}
template <typename T, typename F> Change<std::map<std::string, T>> mapChange(F element) {
	std::map<std::string, Change<T>> all;
	std::vector<std::string> texts;
	for (int n = choose(WORK, 4); n > 0; n--) { std::string k = key(); if (all.count(k)) continue; all[k] = element(); texts.push_back(pair(k, all[k].json)); }
	return {"{" + join(texts) + jsonSpace() + "}", [=] (std::map<std::string, T>& t) { std::map<std::string, T> after; for (auto& [k, c] : all) { T v = t.count(k) ? t[k] : T(); c.apply(v); after[k] = v; } t = after; }};
}
template <typename O, typename F> Change<O> optionalChange(F value) {
	if (chance(WORK, 350)) return {"null", [] (O& t) { t.reset(); }};
	auto c = value();
	using T = std::decay_t<decltype(*std::declval<O>())>;
	return {c.json, [=] (O& t) { T v = t ? *t : T(); c.apply(v); if constexpr (std::is_same_v<O, std::shared_ptr<T>>) t = std::make_shared<T>(v); else t = v; }};
}
static Change<Rich> richChange() {
	std::vector<std::string> members;
	std::vector<std::function<void(Rich&)>> steps;
	auto add = [&] (const char* name, auto change, auto member) { if (!wanted()) return; auto c = change(); members.push_back(pair(name, c.json)); steps.push_back([=] (Rich& t) { c.apply(t.*member); }); };
	add("triple", [] () -> Change<std::array<int, 3>> { std::vector<int> v; std::vector<std::string> e; for (int n = choose(WORK, 3) ? 3 : choose(WORK, 6); n > 0; n--) { v.push_back(int(genInt(32, true))); e.push_back(std::to_string(v.back())); } return {brackets(e), [=] (std::array<int, 3>& t) { for (size_t i = 0; i < 3 && i < v.size(); i++) t[i] = v[i]; }}; }, &Rich::triple);
	add("list", [] { return vectorChange<Small>(smallChange); }, &Rich::list);
	add("table", [] { return mapChange<int>(intChange); }, &Rich::table);
	add("shared", [] { return optionalChange<std::shared_ptr<double>>(doubleChange); }, &Rich::shared);
	add("small", [] { return optionalChange<Bomba::Optional<Small>>(smallChange); }, &Rich::small);
	add("text", [] { return optionalChange<Bomba::Optional<std::string>>(textChange); }, &Rich::text);
	add("grid", [] { return vectorChange<std::vector<int>>([] { return vectorChange<int>(intChange, 3); }, 3); }, &Rich::grid);
	add("word", [] () -> Change<uint16_t> { uint16_t v = uint16_t(genInt(16, false)); return {std::to_string(v), [=] (uint16_t& t) { t = v; }}; }, &Rich::word);
	add("named", [] { return mapChange<Small>(smallChange); }, &Rich::named);
	add("inner", [] { return smallChange(); }, &Rich::inner);
	add("reals", [] { return vectorChange<double>(doubleChange); }, &Rich::reals);
	add("big", [] () -> Change<int64_t> { int64_t v = genInt(64, true); return {std::to_string(v), [=] (int64_t& t) { t = v; }}; }, &Rich::big);
	return {braces(members), [=] (Rich& t) { for (auto& s : steps) s(t); }};
}
struct Keeper : Bomba::IHttpGetResponder, Bomba::IHttpPostResponder {
	Rich kept;
	Typed other;
	std::vector<std::string> log; // what was handled, in order
	std::function<void()> onHandle;
	using Binary = Bomba::BinaryFormat<>;
	using Json = Bomba::BasicJson<>;
	using DirectJson = Bomba::BasicJson<std::string, Bomba::GeneralisedBuffer>;
	bool get(std::string_view path, Bomba::IWriteStarter& w) override {
		log.push_back("GET " + std::string(path));
		if (onHandle) onHandle();
		std::string r;
		if (path.find("/json") == 0 && path.back() % 2) { w.writeUnknownSize("application/json", [&] (Bomba::GeneralisedBuffer& out) { kept.serialise<DirectJson>(out); }); return true; }
		if (path.find("/json") == 0) r = kept.serialise<Json>();
		else if (path.find("/bin") == 0) r = kept.serialise<Binary>();
		else if (path.find("/tjson") == 0) r = other.serialise<Json>();
		else r = other.serialise<Binary>();
		w.writeKnownSize("application/octet-stream", r.size(), [&] (Bomba::GeneralisedBuffer& out) { out += std::string_view(r); });
		return true;
	}
	bool post(std::string_view path, std::string_view, std::span<char> body, Bomba::IWriteStarter& w) override {
		std::string entry = "POST " + std::string(path), r;
		if (onHandle) onHandle();
		std::string_view data(body.data(), body.size());
		try {
			if (path.find("/json") == 0) kept.deserialise<Json>(data);
			else if (path.find("/bin") == 0) kept.deserialise<Binary>(data);
			else if (path.find("/tjson") == 0) other.deserialise<Json>(data);
			else other.deserialise<Binary>(data);
		} catch (std::exception& e) { note("refused: %s", exceptionText(e).c_str()); entry += " refused"; }
		bool refused = entry.back() == 'd';
		r = path[1] == 't' ? show(other) : show(kept);
		if (refused) { if (path[1] == 't') other = Typed(); else kept = Rich(); } // How much was applied isn't known
		log.push_back(entry);
		if (refused) return false;
		w.writeKnownSize("text/plain", r.size(), [&] (Bomba::GeneralisedBuffer& out) { out += std::string_view(r); });
		return true;
	}
};
SCENARIO(updates) {
	swarmNet();
	if (chance(FAULT, 150)) sim::params().eintrPermille = 30;
	Keeper keeper;
	using Protocol = Bomba::HttpServer<>;
	Protocol protocol(keeper, keeper);
	if (chance(WORK, 300)) { int64_t most = pick(WORK, std::vector<int64_t>{10 * US, 2 * MS}); keeper.onHandle = [most] { if (chance(WORK, 300)) sim::sleepFor(range(WORK, 0, most)); }; }
	ServerHost<Protocol> host(protocol, chance(WORK, 200));
	int clients = chance(WORK, 500) ? 1 : 2 + choose(WORK, 2);
	struct Step { std::string path, body; bool isGet = false, broken = false; std::function<void(Rich&)> apply; std::function<void(Typed&)> applyTyped; int status = 0; std::string got; };
	std::vector<std::vector<Step>> steps(clients);
	Fibers fibers;
	for (int c = 0; c < clients; c++) fibers.start("client" + std::to_string(c), [&, c] {
		std::string who = "client " + std::to_string(c), all;
		// An object written completely is what the stored one becomes, whatever it was
		for (int n = 2 + choose(WORK, 7); n > 0; n--) {
			Step s;
			std::string id = "/" + std::to_string(c) + "-" + std::to_string(steps[c].size());
			switch (choose(WORK, 10)) {
				case 0: case 1: case 2: case 3: { auto change = richChange(); s.path = "/json" + id; s.body = jsonSpace() + change.json; s.apply = change.apply;
					if (chance(FAULT, 60)) { size_t end = s.body.rfind('}'); s.body.resize(choose(FAULT, end + 1)); s.broken = true; sim::fault("update.truncated"); } break; }
				case 4: { Rich r = genRich(60, false); s.path = "/json" + id; s.body = r.serialise<Keeper::Json>(); s.apply = [r] (Rich& t) { t = r; }; break; }
				case 5: { Rich r = genRich(60, true); s.path = "/bin" + id; s.body = r.serialise<Keeper::Binary>(); s.apply = [r] (Rich& t) { t = r; };
					if (chance(FAULT, 60)) { s.body.resize(choose(FAULT, s.body.size())); s.broken = true; sim::fault("update.truncated"); } break; }
				case 6: { Typed r = genTyped(60, choose(WORK, 2)); bool json = choose(WORK, 2); if (json) r = genTyped(60, false); s.path = (json ? "/tjson" : "/tbin") + id; s.body = json ? r.serialise<Keeper::Json>() : r.serialise<Keeper::Binary>(); s.applyTyped = [r] (Typed& t) { t = r; }; break; }
				default: s.isGet = true; s.path = pick(WORK, std::vector<std::string>{"/json", "/bin", "/tjson", "/tbin"}) + id; break;
			}
			if (s.isGet) all += "GET " + s.path + " HTTP/1.1\r\nHost: x\r\n\r\n";
			else all += "POST " + s.path + " HTTP/1.1\r\nHost: x\r\nContent-Length: " + std::to_string(s.body.size()) + "\r\n\r\n" + s.body;
			steps[c].push_back(s);
		}
		Raw raw;
		if (!raw.connectRetry(PORT)) violation("not-accepted", who + " can't connect");
		int sender = sim::spawn(who + " sender", [&] { raw.sendPieces(all); });
		size_t pos = 0;
		for (auto& s : steps[c]) {
			std::vector<HttpMessage> got;
			std::string why;
			if (!recvResponses(raw, pos, 1, got, why, IDLE)) violation("no-response", who + ": " + s.path + " isn't answered: " + why);
			s.status = got[0].status;
			s.got = got[0].body;
		}
		sim::join(sender);
	});
	fibers.joinAll();
	// The history, by the model
	Rich model;
	Typed typed;
	std::vector<Rich> mirrors(clients);   // kept up to date by what each client received
	std::vector<Typed> typedMirrors(clients);
	std::vector<size_t> next(clients, 0);
	size_t done = 0;
	for (auto& entry : keeper.log) {
		Step* s = nullptr;
		int c = 0;
		bool refused = entry.size() > 8 && entry.compare(entry.size() - 8, 8, " refused") == 0;
		for (c = 0; c < clients && !s; c++) if (next[c] < steps[c].size() && entry == std::string(steps[c][next[c]].isGet ? "GET " : "POST ") + steps[c][next[c]].path + (refused ? " refused" : "")) { s = &steps[c][next[c]++]; break; }
		if (!s) violation("wrong-execution", "the server handled an unexpected request " + entry);
		bool isTyped = s->path[1] == 't';
		if (s->isGet) {
			// The mirror may be in any earlier state
			std::string got, expected = isTyped ? show(typed) : show(model);
			if (s->status != 200) violation("wrong-status", fmt("status %d for ", s->status) + s->path);
			bool json = s->path.find("json") != std::string::npos;
			try {
				if (isTyped) {
					if (json) typedMirrors[c].deserialise<Keeper::Json>(s->got); else typedMirrors[c].deserialise<Keeper::Binary>(s->got);
					got = show(typedMirrors[c]);
				} else {
					if (json) mirrors[c].deserialise<Keeper::Json>(s->got); else mirrors[c].deserialise<Keeper::Binary>(s->got);
					got = show(mirrors[c]);
				}
			} catch (std::exception& e) { violation("unreadable", "what the server wrote for " + s->path + " can't be read: " + exceptionText(e) + ": " + cut(s->got, 600)); }
			if (json) { JVal v; std::string why; if (!parseJson(s->got, v, why)) violation("not-json", s->path + ": " + why + ": " + cut(s->got, 400)); }
			if (got != expected) violation("wrong-mirror", "the copy updated by " + s->path + ": " + firstDifference(got, expected));
		} else {
			if (refused != s->broken) violation(refused ? "refused" : "accepts-incomplete", cut(s->path + " " + s->body, 800) + (refused ? " was refused" : " was accepted though its end is missing"));
			if (refused) { if (isTyped) typed = Typed(); else model = Rich(); }
			else {
				if (s->apply) s->apply(model); else s->applyTyped(typed);
				std::string expected = isTyped ? show(typed) : show(model);
				if (s->status != 200) violation("wrong-status", fmt("status %d for ", s->status) + s->path);
				if (s->got != expected) violation("wrong-update", "after " + cut(s->path + " " + s->body, 800) + ": " + firstDifference(s->got, expected));
			}
			sim::count("updates");
		}
		done++;
	}
	for (int c = 0; c < clients; c++) if (next[c] != steps[c].size()) violation("not-executed", steps[c][next[c]].path + " was never handled");
	if (done > 3) sim::nontrivial();
}
