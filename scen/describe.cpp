// The description of an interface (D01): generated from a tree of objects composed at random, served as a file,
// read by a client that knows nothing else about the interface and calls it accordingly.
#include "world.hpp"
#include "bomba_download_server.hpp"
#include "bomba_json_wsp_description.hpp"
#include <list>
#include <set>

struct Leafy : Bomba::Serialisable<Leafy> { int8_t depth = key<"depth"> = 0; std::vector<Leafy> under = key<"under">; };
struct Inner : Bomba::Serialisable<Inner> { std::string word = key<"word">; bool set = key<"set"> = false; };
struct Middle : Bomba::Serialisable<Middle> { std::vector<Inner> inners = key<"inners">; Bomba::Optional<double> weight = key<"weight">; };
struct Outer : Bomba::Serialisable<Outer> { Middle middle = key<"middle">; std::map<std::string, Leafy> leaves = key<"leaves">; std::array<std::vector<uint16_t>, 2> grids = key<"grids">; };

// What is to be described.  Types are written as in the description, but as text: "number", "[number]", "Point", "object", "null".
struct Described { std::string path; std::vector<std::pair<std::string, std::string>> params; std::string returned; int leaf; };
static const std::map<std::string, std::vector<std::pair<std::string, std::string>>> typesKnown = {
	{"Leafy", {{"depth", "number"}, {"under", "[Leafy]"}}},
	{"Inner", {{"word", "string"}, {"set", "boolean"}}},
	{"Middle", {{"inners", "[Inner]"}, {"weight", "number"}}},
	{"Outer", {{"middle", "Middle"}, {"leaves", "object"}, {"grids", "[[number]]"}}},
	{"Point", {{"x", "number"}, {"y", "number"}, {"name", "string"}, {"tags", "[number]"}, {"extra", "number"}, {"flag", "boolean"}}},
	{"Small", {{"level", "number"}, {"title", "string"}}},
	{"Rich", {{"triple", "[number]"}, {"list", "[Small]"}, {"table", "object"}, {"shared", "number"}, {"small", "Small"}, {"text", "string"}, {"grid", "[[number]]"}, {"word", "number"}, {"named", "object"}, {"inner", "Small"}, {"reals", "[number]"}, {"big", "number"}}},
	{"Typed", {{"wide", "number"}, {"letter", "number"}, {"huge", "number"}, {"half", "number"}, {"single", "number"}, {"singles", "[number]"}, {"shorter", "number"}, {"flag", "boolean"}, {"longs", "[number]"}, {"name", "string"}, {"table", "object"}, {"words", "object"}, {"queue", "[number]"}, {"shared", "number"}, {"pair", "[number]"}, {"last", "number"}}}};
static const std::vector<Described> apiMethods = {
	{"add", {{"a", "number"}, {"b", "number"}}, "number"},
	{"mix", {{"a", "number"}, {"b", "number"}, {"c", "number"}, {"d", "number"}, {"e", "number"}}, "number"},
	{"real", {{"d", "number"}, {"f", "number"}}, "number"},
	{"flip", {{"b", "boolean"}}, "boolean"},
	{"echo", {{"text", "string"}, {"twice", "boolean"}}, "string"},
	{"rotate_parts", {{"parts", "[string]"}, {"numbers", "[number]"}}, "[string]"},
	{"maybe", {{"o", "number"}}, "number"},
	{"move", {{"point", "Point"}, {"dx", "number"}}, "Point"},
	{"gather", {{"rich", "Rich"}, {"shift", "[number]"}}, "Rich"},
	{"survey", {{"points", "[Point]"}, {"table", "object"}, {"label", "string"}}, "object"},
	{"bump", {{"by", "number"}}, "number"},
	{"swap", {{"value", "string"}}, "string"},
	{"load", {}, "string"},
	{"store", {{"value", "string"}}, "null"},
	{"fail", {{"message", "string"}}, "number"},
	{"convert", {{"typed", "Typed"}, {"by", "number"}}, "Typed"},
	{"declared", {{"tiny", "number"}, {"half", "number"}, {"loud", "boolean"}, {"wide", "[number]"}, {"last", "boolean"}, {"tail", "string"}}, "[number]"},
	{"wide", {{"first", "number"}, {"text", "string"}, {"second", "number"}}, "[number]"},
	{"exotic", {{"big", "number"}, {"c", "number"}, {"other", "number"}}, "number"},
	{"deep", {{"nested", "[[[[number]]]]"}, {"by", "number"}}, "[[[[number]]]]"}};
// Types that need nothing around them can be called with any value of the described type
static const std::set<std::string> optionalReturn = {"maybe", "perhaps"};

static void typesOf(std::string type, std::set<std::string>& all) {
	while (type[0] == '[') type = type.substr(1, type.size() - 2);
	auto known = typesKnown.find(type);
	if (known == typesKnown.end() || !all.insert(type).second) return;
	for (auto& member : known->second) typesOf(member.second, all);
	if (type == "Rich") typesOf("Small", all); // in a map
	if (type == "Outer") typesOf("Leafy", all);
}

struct Ran { int leaf; std::string method; };
static std::string genKey(std::set<std::string>& used) {
	while (true) {
		std::string s;
		switch (choose(WORK, 5)) {
			case 0: { static const char* odd[] = {"quoted \"name\"", "back\\slash", "tab\there", "new\nline", "\xc5\xbelu\xc5\xa5", "a b", "/slash/", "{}", "[1]", "\x01", "0", "-1", "null", "methods", ":", ",", "%41", "\xf0\x9f\x98\x80"}; s = odd[choose(WORK, sizeof odd / sizeof *odd)]; break; }
			case 1: s = "long_name_" + std::string(choose(WORK, 200), 'n'); break;
			case 2: s = std::string(1, 'a' + choose(WORK, 26)); break;
			default: for (int n = 1 + choose(WORK, 8); n > 0; n--) s += "abcxyz_0"[choose(WORK, 8)];
		}
		if (used.insert(s).second) return s;
	}
}
struct Interface {
	std::vector<Described> described;
	std::vector<Ran> ran;
	std::list<Api> apis;
	std::list<Impl> impls;
	std::list<Bomba::DynamicRpcObject> groups; // not owned by the tree
	std::list<Bomba::TypedRpcLambdaHolder<std::string(int, std::string)>> typed;
	int leaves = 0;
	static inline Interface* current = nullptr;
	Interface() { current = this; }
	// They don't fit in place, or do, or would but for what they capture
	Bomba::RpcLambdaHolder lambda(int kind, int leaf, Described& d) {
		auto log = [this, leaf] (const char* method) { ran.push_back({leaf, method}); };
		switch (kind) {
			case 0: d = {"", {}, "null"}; return [log] () { log("nothing"); };
			case 1: d = {"", {{"number", "number"}, {"word", "string"}}, "string"}; return [log] (int number = Bomba::name("number"), std::string word = Bomba::name("word")) { log("text"); return word + std::to_string(number); };
			case 2: { d = {"", {{"outer", "Outer"}}, "[Middle]"}; std::array<int64_t, 9> ballast = {1, 2, 3}; return [log, ballast] (Outer outer = Bomba::name("outer")) { log(ballast[2] == 3 ? "outer" : "?"); return std::vector<Middle>{outer.middle, Middle()}; }; }
			case 3: { d = {"", {}, "number"}; std::list<int> numbers = {leaf, 1, 2}; auto f = [numbers] () { int sum = 0; for (int n : numbers) sum += n; current->ran.push_back({numbers.front(), "sum"}); return sum; }; return choose(WORK, 2) ? Bomba::RpcLambdaHolder(f) : Bomba::RpcLambdaHolder(std::move(f)); }
			case 4: { d = {"", {{"\"it\"\n", "[[string]]"}, {"tree", "Leafy"}, {"way", "boolean"}}, "boolean"}; auto all = std::make_shared<std::string>("yes"); auto f = [log, all] (std::vector<std::vector<std::string>> it = Bomba::name("\"it\"\n"), Leafy tree = Bomba::name("tree"), std::optional<bool> way = Bomba::name("way")) { log(all->c_str()); return way.value_or(it.size() > tree.under.size()); }; return choose(WORK, 2) ? Bomba::RpcLambdaHolder(f) : Bomba::RpcLambdaHolder(std::move(f)); }
			case 5: { d = {"", {{"key", "string"}}, "object"}; return [log] (const std::string& key = Bomba::name("key")) { log("map"); return std::map<std::string, Inner>{{key, Inner()}}; }; }
			default: { d = {"", {{"first", "number"}, {"second", "string"}}, "string"};
				typed.emplace_back([log] (int first = Bomba::name("first"), std::string second = Bomba::name("second")) { log("typed"); return second + std::to_string(first); });
				return Bomba::RpcLambdaHolder::nonOwning(*typed.back()); }
		}
	}
	void fill(Bomba::DynamicRpcObject& group, const std::string& prefix, int depth) {
		std::set<std::string> used;
		for (int n = choose(WORK, depth == 0 ? 6 : 4); n > 0; n--) {
			std::string name = genKey(used);
			int kind = choose(WORK, 12);
			if (kind < 8) {
				Described d;
				int leaf = leaves++;
				if (choose(WORK, 2)) group.add(name, lambda(kind % 7, leaf, d)); else { Bomba::RpcLambdaHolder made = lambda(kind % 7, leaf, d); Bomba::RpcLambdaHolder moved = std::move(made); group.add(name, std::move(moved)); }
				d.path = prefix + name;
				d.leaf = leaf;
				described.push_back(d);
			} else if (kind == 8 && apis.size() < 2) {
				addApi(prefix + name + ".");
				group.add(name, Bomba::RpcLambdaHolder::nonOwning(apis.back()));
			} else if (depth < 5) {
				if (choose(WORK, 2)) {
					groups.emplace_back();
					Bomba::DynamicRpcObject& inner = groups.back();
					bool before = choose(WORK, 2);
					if (before) group.add(name, Bomba::RpcLambdaHolder::nonOwning(inner));
					fill(inner, prefix + name + ".", depth + 1);
					if (!before) group.add(name, Bomba::RpcLambdaHolder::nonOwning(inner));
				} else {
					Bomba::DynamicRpcObject inner;
					fill(inner, prefix + name + ".", depth + 1);
					group.add(name, std::move(inner));
				}
			}
		}
	}
	void addApi(const std::string& prefix) {
		apis.emplace_back();
		impls.emplace_back();
		apis.back().impl = &impls.back();
		int leaf = leaves++;
		for (Described d : apiMethods) { d.path = prefix + d.path; d.leaf = leaf; described.push_back(d); }
		impls.back().onCall = [this, leaf] { ran.push_back({leaf, ""}); };
	}
};

static std::string typeText(const JVal& v, const std::string& where) {
	if (v.kind == JVal::NUL) return "null";
	if (v.kind == JVal::STR) return v.text;
	if (v.kind != JVal::ARR || v.arr.size() != 1) violation("bad-description", "the type of " + cut(where) + " isn't a type");
	return "[" + typeText(v.arr[0], where) + "]";
}
static const JVal& member(const JVal& v, const std::string& name, const std::string& where, JVal::Kind kind) {
	if (v.kind != JVal::OBJ) violation("bad-description", cut(where) + " isn't an object");
	if (v.countKey(name) != 1) violation("bad-description", cut(where) + fmt(" has %d members called ", int(v.countKey(name))) + name);
	const JVal& r = *v.get(name);
	if (r.kind != kind) violation("bad-description", name + " of " + cut(where) + " has an unexpected type");
	return r;
}
static void judgeDoc(const JVal& v, const std::string& where) {
	for (auto& line : member(v, "doc_lines", where, JVal::ARR).arr) if (line.kind != JVal::STR) violation("bad-description", "doc_lines of " + cut(where) + " aren't text");
}
// What a client learns from the description
struct Learned {
	std::map<std::string, std::vector<std::pair<std::string, std::string>>> types;
	std::vector<Described> methods;
};
static Learned learn(const JVal& v, const std::string& url, const std::string& service) {
	Learned r;
	auto same = [&] (const char* name, const std::string& want) { if (member(v, name, "the description", JVal::STR).text != want) violation("bad-description", std::string(name) + " is " + cut(v.get(name)->text) + " instead of " + cut(want)); };
	same("type", "jsonwsp/description");
	same("version", "1.0");
	same("servicename", service);
	same("url", url);
	for (auto& [name, type] : member(v, "types", "the description", JVal::OBJ).obj) {
		if (type.kind != JVal::OBJ) violation("bad-description", "type " + cut(name) + " isn't an object");
		if (r.types.count(name)) violation("described-twice", "type " + cut(name) + " is described repeatedly");
		auto& members = r.types[name];
		for (auto& [key, one] : type.obj) members.push_back({key, typeText(one, name + "." + key)});
	}
	for (auto& [name, method] : member(v, "methods", "the description", JVal::OBJ).obj) {
		for (auto& other : r.methods) if (other.path == name) violation("described-twice", "method " + cut(name) + " is described repeatedly");
		Described d{name, {}, "", 0};
		judgeDoc(method, name);
		std::map<int, std::pair<std::string, std::string>> params;
		for (auto& [param, one] : member(method, "params", name, JVal::OBJ).obj) {
			std::string where = "parameter " + param + " of " + name;
			judgeDoc(one, where);
			member(one, "optional", where, JVal::BOOL);
			int order = atoi(member(one, "def_order", where, JVal::NUM).text.c_str());
			if (one.countKey("type") != 1) violation("bad-description", cut(where) + " has no type");
			if (!params.insert({order, {param, typeText(*one.get("type"), where)}}).second) violation("bad-description", cut(where) + " has the same position as another");
		}
		for (auto& [order, param] : params) {
			d.params.push_back(param);
			if (order != int(d.params.size())) violation("bad-description", fmt("parameters of %s aren't numbered from 1", cut(name).c_str()));
		}
		const JVal& returned = member(method, "ret_info", name, JVal::OBJ);
		judgeDoc(returned, "result of " + name);
		if (returned.countKey("type") != 1) violation("bad-description", "the result of " + cut(name) + " has no type");
		d.returned = typeText(*returned.get("type"), name);
		r.methods.push_back(d);
	}
	return r;
}
static std::string genValue(const Learned& learned, const std::string& type, int depth = 0) {
	if (type == "number") return std::to_string(choose(WORK, 100));
	if (type == "boolean") return choose(WORK, 2) ? "true" : "false";
	if (type == "string") return jsonString(genText(100));
	if (type == "object") return "{}";
	if (type == "null") return "null";
	std::string r;
	if (type[0] == '[') {
		for (int n = depth > 4 ? 0 : choose(WORK, 4); n > 0; n--) r += (r.empty() ? "" : ",") + genValue(learned, type.substr(1, type.size() - 2), depth + 1);
		return "[" + r + "]";
	}
	auto known = learned.types.find(type);
	if (known == learned.types.end()) violation("type-not-described", "type " + type + " is used but not described");
	for (auto& [name, inner] : known->second) r += (r.empty() ? "" : ",") + pair(name, genValue(learned, inner, depth + 1));
	return "{" + r + "}";
}
static void judgeValue(const Learned& learned, const JVal& v, const std::string& type, const std::string& where, bool optional = false) {
	bool ok = true;
	if (optional && v.kind == JVal::NUL) return;
	if (type == "number") ok = v.kind == JVal::NUM;
	else if (type == "boolean") ok = v.kind == JVal::BOOL;
	else if (type == "string") ok = v.kind == JVal::STR;
	else if (type == "object") ok = v.kind == JVal::OBJ;
	else if (type == "null") ok = v.kind == JVal::NUL;
	else if (type[0] == '[') {
		if (v.kind != JVal::ARR) ok = false;
		else for (auto& one : v.arr) judgeValue(learned, one, type.substr(1, type.size() - 2), "element of " + where);
	} else {
		auto known = learned.types.find(type);
		if (known == learned.types.end()) violation("type-not-described", "type " + type + " is used but not described");
		ok = v.kind == JVal::OBJ;
		for (auto& [key, one] : v.obj) { // members with no value may be left out
			bool found = false;
			for (auto& [name, inner] : known->second) if (name == key) { found = true; judgeValue(learned, one, inner, key + " of " + where, true); }
			if (!found) violation("not-as-described", where + " has a member not described: " + cut(key));
		}
	}
	if (!ok) violation("not-as-described", where + " isn't " + type);
}

SCENARIO(described) {
	swarmNet();
	sim::fsReset();
	sim::fsMkdir("/srv/www");
	Interface served;
	Bomba::DynamicRpcObject root;
	Bomba::IRemoteCallable* top = &root;
	if (chance(WORK, 150)) { served.addApi(""); top = &served.apis.back(); }
	else served.fill(root, "", 0);
	std::string url = genText(80), service = genText(80);
	// What is served has nothing to do with it, unless it's asked for
	std::string description = Bomba::describeInJsonWsp<std::string>(*top, url, service);
	if (!served.ran.empty()) violation("ran", "generating the description ran a method");
	Bomba::CachingFileServer files("/srv/www");
	files.addGeneratedFile("api_description.json", description);
	using Server = Bomba::JsonRpcServer<std::string>;
	Server protocol(*top, files);
	ServerHost<Server> host(protocol, chance(WORK, 200));
	Raw raw;
	if (!raw.connectRetry(PORT)) violation("not-accepted", "can't connect");
	size_t pos = 0;
	auto exchange = [&] (const std::string& bytes, const std::string& what) {
		int sender = sim::spawn("sender", [&] { raw.sendPieces(bytes); });
		std::vector<HttpMessage> got;
		std::string why;
		if (!recvResponses(raw, pos, 1, got, why, IDLE)) violation("no-response", cut(what) + " isn't answered: " + why);
		sim::join(sender);
		return got[0];
	};
	HttpMessage m = exchange("GET /api_description.json HTTP/1.1\r\n" + headerLines({"Host: x"}, true) + "\r\n", "the request for the description");
	JVal v;
	std::string why;
	if (m.status != 200 || m.header("content-type") != "application/json") violation("not-served", fmt("status %d and type ", m.status) + cut(m.header("content-type")) + " for the description");
	if (!parseJson(m.body, v, why)) violation("bad-description", "the description isn't JSON: " + why + ": " + cut(m.body));
	Learned learned = learn(v, url, service);
	// Exactly what there is
	std::set<std::string> types;
	for (auto& d : served.described) {
		const Described* found = nullptr;
		for (auto& l : learned.methods) if (l.path == d.path) found = &l;
		if (!found) violation("not-described", "method " + cut(d.path) + " isn't described");
		auto text = [] (const Described& d) { std::string r; for (auto& p : d.params) r += p.first + " : " + p.second + ", "; return r + "-> " + d.returned; };
		if (text(*found) != text(d)) violation("wrong-description", "method " + cut(d.path) + " is described as " + cut(text(*found)) + " instead of " + cut(text(d)));
		for (auto& p : d.params) typesOf(p.second, types);
		typesOf(d.returned, types);
		if (d.params.size() == 1 && d.params[0].first == "key") typesOf("Inner", types); // in a map
	}
	for (auto& l : learned.methods) {
		bool found = false;
		for (auto& d : served.described) found |= d.path == l.path;
		if (!found) violation("not-there", "method " + cut(l.path) + " is described but isn't there");
	}
	for (auto& type : types) {
		auto found = learned.types.find(type);
		if (found == learned.types.end()) violation("type-not-described", "type " + type + " is used but not described");
		if (found->second != typesKnown.at(type)) violation("wrong-description", "type " + type + " is described differently");
	}
	for (auto& [name, members] : learned.types) if (!types.count(name)) violation("not-there", "type " + cut(name) + " is described but isn't used");
	// All can be called as described
	int calls = 1 + choose(WORK, 8), number = 0;
	for (int n = 0; n < calls; n++) {
		if (chance(WORK, 150)) { // Not there
			std::set<std::string> used;
			std::string name = genKey(used);
			if (!learned.methods.empty() && choose(WORK, 2)) { name = learned.methods[choose(WORK, learned.methods.size())].path; if (choose(WORK, 2)) name += pick(WORK, std::vector<std::string>{".x", "_", ".a.b"}); else name.pop_back(); }
			bool exists = false;
			for (auto& d : served.described) exists |= d.path == name;
			size_t dot = name.rfind('.');
			if (exists || name.empty() || dot == name.size() - 1 || (dot != std::string::npos && dot == 0)) continue;
			std::string body = "{\"jsonrpc\":\"2.0\",\"method\":" + jsonString(name) + ",\"id\":" + std::to_string(number) + "}";
			m = exchange("POST / HTTP/1.1\r\nContent-Type: application/json\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body, body);
			JVal r;
			if (!parseJson(m.body, r, why)) violation("bad-response", "the response to " + cut(body) + " isn't JSON: " + why);
			if (!served.ran.empty()) violation("ran", cut(body) + " ran " + served.ran[0].method);
			if (!r.get("error") || r.get("result")) violation("undescribed", "the response to " + cut(body) + " isn't an error: " + cut(m.body));
			number++;
			continue;
		}
		if (learned.methods.empty()) break;
		const Described& d = learned.methods[choose(WORK, learned.methods.size())];
		std::vector<std::string> params;
		for (auto& p : d.params) params.push_back(pair(p.first, genValue(learned, p.second)));
		std::string body = "{\"jsonrpc\":\"2.0\",\"method\":" + jsonString(d.path) + (params.empty() && choose(WORK, 2) ? "" : ",\"params\":{" + join(params) + "}") + ",\"id\":" + std::to_string(number) + "}";
		m = exchange("POST / HTTP/1.1\r\n" + headerLines({"Host: x", "Content-Type: application/json", "Content-Length: " + std::to_string(body.size())}, true) + "\r\n" + body, body);
		JVal r;
		if (m.status != 200) violation("wrong-status", fmt("status %d to ", m.status) + cut(body));
		if (!parseJson(m.body, r, why)) violation("bad-response", "the response to " + cut(body) + " isn't JSON: " + why + ": " + cut(m.body));
		if (!r.get("id") || r.get("id")->text != std::to_string(number)) violation("bad-response", "the response to " + cut(body) + " has another id: " + cut(m.body));
		const Described* real = nullptr;
		for (auto& k : served.described) if (k.path == d.path) real = &k;
		if (served.ran.size() != 1 || served.ran[0].leaf != real->leaf) violation("wrong-method", served.ran.empty() ? cut(body) + " ran nothing and gave " + cut(m.body) : cut(body) + " ran something else");
		served.ran.clear();
		bool mayFail = d.path == "fail" || d.path.ends_with(".fail");
		if (r.get("error")) {
			if (!mayFail) violation("not-callable", cut(body) + " as described failed: " + cut(m.body));
		} else if (!r.get("result")) violation("bad-response", "the response to " + cut(body) + " has no result: " + cut(m.body));
		else judgeValue(learned, *r.get("result"), d.returned, "the result of " + cut(d.path), optionalReturn.count(d.path.substr(d.path.rfind('.') + 1)));
		number++;
	}
	sim::count("methods-described", learned.methods.size());
	sim::count("calls", number);
	if (learned.methods.size() > 1 && number > 1) sim::nontrivial();
}
