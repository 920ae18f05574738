// The remote interface used by the RPC scenarios, its model, and call generators.
#pragma once
#include "common.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_object.hpp"
#include "bomba_dynamic_object.hpp"
#include <array>
#include <map>
#include <unordered_map>
#include <deque>

struct Point : Bomba::Serialisable<Point> {
	int x = key<"x"> = 0;
	double y = key<"y"> = 0;
	std::string name = key<"name">;
	std::vector<int> tags = key<"tags">;
	Bomba::Optional<int> extra = key<"extra">;
	bool flag = key<"flag"> = false;
};
struct Small : Bomba::Serialisable<Small> {
	int8_t level = key<"level"> = 0;
	std::string title = key<"title">;
};
// Every kind of member the library can carry
struct Rich : Bomba::Serialisable<Rich> {
	std::array<int, 3> triple = key<"triple">;
	std::vector<Small> list = key<"list">;
	std::map<std::string, int> table = key<"table">;
	std::shared_ptr<double> shared = key<"shared">;
	Bomba::Optional<Small> small = key<"small">;
	Bomba::Optional<std::string> text = key<"text">;
	std::vector<std::vector<int>> grid = key<"grid">;
	uint16_t word = key<"word"> = 0;
	std::map<std::string, Small> named = key<"named">;
	Small inner = key<"inner">;
	std::vector<double> reals = key<"reals">;
	int64_t big = key<"big"> = 0;
};
// Members with numeric types declared, and types that have none of their own
struct Typed : Bomba::Serialisable<Typed> {
	using Flag = Bomba::SerialisationFlags::Flags;
	long long wide = key<"wide"> = 0;
	char letter = key<"letter"> = 0;
	unsigned long long huge = key<"huge"> = 0;
	float half = key<"half", Flag::FLOAT_16> = 0;
	double single = key<"single", Flag::FLOAT_32> = 0;
	std::vector<float> singles = key<"singles", Flag::FLOAT_32>;
	Bomba::Optional<int> shorter = key<"shorter", Flag::INT_16>;
	bool flag = key<"flag", Flag::INT_32> = false;
	std::vector<int> longs = key<"longs", Flag::INT_64>;
	std::string name = key<"name", Flag::UINT_8>;
	std::map<std::string, int> table = key<"table", Flag::INT_16>;
	std::unordered_map<std::string, std::string> words = key<"words">;
	std::deque<int> queue = key<"queue">;
	std::shared_ptr<int64_t> shared = key<"shared", Flag::INT_64>;
	std::array<int, 2> pair = key<"pair", Flag::INT_32>;
	uint8_t last = key<"last"> = 0;
};
inline std::string show(int64_t v) { return std::to_string(v); }
inline std::string show(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
inline std::string show(bool v) { return v ? "T" : "F"; }
inline std::string show(const std::string& v) { return "'" + v + "'"; }
inline std::string show(const std::optional<int64_t>& v) { return v ? "some " + std::to_string(*v) : "none"; }
inline std::string show(const Bomba::Optional<int>& v) { return v ? "some " + std::to_string(*v) : "none"; }
inline std::string show(const std::optional<int>& v) { return v ? "some " + std::to_string(*v) : "none"; }
inline std::string show(const Point& p);
inline std::string show(const std::array<int, 3>& v) { std::string r = "["; for (int e : v) r += std::to_string(e) + ","; return r + "]"; }
inline std::string show(const std::optional<std::string>& v) { return v ? "some '" + *v + "'" : "none"; }
inline std::string show(int v) { return std::to_string(v); }
template <typename T> std::string show(const std::vector<T>& v) { std::string r = "["; for (const auto& e : v) r += show(T(e)) + ","; return r + "]"; }
inline std::string show(const std::vector<int>& v) { std::string r = "["; for (int e : v) r += std::to_string(e) + ","; return r + "]"; }
inline std::string show(const Point& p) { return "{" + std::to_string(p.x) + "|" + show(p.y) + "|" + show(p.name) + "|" + show(p.tags) + "|" + show(p.extra) + "|" + show(p.flag) + "}"; }
inline std::string show(const Small& v) { return "(" + std::to_string(v.level) + "|" + show(v.title) + ")"; }
inline std::string show(const std::map<std::string, int>& v) { std::string r = "<"; for (auto& [k, e] : v) r += k + "=" + std::to_string(e) + ","; return r + ">"; }
inline std::string show(const Rich& v) {
	std::string r = "{";
	for (int t : v.triple) r += std::to_string(t) + ",";
	for (auto& e : v.list) r += show(e);
	r += show(v.table) + (v.shared ? show(*v.shared) : "null") + (v.small ? show(*v.small) : "none") + (v.text ? show(*v.text) : "none") + "[";
	for (auto& row : v.grid) r += show(row);
	r += "]" + std::to_string(v.word);
	for (auto& [k, e] : v.named) r += k + "=" + show(e);
	return r + show(v.inner) + show(v.reals) + std::to_string(v.big) + "}";
}
inline std::string show(const Typed& v) {
	std::string r = "{" + show(int64_t(v.wide)) + "|" + show(int64_t(v.letter)) + "|" + show(int64_t(v.huge)) + "|" + show(double(v.half)) + "|" + show(v.single) + "|";
	for (float e : v.singles) r += show(double(e)) + ",";
	r += "|" + show(v.shorter) + "|" + show(v.flag) + "|" + show(v.longs) + "|" + show(v.name) + "|" + show(v.table) + "|";
	for (auto& [k, e] : std::map<std::string, std::string>(v.words.begin(), v.words.end())) r += k + "=" + show(e) + ",";
	r += "|";
	for (int e : v.queue) r += std::to_string(e) + ",";
	return r + "|" + (v.shared ? show(*v.shared) : "null") + "|" + std::to_string(v.pair[0]) + "," + std::to_string(v.pair[1]) + "|" + std::to_string(v.last) + "}";
}
inline Typed transformed(Typed v) {
	v.wide = ~v.wide;
	v.letter ^= 1;
	v.huge += 3;
	v.half = -v.half;
	v.single = -v.single;
	v.singles.push_back(v.half);
	if (v.shorter) v.shorter.reset(); else v.shorter = int(v.letter);
	v.flag = !v.flag;
	if (!v.longs.empty()) v.longs.pop_back(); else v.longs = {v.letter, -1};
	v.name += "~";
	v.table["added"] = v.last;
	if (v.words.empty()) v.words["some"] = v.name; else std::min_element(v.words.begin(), v.words.end())->second += "!";
	v.queue.push_front(v.last);
	if (v.shared) v.shared.reset(); else v.shared = std::make_shared<int64_t>(v.wide);
	std::swap(v.pair[0], v.pair[1]);
	v.last++;
	return v;
}
inline Rich transformed(Rich r) {
	std::rotate(r.triple.begin(), r.triple.begin() + 1, r.triple.end());
	std::reverse(r.list.begin(), r.list.end());
	if (!r.list.empty()) r.list.push_back(r.inner);
	for (auto& [k, e] : r.table) e = int(unsigned(e) + 1);
	r.table["added"] = int(r.list.size());
	if (r.shared) r.shared = *r.shared < 0 ? nullptr : std::make_shared<double>(-*r.shared); else r.shared = std::make_shared<double>(0.5);
	if (r.small) r.small.reset(); else r.small = r.inner;
	if (r.text) { if (r.text->size() > 5) r.text.reset(); else *r.text += "!"; } else r.text = std::string("new");
	r.grid.push_back({r.word, int(r.big >> 33)});
	if (r.grid.size() > 2) r.grid.erase(r.grid.begin());
	r.word = ~r.word;
	for (auto& [k, e] : r.named) e.level = ~e.level;
	r.inner.title += "?";
	std::reverse(r.reals.begin(), r.reals.end());
	r.big = ~r.big;
	return r;
}
inline std::string showArgs() { return ""; }
template <typename A, typename... B> std::string showArgs(const A& a, const B&... b) {
	std::string r;
	if constexpr (std::is_same_v<A, bool>) r = show(bool(a)); else if constexpr (std::is_integral_v<A>) r = show(int64_t(a)); else if constexpr (std::is_floating_point_v<A>) r = show(double(a)); else r = show(a);
	if constexpr (sizeof...(b) > 0) r += ";" + showArgs(b...);
	return r;
}
// State and behaviour of the server object.  The same code serves as the sequential model.
struct Impl {
	int64_t counter = 0;
	std::string stored;
	std::vector<std::string> log; // "method(args)=result"
	bool logging = true;
	std::function<void()> onCall;  // a processing delay, for example
	template <typename... A> void called(const char* m, const A&... a) {
		if (onCall) onCall();
		log.push_back(std::string(m) + "(" + showArgs(a...) + ")");
	}
};
struct Api : Bomba::RpcObject<Api> {
	Impl* impl = nullptr;
	Bomba::RpcMember<[] (Api* p, int a = Bomba::name("a"), int b = Bomba::name("b")) {
		p->impl->called("add", a, b); return int(unsigned(a) + unsigned(b));
	}> add = child<"add">;
	Bomba::RpcMember<[] (Api* p, int8_t a = Bomba::name("a"), uint16_t b = Bomba::name("b"), int16_t c = Bomba::name("c"), uint32_t d = Bomba::name("d"), int64_t e = Bomba::name("e")) {
		p->impl->called("mix", a, b, c, d, e); return int64_t(uint64_t(e) ^ (uint64_t(d) << 8) ^ (uint64_t(uint16_t(c)) << 3) ^ b ^ uint64_t(int64_t(a)));
	}> mix = child<"mix">;
	Bomba::RpcMember<[] (Api* p, double d = Bomba::name("d"), float f = Bomba::name("f")) {
		p->impl->called("real", d, f); return (f > 0) ? d : -d;
	}> real = child<"real">;
	Bomba::RpcMember<[] (Api* p, bool b = Bomba::name("b")) {
		p->impl->called("flip", b); return !b;
	}> flip = child<"flip">;
	Bomba::RpcMember<[] (Api* p, std::string text = Bomba::name("text"), bool twice = Bomba::name("twice")) {
		p->impl->called("echo", text, twice); return twice ? text + text : text;
	}> echo = child<"echo">;
	Bomba::RpcMember<[] (Api* p, std::vector<std::string> parts = Bomba::name("parts"), std::vector<int> numbers = Bomba::name("numbers")) {
		p->impl->called("rotate", parts, numbers); if (!parts.empty()) std::rotate(parts.begin(), parts.begin() + 1, parts.end()); for (int n : numbers) parts.push_back(std::to_string(n)); return parts;
	}> rotate = child<"rotate_parts">;
	Bomba::RpcMember<[] (Api* p, std::optional<int> o = Bomba::name("o")) {
		p->impl->called("maybe", o); return o && *o % 3 == 0 ? std::optional<int>() : std::optional<int>(o ? *o / 2 : 7);
	}> maybe = child<"maybe">;
	Bomba::RpcMember<[] (Api* p, Point point = Bomba::name("point"), int dx = Bomba::name("dx")) {
		p->impl->called("move", point, dx); point.x = int(unsigned(point.x) + unsigned(dx)); point.tags.push_back(dx); point.flag = !point.flag; if (point.extra) point.extra.reset(); else point.extra = dx; return point;
	}> move = child<"move">;
	Bomba::RpcMember<[] (Api* p, Rich rich = Bomba::name("rich"), std::array<int, 3> shift = Bomba::name("shift")) {
		p->impl->called("gather", rich, shift); rich = transformed(rich); for (int i = 0; i < 3; i++) rich.triple[i] ^= shift[i]; return rich;
	}> gather = child<"gather">;
	Bomba::RpcMember<[] (Api* p, std::vector<Point> points = Bomba::name("points"), std::map<std::string, int> table = Bomba::name("table"), std::optional<std::string> label = Bomba::name("label")) {
		p->impl->called("survey", points, table, label); if (label) table[*label] = int(points.size()); for (auto& point : points) table[point.name] = point.x; return table;
	}> survey = child<"survey">;
	std::function<int(int, int)> plus; // a lambda with closure in the tree
	Bomba::RpcMember<[] (Api* p, int by = Bomba::name("by")) {
		p->impl->called("bump", by); return p->impl->counter += by;
	}> bump = child<"bump">;
	Bomba::RpcMember<[] (Api* p, std::string value = Bomba::name("value")) {
		p->impl->called("swap", value); std::swap(p->impl->stored, value); return value;
	}> swap = child<"swap">;
	Bomba::RpcMember<[] (Api* p) {
		p->impl->called("load"); return p->impl->stored;
	}> load = child<"load">;
	Bomba::RpcMember<[] (Api* p, std::string value = Bomba::name("value")) {
		p->impl->called("store", value); p->impl->stored = value;
	}> store = child<"store">;
	Bomba::RpcMember<[] (Api* p, std::string message = Bomba::name("message")) {
		p->impl->called("fail", message); if (!message.empty()) throw std::runtime_error(message); return int(message.size());
	}> fail = child<"fail">;
	Bomba::RpcMember<[] (Api* p, Typed typed = Bomba::name("typed"), int8_t by = Bomba::name("by")) {
		p->impl->called("convert", typed, by); typed = transformed(typed); typed.letter += by; return typed;
	}> convert = child<"convert">;
	Bomba::RpcMember<[] (Api* p, int tiny = Bomba::name("tiny") | Bomba::SerialisationFlags::INT_8, double half = Bomba::name("half") | Bomba::SerialisationFlags::FLOAT_16,
			bool loud = Bomba::name("loud") | Bomba::SerialisationFlags::OMIT_FALSE, std::vector<int> wide = Bomba::name("wide") | Bomba::SerialisationFlags::INT_64,
			bool last = Bomba::name("last") | Bomba::SerialisationFlags::OMIT_FALSE, std::string tail = Bomba::name("tail") | Bomba::SerialisationFlags::UINT_8) {
		p->impl->called("declared", tiny, half, loud, wide, last, tail);
		wide.push_back(tiny); wide.push_back(int(half)); wide.push_back(loud); wide.push_back(last); wide.push_back(tail.size()); return wide;
	}> declared = child<"declared">;
	Bomba::RpcMember<[] (Api* p, int64_t first = Bomba::name("first"), std::string text = Bomba::name("text"), std::optional<int64_t> second = Bomba::name("second")) {
		p->impl->called("wide", first, text, second); return std::vector<int64_t>{second ? *second : -1, first, int64_t(text.size())};
	}, Bomba::SerialisationFlags::INT_64> wide = child<"wide">;
	Bomba::RpcMember<[] (Api* p, long long big = Bomba::name("big"), char c = Bomba::name("c"), unsigned long long other = Bomba::name("other")) {
		p->impl->called("exotic", big, c, other); return (long long) ((unsigned long long) big ^ other ^ (unsigned long long) c);
	}> exotic = child<"exotic">;
	using Nested = std::vector<std::vector<std::vector<std::vector<int>>>>;
	Bomba::RpcMember<[] (Api* p, Nested nested = Bomba::name("nested"), int by = Bomba::name("by")) {
		p->impl->called("deep", nested, by); for (auto& a : nested) for (auto& b : a) for (auto& c : b) { for (int& d : c) d ^= by; c.push_back(by); } return nested;
	}> deep = child<"deep">;
};
// The object tree offered: the object alone, or nested in groups built at run time.
struct Tree {
	Impl impl;
	Api api, other;
	Impl otherImpl;
	Bomba::DynamicRpcObject root, group, level2, level3;
	Bomba::TypedRpcLambdaHolder<int(int, int)> plus = [this] (int a = Bomba::name("a"), int b = Bomba::name("b")) { impl.called("add", a, b); return int(unsigned(a) + unsigned(b)); };
	Bomba::IRemoteCallable* top = nullptr;
	int shape;
	explicit Tree(int shape) : shape(shape) {
		api.impl = &impl;
		other.impl = &otherImpl;
		if (shape == 0) top = &api;
		else if (shape == 1) {
			root.add("other", Bomba::RpcLambdaHolder::nonOwning(other));
			root.add("api", Bomba::RpcLambdaHolder::nonOwning(api));
			top = &root;
		} else if (shape == 3) { // Owned objects, lambdas of various sizes, moved around
			std::array<int64_t, 6> ballast = {1, 2, 3, 4, 5, 6};
			Bomba::DynamicRpcObject deep;
			deep.add("large", [this, ballast] (int k = Bomba::name("k")) { otherImpl.called("large", k); return ballast[k % 6]; });
			deep.add("api", Bomba::RpcLambdaHolder::nonOwning(api));
			deep.add("other", Bomba::RpcLambdaHolder::nonOwning(other));
			Bomba::DynamicRpcObject moved = std::move(deep);
			root.add("small", [this] (std::string s = Bomba::name("s")) { otherImpl.called("small", s); return s; });
			root.add("deep", std::move(moved));
			root.add("plus", Bomba::RpcLambdaHolder::nonOwning(*plus));
			root.add("medium", [this, x = int64_t(5)] () { otherImpl.called("medium"); return x; });
			top = &root;
			api.plus = [this] (int a, int b) { return plus(a, b); };
		} else if (shape == 4) { // deep
			level3.add("other", Bomba::RpcLambdaHolder::nonOwning(other));
			level3.add("api", Bomba::RpcLambdaHolder::nonOwning(api));
			level2.add("c", Bomba::RpcLambdaHolder::nonOwning(level3));
			group.add("a", [] () { return 1; });
			group.add("b", Bomba::RpcLambdaHolder::nonOwning(level2));
			root.add("group", Bomba::RpcLambdaHolder::nonOwning(group));
			top = &root;
		} else {
			group.add("api", Bomba::RpcLambdaHolder::nonOwning(api));
			root.add("other", Bomba::RpcLambdaHolder::nonOwning(other));
			root.add("group", Bomba::RpcLambdaHolder::nonOwning(group));
			top = &root;
		}
	}
	std::string prefix(const char* sep) const { if (shape == 4) return std::string("group") + sep + "b" + sep + "c" + sep + "api" + sep; return shape == 0 ? "" : shape == 1 ? std::string("api") + sep : std::string(shape == 3 ? "deep" : "group") + sep + "api" + sep; }
};
inline Point genPoint(size_t maxText, bool anyByte) {
	Point p;
	p.x = int(genInt(32, true));
	p.y = genDouble();
	p.name = genText(maxText, anyByte);
	for (int n = choose(WORK, 4); n > 0; n--) p.tags.push_back(int(genInt(32, true)));
	if (chance(WORK, 500)) p.extra = int(genInt(32, true));
	p.flag = chance(WORK, 500);
	return p;
}
inline Small genSmall(size_t maxText, bool anyByte) { Small r; r.level = int8_t(genInt(8, true)); r.title = genText(maxText, anyByte); return r; }
inline std::map<std::string, int> genTable(bool anyByte) { std::map<std::string, int> r; for (int n = choose(WORK, 4); n > 0; n--) r[genText(12, anyByte)] = int(genInt(32, true)); return r; }
inline Rich genRich(size_t maxText, bool anyByte) {
	Rich r;
	for (int& t : r.triple) t = int(genInt(32, true));
	for (int n = choose(WORK, 4); n > 0; n--) r.list.push_back(genSmall(maxText, anyByte));
	r.table = genTable(anyByte);
	if (choose(WORK, 2)) r.shared = std::make_shared<double>(genDouble());
	if (choose(WORK, 2)) r.small = genSmall(20, anyByte);
	if (choose(WORK, 2)) r.text = genText(maxText, anyByte);
	for (int n = choose(WORK, 3); n > 0; n--) { r.grid.emplace_back(); for (int k = choose(WORK, 4); k > 0; k--) r.grid.back().push_back(int(genInt(32, true))); }
	r.word = uint16_t(genInt(16, false));
	for (int n = choose(WORK, 3); n > 0; n--) r.named[genText(9, anyByte)] = genSmall(10, anyByte);
	r.inner = genSmall(30, anyByte);
	for (int n = choose(WORK, 4); n > 0; n--) r.reals.push_back(genDouble());
	r.big = genInt(64, true);
	return r;
}
inline float genSingle(bool half) { // exactly representable
	float f = (float(choose(WORK, 2047)) - 1023) * pick(WORK, std::vector<float>{1, 1, 0.125f, 0.5f, 16, 1 / 8192.f, 1 / 16777216.f /* subnormal if it's stored as a half */, 64 /* 65472 at most */});
	return half || choose(WORK, 2) ? f : f * pick(WORK, std::vector<float>{1024.f * 1024 * 1024, 1 / 1048576.f, 1});
}
inline Typed genTyped(size_t maxText, bool anyByte) {
	Typed v;
	v.wide = genInt(64, true);
	v.letter = char(genInt(8, true));
	v.huge = genInt(64, false);
	v.half = anyDouble && chance(WORK, 80) ? (choose(WORK, 2) ? -1 : 1) * INFINITY : genSingle(true);
	v.single = anyDouble && chance(WORK, 80) ? (choose(WORK, 2) ? -1 : 1) * INFINITY : genSingle(false);
	for (int n = choose(WORK, 4); n > 0; n--) v.singles.push_back(genSingle(false));
	if (choose(WORK, 2)) v.shorter = int(genInt(16, true));
	v.flag = choose(WORK, 2);
	for (int n = choose(WORK, 4); n > 0; n--) v.longs.push_back(int(genInt(32, true)));
	v.name = genText(std::min<size_t>(maxText, 200), anyByte);
	for (int n = choose(WORK, 4); n > 0; n--) v.table[genText(12, anyByte)] = int(genInt(16, true));
	for (int n = choose(WORK, 4); n > 0; n--) v.words[genText(12, anyByte)] = genText(std::min<size_t>(maxText, 40), anyByte);
	for (int n = choose(WORK, 4); n > 0; n--) v.queue.push_back(int(genInt(32, true)));
	if (choose(WORK, 2)) v.shared = std::make_shared<int64_t>(genInt(64, true));
	for (int& e : v.pair) e = int(genInt(32, true));
	v.last = uint8_t(genInt(8, false));
	return v;
}
// One call: how to run it on a remote object synchronously, how to start it, and what the model says.
struct Pending {
	virtual ~Pending() {}
	virtual std::string get() = 0;
	virtual bool ready() = 0;
};
template <typename R> struct PendingOf : Pending {
	Bomba::Future<R> future;
	template <typename F> explicit PendingOf(F&& start) : future(start()) {}
	std::string get() override { if constexpr (std::is_void_v<R>) { future.get(); return "void"; } else return showArgs(R(future.get())); }
	bool ready() override { return future.is_ready(); }
};
struct PendingValue : Pending { // can only be called synchronously
	std::string value;
	std::exception_ptr problem; // known when it's collected, like with the others
	template <typename F> explicit PendingValue(F&& call) { try { value = call(); } catch (std::exception&) { problem = std::current_exception(); } }
	std::string get() override { if (problem) std::rethrow_exception(problem); return value; }
	bool ready() override { return true; }
};
struct Call {
	std::string text;      // "method(args)"
	std::function<std::string(Api&)> run;
	std::function<std::unique_ptr<Pending>(Api&)> start;
	std::function<std::string(Impl&)> model;
};
template <typename R, typename Member, typename... A> Call makeCall(const char* name, Member Api::* m, A... args) {
	Call c;
	c.text = std::string(name) + "(" + showArgs(args...) + ")";
	c.run = [=](Api& api) { if constexpr (std::is_void_v<R>) { (api.*m)(args...); return std::string("void"); } else return showArgs(R((api.*m)(args...))); };
	c.start = [=](Api& api) -> std::unique_ptr<Pending> { return std::unique_ptr<Pending>(new PendingOf<R>([&] { return (api.*m).async(args...); })); };
	return c;
}
// What the method does, restated: independent of the lambdas above only in that it does not pass through the library.
inline size_t mostText = SIZE_MAX; // what a message can carry
inline bool deepNesting = false; // arrays more than three levels deep
inline Call genCall(int client, size_t maxText, bool anyByte, bool attributable) {
	Call c;
	switch (choose(WORK, attributable ? 3 : 20)) {
		case 0: { int by = int(choose(WORK, 1000)) * 8 + client; c = makeCall<int64_t>("bump", &Api::bump, by); c.model = [=](Impl& m) { return showArgs(m.counter += by); }; break; }
		case 1: { std::string v = std::to_string(client) + ":" + genText(maxText, anyByte); c = makeCall<std::string>("swap", &Api::swap, v); c.model = [=](Impl& m) { std::string old = m.stored; m.stored = v; return showArgs(old); }; break; }
		case 2: { std::string v = std::to_string(client) + ":" + genText(maxText, anyByte); c = makeCall<void>("store", &Api::store, v); c.model = [=](Impl& m) { m.stored = v; return std::string("void"); }; break; }
		case 3: { int a = int(genInt(32, true)), b = int(genInt(32, true)); c = makeCall<int>("add", &Api::add, a, b); c.model = [=](Impl&) { return showArgs(int(unsigned(a) + unsigned(b))); }; break; }
		case 4: { int8_t a = genInt(8, true); uint16_t b = genInt(16, false); int16_t cc = genInt(16, true); uint32_t d = genInt(32, false); int64_t e = genInt(64, true);
			c = makeCall<int64_t>("mix", &Api::mix, a, b, cc, d, e);
			c.model = [=](Impl&) { return showArgs(int64_t(uint64_t(e) ^ (uint64_t(d) << 8) ^ (uint64_t(uint16_t(cc)) << 3) ^ b ^ uint64_t(int64_t(a)))); }; break; }
		case 5: { double d = genDouble(); float f = float(choose(WORK, 2001)) / 8 - 125; c = makeCall<double>("real", &Api::real, d, f); c.model = [=](Impl&) { return showArgs(f > 0 ? d : -d); }; break; }
		case 6: { bool b = choose(WORK, 2); c = makeCall<bool>("flip", &Api::flip, b); c.model = [=](Impl&) { return showArgs(!b); }; break; }
		case 7: { std::string s = genText(maxText, anyByte); bool t = choose(WORK, 2) && s.size() * 2 < mostText; c = makeCall<std::string>("echo", &Api::echo, s, t); c.model = [=](Impl&) { return showArgs(t ? s + s : s); }; break; }
		case 8: { std::vector<std::string> v; std::vector<int> n; for (int k = choose(WORK, 5); k > 0; k--) v.push_back(genText(std::min<size_t>(maxText, 300), anyByte)); for (int k = choose(WORK, 4); k > 0; k--) n.push_back(int(genInt(32, true)));
			c = makeCall<std::vector<std::string>>("rotate", &Api::rotate, v, n);
			c.model = [=](Impl&) { auto w = v; if (!w.empty()) { w.push_back(w[0]); w.erase(w.begin()); } for (int k : n) w.push_back(std::to_string(k)); return showArgs(w); }; break; }
		case 9: { std::optional<int> o; if (chance(WORK, 700)) o = int(genInt(32, true)); c = makeCall<std::optional<int>>("maybe", &Api::maybe, o); c.model = [=](Impl&) { return !o ? std::string("some 7") : *o % 3 == 0 ? std::string("none") : "some " + std::to_string(*o / 2); }; break; }
		case 10: { Point p = genPoint(std::min<size_t>(maxText, 2000), anyByte); int dx = int(genInt(32, true)); c = makeCall<Point>("move", &Api::move, p, dx);
			c.model = [=](Impl&) { Point q = p; q.x = int(unsigned(p.x) + unsigned(dx)); q.tags.push_back(dx); q.flag = !p.flag; if (p.extra) q.extra.reset(); else q.extra = dx; return showArgs(q); }; break; }
		case 11: { Rich r = genRich(std::min<size_t>(maxText, 600), anyByte); std::array<int, 3> shift; for (int& x : shift) x = int(genInt(32, true)); c = makeCall<Rich>("gather", &Api::gather, r, shift);
			c.model = [=](Impl&) { Rich q = transformed(r); for (int i = 0; i < 3; i++) q.triple[i] ^= shift[i]; return showArgs(q); }; break; }
		case 12: { std::vector<Point> points; for (int n = choose(WORK, 4); n > 0; n--) points.push_back(genPoint(std::min<size_t>(maxText, 200), anyByte)); auto table = genTable(anyByte); std::optional<std::string> label; if (choose(WORK, 2)) label = genText(20, anyByte);
			c = makeCall<std::map<std::string, int>>("survey", &Api::survey, points, table, label);
			c.model = [=](Impl&) { auto t = table; if (label) t[*label] = int(points.size()); for (auto& q : points) t[q.name] = q.x; return showArgs(t); }; break; }
		case 13: { int a = int(genInt(32, true)), b = int(genInt(32, true)); c = makeCall<int>("add", &Api::add, a, b); c.model = [=](Impl&) { return showArgs(int(unsigned(a) + unsigned(b))); };
			c.run = [=, usual = c.run] (Api& api) { return api.plus ? showArgs(api.plus(a, b)) : usual(api); };
			c.start = [=, usual = c.start] (Api& api) { return api.plus ? std::unique_ptr<Pending>(new PendingValue([&] { return showArgs(api.plus(a, b)); })) : usual(api); };
			break; }
		case 14: { Typed v = genTyped(maxText, anyByte); int8_t by = int8_t(genInt(8, true)); c = makeCall<Typed>("convert", &Api::convert, v, by);
			c.model = [=](Impl&) { Typed w = transformed(v); w.letter += by; return showArgs(w); }; break; }
		case 15: { int tiny = int(genInt(8, true)); double half = genSingle(true); bool loud = choose(WORK, 2), last = choose(WORK, 2); std::vector<int> wide; for (int n = choose(WORK, 4); n > 0; n--) wide.push_back(int(genInt(32, true))); std::string tail = genText(std::min<size_t>(maxText, 200), anyByte);
			c = makeCall<std::vector<int>>("declared", &Api::declared, tiny, half, loud, wide, last, tail);
			c.model = [=](Impl&) { auto w = wide; w.push_back(tiny); w.push_back(int(half)); w.push_back(loud); w.push_back(last); w.push_back(tail.size()); return showArgs(w); }; break; }
		case 16: { int64_t first = genInt(64, true); std::string text = genText(maxText, anyByte); std::optional<int64_t> second; if (choose(WORK, 2)) second = genInt(64, true);
			c = makeCall<std::vector<int64_t>>("wide", &Api::wide, first, text, second);
			c.model = [=](Impl&) { return showArgs(std::vector<int64_t>{second ? *second : -1, first, int64_t(text.size())}); }; break; }
		case 17: { long long big = genInt(64, true); char l = char(genInt(8, true)); unsigned long long other = genInt(64, false);
			c = makeCall<long long>("exotic", &Api::exotic, big, l, other);
			c.model = [=](Impl&) { return showArgs((long long) ((unsigned long long) big ^ other ^ (unsigned long long) l)); }; break; }
		case 18: if (deepNesting) { Api::Nested v; for (int i = choose(WORK, 3); i > 0; i--) { v.emplace_back(); for (int j = choose(WORK, 3); j > 0; j--) { v.back().emplace_back(); for (int k = choose(WORK, 3); k > 0; k--) { v.back().back().emplace_back(); for (int l = choose(WORK, 3); l > 0; l--) v.back().back().back().push_back(int(genInt(32, true))); } } }
			int by = int(genInt(32, true)); c = makeCall<Api::Nested>("deep", &Api::deep, v, by);
			c.model = [=](Impl&) { Api::Nested w = v; for (auto& a : w) for (auto& b : a) for (auto& q : b) { for (int& d : q) d ^= by; q.push_back(by); } return showArgs(w); }; break; }
			[[fallthrough]];
		default: { c = makeCall<std::string>("load", &Api::load); c.model = [](Impl& m) { return showArgs(m.stored); }; break; }
	}
	return c;
}
