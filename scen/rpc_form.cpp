#include "rpc.hpp"
#include "httpreq.hpp"
#include "bomba_http.hpp"

// ---- R05: methods called through HttpClient, with arguments in forms ----------------------------------
struct FormTool : Bomba::RpcObject<FormTool> {
	Impl* impl = nullptr;
	using Flag = Bomba::SerialisationFlags::Flags;
	Bomba::RpcMember<[] (FormTool* p, std::string text = Bomba::name("text"), bool loud = Bomba::name("loud") | Bomba::SerialisationFlags::OMIT_FALSE, std::optional<int> count = Bomba::name("count") | Bomba::SerialisationFlags::EMPTY_IS_NULL) {
		p->impl->called("set", text, loud, count);
	}> set = child<"set">;
	Bomba::RpcMember<[] (FormTool* p, double x = Bomba::name("x"), std::string text = Bomba::name("text"), std::optional<std::string> note = Bomba::name("note") | Bomba::SerialisationFlags::EMPTY_IS_NULL) {
		p->impl->called("tell", x, text, note);
	}> tell = child<"tell_all">;
	Bomba::RpcMember<[] (FormTool* p, int64_t big = Bomba::name("big"), uint16_t word = Bomba::name("word"), int8_t tiny = Bomba::name("tiny"), bool on = Bomba::name("on") | Bomba::SerialisationFlags::OMIT_FALSE) {
		p->impl->called("wide", big, word, tiny, on);
	}> wide = child<"wide">;
	Bomba::RpcMember<[] (FormTool* p) { p->impl->called("poke"); }> poke = child<"poke">;
	Bomba::RpcMember<[] (FormTool* p, std::string why = Bomba::name("why")) {
		p->impl->called("fail", why); throw std::runtime_error(why);
	}> fail = child<"fail">;
	// These are answered only by a responder that sends results
	Bomba::RpcMember<[] (FormTool* p, std::string text = Bomba::name("text"), int n = Bomba::name("n")) {
		p->impl->called("ask", text, n); return text + std::to_string(n) + text;
	}> ask = child<"ask">;
	Bomba::RpcMember<[] (FormTool* p, int64_t by = Bomba::name("by")) {
		p->impl->called("sum", by); return p->impl->counter += by;
	}> sum = child<"sum">;
	Bomba::RpcMember<[] (FormTool* p, double x = Bomba::name("x")) {
		p->impl->called("negative", x); return -x;
	}> negative = child<"negative">;
	Bomba::RpcMember<[] (FormTool* p, int x = Bomba::name("x")) {
		p->impl->called("half", x); return x % 2 ? std::optional<int>() : std::optional<int>(x / 2);
	}, Bomba::SerialisationFlags::EMPTY_IS_NULL> half = child<"half">;
};
struct FormTree {
	Impl impl, otherImpl;
	FormTool tool, other;
	Bomba::DynamicRpcObject root, group;
	Bomba::IRemoteCallable* top = nullptr;
	explicit FormTree(int shape) {
		tool.impl = &impl;
		other.impl = &otherImpl;
		top = &root;
		if (shape == 0) top = &tool;
		else if (shape == 1) { root.add("other", Bomba::RpcLambdaHolder::nonOwning(other)); root.add("tool", Bomba::RpcLambdaHolder::nonOwning(tool)); }
		else { group.add("tool", Bomba::RpcLambdaHolder::nonOwning(tool)); root.add("other", Bomba::RpcLambdaHolder::nonOwning(other)); root.add("group", Bomba::RpcLambdaHolder::nonOwning(group)); }
	}
};
static Impl* aloneImpl; // a method without parent, like in the documentation
using Alone = Bomba::RpcStatelessLambda<[] (std::string text = Bomba::name("sent"), int repeats = Bomba::name("repeats"), bool yell = Bomba::name("yell") | Bomba::SerialisationFlags::OMIT_FALSE) {
	aloneImpl->called("alone", text, repeats, yell);
}>;
// Answers with the results
struct ResultPoster : Bomba::IHttpPostResponder {
	Bomba::IRemoteCallable& callable;
	explicit ResultPoster(Bomba::IRemoteCallable& callable) : callable(callable) {}
	bool post(std::string_view path, std::string_view, std::span<char> body, Bomba::IWriteStarter& writer) override {
		using Encoding = Bomba::HtmlMessageEncoding<std::string, std::string>;
		const Bomba::IRemoteCallable* method = Bomba::PathWithSeparator<"/", std::string>::findCallable(path.substr(1), &callable);
		if (!method) return false;
		std::string result;
		typename Encoding::Input in = {std::string_view(body.data(), body.size())};
		typename Encoding::Output out(result);
		if (!method->call(&in, out, {}, {})) return false;
		writer.writeKnownSize("application/x-www-form-urlencoded", result.size(), [&] (Bomba::GeneralisedBuffer& to) { to += std::string_view(result); });
		return true;
	}
};
struct FormCall {
	std::string text;
	bool fails = false;
	std::function<std::unique_ptr<Pending>(FormTool&, Alone&)> start;
	std::function<std::string(FormTool&, Alone&)> run;
	std::function<std::string(Impl&)> model;
};
template <typename R, typename Get, typename... A> FormCall makeForm(const char* name, Get get, A... args) {
	FormCall c;
	c.text = std::string(name) + "(" + showArgs(args...) + ")";
	c.run = [=] (FormTool& tool, Alone& alone) { auto& m = get(tool, alone); if constexpr (std::is_void_v<R>) { m(args...); return std::string("void"); } else return showArgs(R(m(args...))); };
	c.start = [=] (FormTool& tool, Alone& alone) -> std::unique_ptr<Pending> { return std::unique_ptr<Pending>(new PendingOf<R>([&] { return get(tool, alone).async(args...); })); };
	c.model = [] (Impl&) { return std::string("void"); };
	return c;
}
#define FORM(R, M, ...) makeForm<R>(#M, [] (FormTool& t, Alone&) -> auto& { return t.M; }, __VA_ARGS__)
static std::optional<int> maybeInt() { return choose(WORK, 3) ? std::optional<int>(int(genInt(32, true))) : std::nullopt; }
static FormCall genForm(const std::string& tag, bool alone, bool results, size_t maxText) {
	if (alone) return makeForm<void>("alone", [] (FormTool&, Alone& a) -> auto& { return a; }, tag + formText(maxText), int(genInt(32, true)), bool(choose(WORK, 2)));
	switch (choose(WORK, results ? 11 : 7)) {
		case 0: case 1: return FORM(void, set, tag + formText(maxText), bool(choose(WORK, 2)), maybeInt());
		case 2: { std::optional<std::string> o; if (choose(WORK, 3)) o = formText(100) + "."; std::string t = tag + formText(maxText); return makeForm<void>("tell", [] (FormTool& f, Alone&) -> auto& { return f.tell; }, genDouble(), t, o); }
		case 3: case 4: return FORM(void, wide, int64_t(genInt(64, true)), uint16_t(genInt(16, false)), int8_t(genInt(8, true)), bool(choose(WORK, 2)));
		case 5: { FormCall c = makeForm<void>("poke", [] (FormTool& f, Alone&) -> auto& { return f.poke; }); return c; }
		case 6: { FormCall c = FORM(void, fail, tag + formText(30)); c.fails = true; return c; }
		case 7: { std::string t = tag + formText(maxText); int n = int(genInt(32, true)); FormCall c = FORM(std::string, ask, t, n); c.model = [=] (Impl&) { return showArgs(t + std::to_string(n) + t); }; return c; }
		case 8: { int64_t by = genInt(40, true); FormCall c = FORM(int64_t, sum, by); c.model = [=] (Impl& m) { return showArgs(m.counter += by); }; return c; }
		case 9: { double x = genDouble(); FormCall c = FORM(double, negative, x); c.model = [=] (Impl&) { return showArgs(-x); }; return c; }
		default: { int x = int(genInt(32, true)); FormCall c = FORM(std::optional<int>, half, x); c.model = [=] (Impl&) { return x % 2 ? std::string("none") : "some " + std::to_string(x / 2); }; return c; }
	}
}
SCENARIO(form_client) {
	bool pipelined = chance(WORK, 500);
	NetOptions o;
	o.smallBuffers = !pipelined;
	swarmNet(o);
	if (chance(FAULT, 150)) sim::params().eintrPermille = 30;
	int shape = choose(WORK, 3);
	bool alone = chance(WORK, 150), results = !alone && choose(WORK, 2);
	int clients = chance(WORK, 500) ? 1 : 2 + choose(WORK, 2);
	size_t maxText = swarmTextSize(900, 9000);
	FormTree served(shape);
	Alone servedAlone;
	aloneImpl = &served.impl;
	Bomba::IRemoteCallable& top = alone ? static_cast<Bomba::IRemoteCallable&>(servedAlone) : *served.top;
	Bomba::HtmlPostResponder<> plain(top);
	ResultPoster answering(top);
	Bomba::DummyGetResponder getter;
	using Protocol = Bomba::HttpServer<>;
	Protocol protocol(getter, results ? static_cast<Bomba::IHttpPostResponder&>(answering) : plain);
	swarmProcessing(served.impl);
	ServerHost<Protocol> host(protocol, chance(WORK, 200));
	struct Made { FormCall call; std::string got; };
	std::vector<std::vector<std::unique_ptr<Made>>> made(clients);
	Fibers fibers;
	for (int c = 0; c < clients; c++) fibers.start("client" + std::to_string(c), [&, c] {
		FormTree remote(shape);
		Alone remoteAlone;
		std::string doing = "connecting", who = "client " + std::to_string(c) + ": ";
		std::string tag = "c" + std::to_string(c) + ":";
		try {
			Bomba::SyncNetworkClient net("127.0.0.1", std::to_string(PORT));
			Bomba::HttpClient<> client(net, "example.com");
			static_cast<Bomba::IRemoteCallable&>(alone ? static_cast<Bomba::IRemoteCallable&>(remoteAlone) : *remote.top).setResponder(client);
			struct Flight { Made* made; std::unique_ptr<Pending> pending; };
			std::vector<Flight> open;
			auto judge = [&] (Made* m, auto f) {
				const FormCall& call = m->call;
				doing = cut(call.text);
				try { m->got = f(); }
				catch (std::exception& e) {
					note("%s threw %s", doing.c_str(), e.what());
					if (!call.fails) violation("call-threw", who + doing + " over a working connection threw " + exceptionText(e));
					m->got = "threw";
					return;
				}
				if (call.fails) violation("failure-lost", who + doing + " threw on the server but returned " + cut(m->got));
				note("%s gave %s", doing.c_str(), cut(m->got).c_str());
			};
			auto collect = [&] (size_t i) {
				Flight f = std::move(open[i]);
				open.erase(open.begin() + i);
				if (chance(WORK, 300)) {
					uint64_t waits = sim::waitCount();
					bool ready = f.pending->ready();
					if (sim::waitCount() != waits) violation("poll-waits", who + "asking if " + cut(f.made->call.text) + " is ready waited for the network");
					judge(f.made, [&] { return f.pending->get(); });
					if (ready && sim::waitCount() != waits) violation("ready-but-waits", who + cut(f.made->call.text) + " was reported ready but collecting it had to wait");
				} else judge(f.made, [&] { return f.pending->get(); });
			};
			int total = 1 + choose(WORK, 9);
			while (total > 0 || !open.empty()) {
				int what = choose(WORK, 10);
				if (total > 0 && (what < 5 || open.empty())) {
					total--;
					made[c].push_back(std::make_unique<Made>(Made{genForm(tag, alone, results, maxText), "discarded"}));
					Made* m = made[c].back().get();
					doing = "starting " + cut(m->call.text);
					note("client %d: %s", c, doing.c_str());
					if (pipelined && choose(WORK, 3)) open.push_back({m, m->call.start(remote.tool, remoteAlone)});
					else judge(m, [&] { return m->call.run(remote.tool, remoteAlone); });
				} else if (what < 8 && !open.empty()) collect(choose(WORK, open.size()));
				else if (what == 8 && !open.empty() && chance(WORK, 200)) open.erase(open.begin() + choose(WORK, open.size()));
				else if (chance(WORK, 300)) sim::sleepFor(range(WORK, 0, 20) * MS);
			}
			Made* last;
			made[c].push_back(std::make_unique<Made>(Made{alone ? makeForm<void>("alone", [] (FormTool&, Alone& a) -> auto& { return a; }, tag, 1, true) : FORM(void, set, tag, true, std::optional<int>()), "discarded"}));
			last = made[c].back().get();
			judge(last, [&] { return last->call.run(remote.tool, remoteAlone); }); // discarded ones have run when this one has
		} catch (std::exception& e) { violation("call-threw", who + doing + " over a working connection threw " + exceptionText(e)); }
	});
	fibers.joinAll();
	// The order of execution on the server is the order that must explain all results.  Which client made which of
	// several equal calls may not be known until later.
	Impl model;
	std::set<std::vector<size_t>> states = {std::vector<size_t>(clients, 0)};
	for (auto& entry : served.impl.log) {
		std::set<std::vector<size_t>> after;
		std::string expected;
		for (auto& s : states) for (int c = 0; c < clients; c++) {
			if (s[c] >= made[c].size() || made[c][s[c]]->call.text != entry) continue;
			const Made& m = *made[c][s[c]];
			if (expected.empty()) expected = m.call.model(model);
			if (!m.call.fails && m.got != "discarded" && m.got != expected) continue;
			auto n = s;
			n[c]++;
			after.insert(n);
		}
		if (after.empty()) {
			std::string want;
			for (int c = 0; c < clients; c++) if (states.begin()->at(c) < made[c].size()) { const Made& m = *made[c][states.begin()->at(c)]; want += " [" + cut(m.call.text) + " that gave " + cut(m.got) + "]"; }
			violation(expected.empty() ? "wrong-execution" : "wrong-result", "the server ran " + cut(entry) + (expected.empty() ? "" : " resulting in " + cut(expected)) + ", next expected:" + want);
		}
		states = std::move(after);
	}
	for (int c = 0; c < clients; c++) { size_t n = states.begin()->at(c); if (n < made[c].size()) violation("not-executed", cut(made[c][n]->call.text) + " was called but never ran on the server"); }
	if (!served.otherImpl.log.empty()) violation("wrong-object", "a method ran on another object: " + cut(served.otherImpl.log[0]));
	sim::count("calls", served.impl.log.size());
	if (served.impl.log.size() > 2) sim::nontrivial();
}
