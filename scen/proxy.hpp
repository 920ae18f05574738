// A party between client and server that controls when and in what form responses arrive.
#pragma once
#include "common.hpp"

struct Proxy {
	struct Link {
		Raw client, server;
		std::string out;                 // what goes to the client, complete
		size_t sent = 0, parsed = 0;     // bytes handed to the client's connection; bytes of server.in cut into messages
		std::vector<size_t> ends;        // where each response ends in out
		bool serverEnded = false, ended = false;
		size_t cutAt = SIZE_MAX;         // close when that many bytes have been sent
		bool cutByReset = false;
		int64_t idleClose = 0;           // close when nothing has come for that long
	};
	Listener front;
	int backPort;
	size_t (*framer)(std::string_view);  // length of the first complete message, 0 if incomplete
	std::function<std::string(size_t, std::string)> transform;
	std::function<void(Link&)> onLink;
	std::vector<std::shared_ptr<Link>> links;
	int pace;                            // how responses are released
	bool done = false;

	Proxy(int port, int backPort, size_t (*framer)(std::string_view)) : front(port), backPort(backPort), framer(framer), pace(choose(WORK, 4)) {}
	// The fibers share ownership: they may outlive the scenario's own use of it
	static void start(std::shared_ptr<Proxy> p) {
		sim::spawn("proxy", [p] {
			while (true) {
				auto link = std::make_shared<Link>();
				if (!p->front.accept(link->client)) return;
				if (!link->server.connectRetry(p->backPort, 1 * SEC)) continue;
				if (p->onLink) p->onLink(*link);
				p->links.push_back(link);
				sim::spawn("proxy-up", [p, link] {
					while (link->client.recvSome() && link->server.send(link->client.in)) link->client.in.clear();
					link->server.finish();
					while (!link->client.eof && !link->client.failed && link->client.recvSome()) link->client.in.clear(); // nobody would read it otherwise
				});
				sim::spawn("proxy-down", [p, link] {
					while (true) {
						bool more = link->server.recvSome();
						std::string_view in = link->server.in;
						while (size_t n = p->framer(in.substr(link->parsed))) {
							std::string message(in.substr(link->parsed, n));
							link->parsed += n;
							link->out += p->transform ? p->transform(link->ends.size(), message) : message;
							link->ends.push_back(link->out.size());
						}
						if (!more) break;
					}
					link->serverEnded = true;
				});
				sim::spawn("proxy-release", [p, link] { p->release(*link); });
			}
		});
	}
	void release(Link& l) {
		int64_t idleSince = sim::now();
		while (true) {
			if (l.sent >= l.cutAt) { end(l); return; }
			if (l.sent == l.out.size()) {
				if (l.serverEnded || (l.idleClose && sim::now() - idleSince > l.idleClose)) { end(l); return; }
				sim::sleepFor(500 * US);
				continue;
			}
			size_t n = l.out.size() - l.sent;
			switch (pace) {
				case 0: break;
				case 1: n = 1 + choose(WORK, n); sim::sleepFor(range(WORK, 0, 20) * MS); break;
				case 2: n = std::min<size_t>(n, 1 + choose(WORK, n > 2000 ? 600 : 60)); sim::sleepFor(range(WORK, 0, 5) * MS); break;
				case 3: n = 1 + choose(WORK, n); if (chance(WORK, 500)) sim::sleepFor(range(WORK, 0, 400) * MS); break;
			}
			n = std::min(n, l.cutAt - l.sent);
			std::string piece = l.out.substr(l.sent, n);
			l.sent += n;
			if (!l.client.send(piece)) { l.ended = true; return; }
			idleSince = sim::now();
		}
	}
	void end(Link& l) {
		l.ended = true;
		if (l.cutByReset) sim::killConnectionOfFd(l.client.fd);
		else l.client.finish();
	}
};
