// HTTP requests whose responses are known, shared by scenarios.
#pragma once
#include "rpc.hpp"
#include "bomba_http.hpp"

// ---- responders whose responses are a function of the request -----------------------------------
inline std::string content(uint32_t seed, size_t n) {
	std::string s;
	uint32_t x = seed * 2654435761u + 12345;
	while (s.size() < n) { x = x * 1664525 + 1013904223; s += seed % 3 == 0 ? char(x >> 24) : seed % 3 == 1 ? "\r\n: HTTP/1.1 200 OK"[(x >> 20) % 19] : char('a' + (x >> 24) % 26); }
	return s;
}
// Writes it the way a producer might: in one, in pieces, byte by byte
inline void produce(Bomba::GeneralisedBuffer& out, std::string_view s, uint32_t seed) {
	uint32_t x = seed + 7;
	int style = seed / 3 % 4;
	while (!s.empty()) {
		x = x * 1664525 + 1013904223;
		size_t n = style == 0 ? s.size() : style == 1 ? 1 + (x >> 16) % 50 : style == 2 ? 1 + (x >> 16) % 3000 : s.size() > 3000 ? s.size() - 1500 : 1;
		n = std::min(n, s.size());
		if (n == 1) out += s[0]; else out += s.substr(0, n);
		s.remove_prefix(n);
	}
}
struct Producer : Bomba::IHttpGetResponder, Bomba::IHttpPostResponder {
	std::vector<std::string> handled;
	std::function<void()> onHandle;
	bool respond(const std::string& what, uint32_t seed, size_t size, const std::string& type, Bomba::IWriteStarter& w, std::string_view prefix) {
		if (onHandle) onHandle();
		if (what == "none" || size > 2000000) return false;
		if (what == "empty") return true;
		if (what == "throw") throw std::runtime_error("no");
		std::string c = std::string(prefix) + content(seed, size);
		if (what == "known") w.writeKnownSize(type, c.size(), [&] (Bomba::GeneralisedBuffer& out) { produce(out, c, seed); });
		else if (what == "unknown") w.writeUnknownSize(type, [&] (Bomba::GeneralisedBuffer& out) { produce(out, c, seed); });
		else if (what == "unknownfail") w.writeUnknownSize(type, [&] (Bomba::GeneralisedBuffer& out) { produce(out, std::string_view(c).substr(0, c.size() / 2), seed); throw std::runtime_error("midway"); });
		else if (what == "knownfail") w.writeKnownSize(type, c.size() + 1, [&] (Bomba::GeneralisedBuffer& out) { produce(out, std::string_view(c).substr(0, seed % (c.size() + 1)), seed); throw std::runtime_error("midway"); });
		else if (what == "knownshort") w.writeKnownSize(type, c.size() + 1, [&] (Bomba::GeneralisedBuffer& out) { produce(out, std::string_view(c).substr(0, seed % (c.size() + 1)), seed); });
		else return false;
		return true;
	}
	bool handle(std::string_view path, Bomba::IWriteStarter& w, std::string_view prefix) {
		char what[32] = {}, type[64] = {};
		unsigned seed = 0, size = 0;
		if (sscanf(std::string(path).c_str(), "/%30[a-z]/%u/%u/%60s", what, &seed, &size, type) < 3) return false;
		return respond(what, seed, size, type, w, prefix);
	}
	bool get(std::string_view path, Bomba::IWriteStarter& w) override { handled.push_back("GET " + std::string(path)); return handle(path, w, ""); }
	bool post(std::string_view path, std::string_view type, std::span<char> body, Bomba::IWriteStarter& w) override {
		handled.push_back("POST " + std::string(path) + " " + std::string(type) + " " + std::string(body.data(), body.size()));
		return handle(path, w, std::string(type) + "|" + std::string(body.data(), body.size()) + "|");
	}
};
struct Req {
	std::string bytes, what, handled, type, body;
	int status = 0;
	bool close = false, breaks = false; // after it the connection is closed; in the middle of its response
	bool hasBody = true;                // the response's body is predicted
};
inline std::string headerLines(std::vector<std::string> headers, bool rich, size_t longest = 3000) {
	bool connection = false; // only one such header
	for (auto& h : headers) connection |= h.find("onnection") != std::string::npos;
	if (rich) for (int n = choose(WORK, 4); n > 0; n--) headers.push_back(pick(WORK, std::vector<std::string>{"User-Agent: test", "Accept: */*", "Accept:text/html;q=0.9", "Cookie: " + std::string(choose(WORK, longest), 'c'), "X-A:  spaced", "Content: 12", "Length: 77", "X-Content-Length: 99", "Referer: http://x/y?z=1:2", "Connection: keep-alive", "X-E: \tq"}));
	shuffle(headers);
	std::string r;
	for (auto& h : headers) {
		if (h == "Connection: keep-alive") { if (connection) continue; connection = true; }
		size_t colon = h.find(':');
		if (rich && chance(WORK, 200)) for (size_t i = 0; i < colon; i++) h[i] = chance(WORK, 500) ? toupper(h[i]) : tolower(h[i]);
		r += h + "\r\n";
	}
	return r;
}
inline Req makeReq(size_t maxSize, bool failures, bool mayClose, int tag) {
	Req r;
	r.close = mayClose;
	bool post = chance(WORK, 450);
	int pickWhat = choose(WORK, failures ? 13 : 10);
	r.what = pickWhat < 4 ? "known" : pickWhat < 7 ? "unknown" : pickWhat == 7 ? "none" : pickWhat == 8 ? "empty" : pickWhat == 9 ? "throw" : pickWhat == 10 ? "unknownfail" : pickWhat == 11 ? "knownfail" : "knownshort";
	if (pickWhat == 9 && !failures) r.what = "known";
	unsigned seed = choose(WORK, 100000), size = 0;
	switch (choose(WORK, 6)) { case 0: size = 0; break; case 1: size = 900 + choose(WORK, 300); break; case 2: size = choose(WORK, maxSize + 1); break; case 3: size = 2000 + choose(WORK, 2200); break; default: size = choose(WORK, 60); }
	if (size > maxSize) size = choose(WORK, maxSize + 1);
	r.type = pick(WORK, std::vector<std::string>{"text/plain", "application/octet-stream", "image/svg+xml;charset=utf-8"});
	size_t longestHeader = maxSize > 3000 && chance(WORK, 40) ? 40000 : 3000, padding = maxSize > 3000 && chance(WORK, 40) ? choose(WORK, 10000) : 0;
	std::string path = "/" + r.what + "/" + std::string(padding, '0') + std::to_string(seed) + "/" + std::to_string(size) + "/" + r.type;
	std::vector<std::string> headers = {"Host: example.com"};
	if (r.close) headers.push_back("Connection: close");
	std::string version = chance(WORK, 900) ? "HTTP/1.1" : "HTTP/1.0";
	std::string body, prefix;
	if (chance(WORK, 80)) { // Not supported
		r.status = 501;
		r.hasBody = false;
		bool withBody = chance(WORK, 500);
		if (withBody) { body = content(seed, choose(WORK, 3000)); headers.push_back("Content-Length: " + std::to_string(body.size())); }
		r.bytes = (chance(WORK, 800) ? pick(WORK, std::vector<std::string>{"PUT", "DELETE", "OPTIONS", "PATCH", "GETX", "get"}) + " " + path + " HTTP/1.1" : "GET " + path + " HTTP/2.7") + "\r\n" + headerLines(headers, true) + "\r\n" + body;
		r.what = "unsupported";
		return r;
	}
	if (post) {
		std::string type = pick(WORK, std::vector<std::string>{"text/plain", "application/x-thing", ""});
		if (!type.empty()) headers.push_back("Content-Type: " + type);
		size_t n = chance(WORK, 300) ? choose(WORK, maxSize + 1) : choose(WORK, 200);
		body = content(choose(WORK, 1000), n);
		if (chance(WORK, 300)) body = std::to_string(tag) + "GET / HTTP/1.1\r\n\r\n" + body;
		headers.push_back("Content-Length: " + std::to_string(body.size()));
		if (type.empty()) { r.handled = ""; } // the handler sees whatever stands for no type
		r.handled = "POST " + path + " " + type + " " + body;
		prefix = type + "|" + body + "|";
		if (type.empty()) headers.push_back("Content-Type:text/none"), r.handled = "POST " + path + " text/none " + body, prefix = "text/none|" + body + "|";
	} else {
		if (chance(WORK, 150)) { body = content(seed + 1, choose(WORK, 2500)); headers.push_back("Content-Length: " + std::to_string(body.size())); }
		r.handled = "GET " + path;
	}
	r.bytes = (post ? "POST " : "GET ") + path + " " + version + "\r\n" + headerLines(headers, true, longestHeader) + "\r\n" + body;
	std::string full = prefix + content(seed, size);
	if (r.what == "known" || r.what == "unknown") { r.status = 200; r.body = full; }
	else if (r.what == "empty") { r.status = 204; r.body = ""; }
	else if (r.what == "none") { r.status = post ? 400 : 404; r.hasBody = false; }
	else if (r.what == "throw" || r.what == "unknownfail") { r.status = 500; r.hasBody = false; }
	else { r.status = 200; r.body = full.substr(0, seed % (full.size() + 1)); r.breaks = true; }
	return r;
}
inline std::string formText(size_t max) {
	std::string s = genText(max);
	// A text that looks like an entity can't be told from one
	for (size_t at; (at = s.find("&#")) != std::string::npos;) s.replace(at, 2, "&x");
	for (size_t at; (at = s.find('\0')) != std::string::npos;) s[at] = 'x';
	if (chance(WORK, 150)) s += "&123";
	return s;
}
inline std::string numText(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
inline std::string join(std::vector<std::string> parts, bool keepOrder = false) {
	if (!keepOrder) shuffle(parts);
	std::string r;
	for (auto& x : parts) r += (r.empty() ? "" : ",") + jsonSpace() + x + jsonSpace();
	return r;
}
inline std::string pair(const std::string& k, const std::string& v) { return jsonString(k, chance(WORK, 50)) + jsonSpace() + ":" + jsonSpace() + v; }
