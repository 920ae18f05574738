// Helpers shared by the scenarios: raw peers over the simulated sockets, an independent strict HTTP
// response parser, an independent strict JSON parser and writer, swarm configuration.
#pragma once
#include <set>
#include "kernel.hpp"
#include <string>
#include <string_view>
#include <vector>
#include <map>
#include <memory>
#include <functional>
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <thread>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#include <poll.h>
#include <errno.h>

using sim::WORK; using sim::SCHED; using sim::NET; using sim::FAULT; using sim::DISK;
using sim::choose; using sim::chance; using sim::range; using sim::violation; using sim::note; using sim::MS; using sim::US; using sim::SEC;

inline std::string cut(std::string_view s, size_t n = 160) {
	std::string r;
	for (unsigned char c : s.substr(0, n)) {
		if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
		else r += c;
	}
	if (s.size() > n) r += "...(" + std::to_string(s.size()) + " bytes)";
	return r;
}
template <typename... A> std::string fmt(const char* f, A... a) { char b[600]; snprintf(b, sizeof b, f, a...); return b; }
inline std::string firstDifference(std::string_view got, std::string_view want) {
	size_t i = 0;
	while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
	size_t from = i > 30 ? i - 30 : 0;
	return fmt("at byte %zu (got %zu bytes, expected %zu): got \"", i, got.size(), want.size()) + cut(got.substr(std::min(from, got.size())), 90) + "\", expected \"" + cut(want.substr(std::min(from, want.size())), 90) + "\"";
}

// ---- swarm configuration of a run -------------------------------------------------------------
struct NetOptions { bool smallBuffers = true, stalls = true; };
inline void swarmNet(NetOptions o = {}) {
	auto& p = sim::params();
	static const uint32_t preempt[] = {0, 20, 100, 300, 600};
	p.preemptPermille = preempt[choose(FAULT, 5)];
	p.segMode = choose(FAULT, 4);
	static const int64_t delays[] = {1, 20, 200, 3000, 40000};
	p.minDelay = 1 * US;
	p.maxDelay = delays[choose(FAULT, 5)] * US;
	if (o.smallBuffers && chance(FAULT, 400)) {
		static const size_t bufs[] = {1, 7, 64, 500, 1460, 4096, 20000};
		p.sndBuf = bufs[choose(FAULT, 7)];
		p.rcvBuf = bufs[choose(FAULT, 7)];
		sim::count("config.small-socket-buffers");
	}
	if (o.stalls && chance(FAULT, 300)) { p.stallPermille = 5 + choose(FAULT, 60); p.stallMax = 1 * SEC; }
}

// ---- raw peer ---------------------------------------------------------------------------------
struct Raw {
	int fd = -1;
	std::string in;       // everything received
	bool eof = false, failed = false;
	int err = 0;
	Raw() = default;
	Raw(const Raw&) = delete;
	~Raw() { close(); }
	bool connect(int port) {
		fd = ::socket(AF_INET, SOCK_STREAM, 0);
		if (fd < 0) { failed = true; err = errno; return false; }
		sockaddr_in a{};
		a.sin_family = AF_INET;
		a.sin_port = htons(port);
		a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		if (::connect(fd, (sockaddr*)&a, sizeof a) != 0) { err = errno; failed = true; ::close(fd); fd = -1; return false; }
		return true;
	}
	bool connectRetry(int port, int64_t forNs = 5 * SEC) {
		int64_t until = sim::now() + forNs;
		do { if (connect(port)) { failed = false; return true; } sim::sleepFor(1 * MS); } while (sim::now() < until);
		return false;
	}
	bool send(std::string_view data) {
		while (!data.empty()) {
			ssize_t n = ::send(fd, data.data(), data.size(), MSG_NOSIGNAL);
			if (n < 0) { if (errno == EINTR) continue; err = errno; failed = true; return false; }
			data.remove_prefix(n);
		}
		return true;
	}
	// Gives up when it can't be sent by then
	bool sendFor(std::string_view data, int64_t ns) {
		int64_t until = sim::now() + ns;
		while (!data.empty()) {
			ssize_t n = ::send(fd, data.data(), data.size(), MSG_NOSIGNAL | MSG_DONTWAIT);
			if (n > 0) { data.remove_prefix(n); continue; }
			if (errno == EINTR) continue;
			if (errno != EAGAIN) { err = errno; failed = true; return false; }
			if (sim::now() >= until) return false;
			pollfd p{fd, POLLOUT, 0};
			::poll(&p, 1, int(std::max<int64_t>(1, (until - sim::now()) / MS)));
		}
		return true;
	}
	// Sends in randomly chosen pieces with randomly chosen pauses
	bool sendPieces(std::string_view data, int maxPauseMs = 5) {
		while (!data.empty()) {
			size_t n = data.size();
			switch (choose(WORK, 4)) {
				case 0: break;
				case 1: n = 1 + choose(WORK, std::min<size_t>(n, 8)); break;
				case 2: n = 1 + choose(WORK, std::min<size_t>(n, 200)); break;
				case 3: n = 1 + choose(WORK, n); break;
			}
			n = std::min(n, data.size());
			if (!send(data.substr(0, n))) return false;
			data.remove_prefix(n);
			if (!data.empty() && chance(WORK, 300)) sim::sleepFor(range(WORK, 0, maxPauseMs * 1000) * US);
		}
		return true;
	}
	// Reads once; returns false at EOF or error
	bool recvSome(size_t max = 65536) {
		std::string b(max, 0);
		ssize_t n;
		do n = ::recv(fd, b.data(), max, 0); while (n < 0 && errno == EINTR);
		if (n > 0) { in.append(b.data(), n); return true; }
		if (n == 0) eof = true; else { failed = true; err = errno; }
		return false;
	}
	bool readable(int64_t ns) {
		pollfd p{fd, POLLIN, 0};
		int64_t until = sim::now() + ns;
		while (true) {
			int r = ::poll(&p, 1, int(std::max<int64_t>(0, until - sim::now()) / MS));
			if (r >= 0 || errno != EINTR) return r > 0;
		}
	}
	// Reads until pred holds, or the stream ends, or nothing has come for idleNs
	bool recvUntil(const std::function<bool()>& pred, int64_t idleNs = 60 * SEC, size_t chunk = 65536) {
		while (!pred()) {
			if (!readable(idleNs)) return false;
			if (!recvSome(chunk)) return pred();
		}
		return true;
	}
	void finish() { if (fd >= 0) ::shutdown(fd, SHUT_WR); }
	void reset() {
		if (fd < 0) return;
		linger l{1, 0};
		::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
		close();
	}
	void close() { if (fd >= 0) { ::close(fd); fd = -1; } }
};
struct Listener {
	int fd = -1;
	explicit Listener(int port) {
		fd = ::socket(AF_INET, SOCK_STREAM, 0);
		sockaddr_in a{};
		a.sin_family = AF_INET;
		a.sin_port = htons(port);
		if (::bind(fd, (sockaddr*)&a, sizeof a) || ::listen(fd, 16)) sim::harnessError("cannot listen");
	}
	bool accept(Raw& r) {
		r.close();
		r.fd = ::accept(fd, nullptr, nullptr);
		return r.fd >= 0;
	}
	void close() { if (fd >= 0) { ::close(fd); fd = -1; } }
	~Listener() { close(); }
};
inline std::string headerOf(const std::map<std::string, std::string>& h, const char* k) { auto f = h.find(k); return f == h.end() ? "" : f->second; }

// ---- HTTP, written from RFC 9112, independent of the code under test ---------------------------
struct HttpMessage {
	int status = 0;
	std::string startLine;
	std::map<std::string, std::string> headers; // lower-case names
	std::string body;
	std::string header(const char* k) const { return headerOf(headers, k); }
};
enum class Parsed { OK, MORE, BAD };
inline Parsed parseHttp(std::string_view s, size_t& pos, HttpMessage& out, std::string& why, bool response) {
	size_t p = pos;
	auto line = [&](std::string& l) -> Parsed {
		size_t e = s.find('\n', p);
		if (e == std::string_view::npos) {
			if (s.size() - p > 1 << 20) { why = "endless line"; return Parsed::BAD; }
			return Parsed::MORE;
		}
		if (e == p || s[e - 1] != '\r') { why = "line not ended by CR LF: \"" + cut(s.substr(p, e - p)) + "\""; return Parsed::BAD; }
		l = std::string(s.substr(p, e - 1 - p));
		p = e + 1;
		if (l.find('\r') != std::string::npos) { why = "stray CR in \"" + cut(l) + "\""; return Parsed::BAD; }
		return Parsed::OK;
	};
	out = HttpMessage();
	Parsed r = line(out.startLine);
	if (r != Parsed::OK) { // report garbage early
		static const std::string_view start = "HTTP/1.1 ";
		if (response && s.size() > pos && s.substr(pos, start.size()) != start.substr(0, std::min(start.size(), s.size() - pos))) { why = "not a status line: \"" + cut(s.substr(pos)) + "\""; return Parsed::BAD; }
		return r;
	}
	if (response) {
		int n = 0;
		if (sscanf(out.startLine.c_str(), "HTTP/1.1 %3d%n", &out.status, &n) != 1 || n != 12 || out.status < 100 || out.startLine.size() < 13 || out.startLine[12] != ' ') { why = "bad status line \"" + cut(out.startLine) + "\""; return Parsed::BAD; }
	}
	while (true) {
		std::string l;
		r = line(l);
		if (r != Parsed::OK) return r;
		if (l.empty()) break;
		size_t c = l.find(':');
		if (c == std::string::npos || c == 0) { why = "bad header line \"" + cut(l) + "\""; return Parsed::BAD; }
		std::string n = l.substr(0, c), v = l.substr(c + 1);
		for (char& ch : n) { if (ch == ' ' || ch == '\t') { why = "bad header name \"" + cut(l) + "\""; return Parsed::BAD; } ch = tolower(ch); }
		while (!v.empty() && (v.front() == ' ' || v.front() == '\t')) v.erase(0, 1);
		while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.pop_back();
		if (out.headers.count(n)) { why = "repeated header " + n; return Parsed::BAD; }
		out.headers[n] = v;
	}
	size_t length = 0;
	if (out.headers.count("content-length")) {
		const std::string& v = out.headers["content-length"];
		if (v.empty() || v.size() > 12 || v.find_first_not_of("0123456789") != std::string::npos) { why = "bad content length \"" + cut(v) + "\""; return Parsed::BAD; }
		length = std::stoull(v);
	} else if (response && out.status != 204 && out.status != 304 && out.status >= 200) { why = "response without content length"; return Parsed::BAD; }
	if (s.size() - p < length) return Parsed::MORE;
	out.body = std::string(s.substr(p, length));
	pos = p + length;
	return Parsed::OK;
}
inline Parsed parseResponse(std::string_view s, size_t& pos, HttpMessage& out, std::string& why) { return parseHttp(s, pos, out, why, true); }
inline Parsed parseRequest(std::string_view s, size_t& pos, HttpMessage& out, std::string& why) { return parseHttp(s, pos, out, why, false); }
// Receives until n responses are complete; false if the stream ended or went silent before
inline bool recvResponses(Raw& r, size_t& pos, size_t n, std::vector<HttpMessage>& out, std::string& why, int64_t idleNs = 60 * SEC) {
	size_t have = out.size();
	bool bad = false;
	bool ok = r.recvUntil([&] {
		while (out.size() < have + n) {
			HttpMessage m;
			Parsed p = parseResponse(r.in, pos, m, why);
			if (p == Parsed::BAD) { bad = true; return true; }
			if (p == Parsed::MORE) return false;
			out.push_back(std::move(m));
		}
		return true;
	}, idleNs);
	if (bad) return false;
	if (!ok && why.empty()) why = r.eof ? "stream ended" : r.failed ? std::string("stream failed: ") + strerror(r.err) : "no more bytes came";
	return ok;
}

// ---- JSON, written from RFC 8259 ---------------------------------------------------------------
struct JVal {
	enum Kind { NUL, BOOL, NUM, STR, ARR, OBJ } kind = NUL;
	bool b = false;
	std::string text; // number literal or string value
	std::vector<JVal> arr;
	std::vector<std::pair<std::string, JVal>> obj;
	const JVal* get(const std::string& k) const { for (auto& o : obj) if (o.first == k) return &o.second; return nullptr; }
	size_t countKey(const std::string& k) const { size_t n = 0; for (auto& o : obj) n += o.first == k; return n; }
};
struct JParser {
	std::string_view s;
	size_t p = 0;
	std::string why;
	bool fail(const std::string& w) { if (why.empty()) why = w + fmt(" at byte %zu", p); return false; }
	void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) p++; }
	bool lit(const char* l) { size_t n = strlen(l); if (s.substr(p, n) != l) return fail("bad literal"); p += n; return true; }
	static void utf8(std::string& o, uint32_t c) {
		if (c < 0x80) o += char(c);
		else if (c < 0x800) { o += char(0xc0 | c >> 6); o += char(0x80 | (c & 63)); }
		else if (c < 0x10000) { o += char(0xe0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
		else { o += char(0xf0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
	}
	bool str(std::string& o) {
		if (p >= s.size() || s[p] != '"') return fail("expected string");
		p++;
		while (true) {
			if (p >= s.size()) return fail("unterminated string");
			unsigned char c = s[p++];
			if (c == '"') return true;
			if (c < 0x20) return fail("control character in string");
			if (c != '\\') { o += char(c); continue; }
			if (p >= s.size()) return fail("unterminated escape");
			c = s[p++];
			switch (c) {
				case '"': case '\\': case '/': o += char(c); break;
				case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
				case 'u': {
					auto hex = [&](uint32_t& v) { v = 0; for (int i = 0; i < 4; i++, p++) { if (p >= s.size() || !isxdigit((unsigned char)s[p])) return fail("bad unicode escape"); char h = s[p] | 32; v = v * 16 + (h >= 'a' ? h - 'a' + 10 : h - '0'); } return true; };
					uint32_t v, w;
					if (!hex(v)) return false;
					if (v >= 0xd800 && v < 0xdc00) { if (s.substr(p, 2) != "\\u") return fail("lone surrogate"); p += 2; if (!hex(w)) return false; v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); }
					utf8(o, v);
					break;
				}
				default: return fail("bad escape");
			}
		}
	}
	bool value(JVal& v, int depth = 0) {
		if (depth > 64) return fail("too deep");
		ws();
		if (p >= s.size()) return fail("unexpected end");
		char c = s[p];
		if (c == '{') {
			v.kind = JVal::OBJ; p++; ws();
			if (p < s.size() && s[p] == '}') { p++; return true; }
			while (true) {
				ws();
				std::string k; JVal m;
				if (!str(k)) return false;
				ws();
				if (p >= s.size() || s[p] != ':') return fail("expected :");
				p++;
				if (!value(m, depth + 1)) return false;
				v.obj.emplace_back(std::move(k), std::move(m));
				ws();
				if (p < s.size() && s[p] == ',') { p++; continue; }
				if (p < s.size() && s[p] == '}') { p++; return true; }
				return fail("expected , or }");
			}
		}
		if (c == '[') {
			v.kind = JVal::ARR; p++; ws();
			if (p < s.size() && s[p] == ']') { p++; return true; }
			while (true) {
				JVal m;
				if (!value(m, depth + 1)) return false;
				v.arr.push_back(std::move(m));
				ws();
				if (p < s.size() && s[p] == ',') { p++; continue; }
				if (p < s.size() && s[p] == ']') { p++; return true; }
				return fail("expected , or ]");
			}
		}
		if (c == '"') { v.kind = JVal::STR; return str(v.text); }
		if (c == 't') { v.kind = JVal::BOOL; v.b = true; return lit("true"); }
		if (c == 'f') { v.kind = JVal::BOOL; return lit("false"); }
		if (c == 'n') return lit("null");
		size_t b = p;
		if (c == '-') p++;
		if (p >= s.size() || !isdigit((unsigned char)s[p])) return fail("unexpected character");
		if (s[p] == '0') p++; else while (p < s.size() && isdigit((unsigned char)s[p])) p++;
		if (p < s.size() && s[p] == '.') { p++; if (p >= s.size() || !isdigit((unsigned char)s[p])) return fail("bad number"); while (p < s.size() && isdigit((unsigned char)s[p])) p++; }
		if (p < s.size() && (s[p] | 32) == 'e') { p++; if (p < s.size() && (s[p] == '+' || s[p] == '-')) p++; if (p >= s.size() || !isdigit((unsigned char)s[p])) return fail("bad number"); while (p < s.size() && isdigit((unsigned char)s[p])) p++; }
		v.kind = JVal::NUM;
		v.text = std::string(s.substr(b, p - b));
		return true;
	}
	bool whole(JVal& v) { if (!value(v)) return false; ws(); return p == s.size() || fail("trailing characters"); }
};
inline bool parseJson(std::string_view s, JVal& v, std::string& why) { JParser p{s}; bool ok = p.whole(v); why = p.why; return ok; }
// Writes a string literal, choosing between the legal spellings of each character
inline std::string jsonString(std::string_view s, bool vary = true) {
	std::string o = "\"";
	for (size_t i = 0; i < s.size(); i++) {
		unsigned char c = s[i];
		const char* shorts = nullptr;
		switch (c) { case '"': shorts = "\\\""; break; case '\\': shorts = "\\\\"; break; case '\n': shorts = "\\n"; break; case '\r': shorts = "\\r"; break; case '\t': shorts = "\\t"; break; case '\b': shorts = "\\b"; break; case '\f': shorts = "\\f"; break; }
		bool unicode = c < 128 && (shorts ? vary && chance(WORK, 200) : c < 32 || (vary && chance(WORK, 10)));
		if (vary && c >= 0xc2 && chance(WORK, 100)) { // A character that isn't in ASCII may be escaped too
			int length = c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
			uint32_t code = c & (0xff >> (length + 1));
			bool valid = c < 0xf5 && i + length <= s.size();
			for (int k = 1; valid && k < length; k++) { valid = (s[i + k] & 0xc0) == 0x80; code = code << 6 | (s[i + k] & 0x3f); }
			valid = valid && code >= (length == 2 ? 0x80 : length == 3 ? 0x800 : 0x10000) && code < 0x110000 && (code < 0xd800 || code > 0xdfff);
			if (valid) {
				const char* form = choose(WORK, 2) ? "\\u%04X" : "\\u%04x";
				if (code < 0x10000) o += fmt(form, code); else o += fmt(form, 0xd800 + ((code - 0x10000) >> 10)) + fmt(form, 0xdc00 + ((code - 0x10000) & 0x3ff));
				i += length - 1;
				continue;
			}
		}
		if (unicode) o += fmt(choose(WORK, 2) ? "\\u%04X" : "\\u%04x", c);
		else if (shorts) o += shorts;
		else if (c == '/' && vary && chance(WORK, 200)) o += "\\/";
		else o += char(c);
	}
	return o + "\"";
}
inline std::string jsonSpace() {
	static const char* sp[] = {"", "", "", " ", "\n", "\t", "  ", "\r\n\t"};
	return sp[choose(WORK, 8)];
}

// ---- value generators --------------------------------------------------------------------------
inline std::string genText(size_t maxLen = 6000, bool anyByte = false) {
	size_t len;
	switch (choose(WORK, 8)) {
		case 0: len = 0; break;
		case 6: len = std::min<size_t>(maxLen, 900 + choose(WORK, 300)); break;
		case 7: len = choose(WORK, maxLen + 1); break;
		default: len = choose(WORK, 24); break;
	}
	int style = choose(WORK, 4);
	std::string s;
	if (len > 300) { // long texts: few choices
		uint32_t x = choose(WORK, 1u << 30) | 1;
		while (s.size() < len) { x = x * 1664525 + 1013904223; unsigned v = x >> 16; s += style == 0 ? char('a' + v % 26) : style == 1 ? "\"\\\n{}[],: ab\t"[v % 13] : char(32 + v % 95); }
		return s;
	}
	static const char* specials[] = {"\"", "\\", "\n", "\t", "\r", "/", "{", "}", "[", "]", ",", ":", "&", "=", "%", "+", "?", "#", ";", "<", " ", "'", "\\n", "null", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc8\x80", "\xe0\xa0\x80", "\x01", "\x1f", "\x7f", "\b", "\f", "&#123;", "\\u0041"};
	while (s.size() < len) {
		switch (style) {
			case 0: s += char('a' + choose(WORK, 26)); break;
			case 1: s += char(32 + choose(WORK, 95)); break;
			case 2: s += specials[choose(WORK, sizeof specials / sizeof *specials)]; break;
			case 3: if (anyByte) s += char(choose(WORK, 256)); else s += specials[choose(WORK, sizeof specials / sizeof *specials)]; break;
		}
	}
	return s;
}
inline int64_t genInt(int bits, bool sign) {
	int64_t max = bits == 64 ? INT64_MAX : (sign ? (1ll << (bits - 1)) - 1 : (1ll << bits) - 1);
	int64_t min = sign ? (bits == 64 ? INT64_MIN : -(1ll << (bits - 1))) : 0;
	switch (choose(WORK, 6)) {
		case 0: return choose(WORK, 10);
		case 1: return sign ? -int64_t(choose(WORK, 10)) : choose(WORK, 100);
		case 2: return max - choose(WORK, 2);
		case 3: return min + choose(WORK, 2);
		case 4: { int64_t v = (int64_t(choose(WORK, 1u << 31)) << 32) + choose(WORK, 0xffffffffu); if (sign && chance(WORK, 500)) v = -v; v >>= choose(WORK, 63); return std::clamp(v, min, max); }
		default: return std::clamp<int64_t>(choose(WORK, 100000), min, max);
	}
}
inline bool anyDouble = false; // if the format can write any
inline double genDouble() {
	if (anyDouble && chance(WORK, 80)) return (choose(WORK, 2) ? -1 : 1) * std::numeric_limits<double>::infinity();
	static const double v[] = {0, 1, -1, 0.1, -0.1, 1.5, 3.141592653589793, -2.718281828459045e-7, 1e100, -1.2345678901234567e-100, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, 123456789.123456789, -9007199254740993.0, 1e21, 1e-7, 4e9, -0.0};
	if (chance(WORK, 700)) return v[choose(WORK, sizeof v / sizeof *v)];
	return (int64_t(choose(WORK, 2000000)) - 1000000) / 977.0;
}
template <typename T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[choose(WORK, i)]); }

// ---- a fiber started on destruction-safe terms --------------------------------------------------
struct Fibers {
	std::vector<int> ids;
	void start(const std::string& name, std::function<void()> f) { ids.push_back(sim::spawn(name, std::move(f))); }
	void joinAll() { for (int i : ids) sim::join(i); ids.clear(); }
};

// Is the log an interleaving of the lists? Judged with all ways of telling equal entries apart.
inline void judgeInterleaving(const std::vector<std::string>& log, const std::vector<std::vector<std::string>>& lists) {
	std::set<std::vector<size_t>> states = {std::vector<size_t>(lists.size(), 0)};
	for (auto& entry : log) {
		std::set<std::vector<size_t>> after;
		for (auto& s : states) for (size_t c = 0; c < lists.size(); c++) if (s[c] < lists[c].size() && lists[c][s[c]] == entry) { auto n = s; n[c]++; after.insert(n); }
		if (after.empty()) {
			std::string want;
			for (size_t c = 0; c < lists.size(); c++) want += " [" + (states.begin()->at(c) < lists[c].size() ? cut(lists[c][states.begin()->at(c)]) : "nothing") + "]";
			violation("wrong-execution", "the server ran " + cut(entry, 400) + ", next expected from each peer:" + want);
		}
		states = std::move(after);
	}
	auto& s = *states.begin();
	for (size_t c = 0; c < lists.size(); c++) if (s[c] < lists[c].size()) violation("not-executed", cut(lists[c][s[c]]) + " never ran");
}
