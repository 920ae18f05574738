// File servers: F01, F02, F03, F04, F05.
#include "world.hpp"
#include "bomba_download_server.hpp"

// ---- what is on the simulated disk ---------------------------------------------------------------
// Paths of files are as requested: "/folder/name".
using Files = std::map<std::string, std::string>;
static std::string lower(std::string s) { for (char& c : s) c = tolower(c); return s; }
// Types that may be given to a file, restated from the documented table
static bool typeFits(const std::string& path, const std::string& type) {
	static const std::map<std::string, std::string> known = {{"html", "text/html"}, {"js", "text/javascript"}, {"css", "text/css"}, {"json", "application/json"}, {"jpg", "image/jpeg"}, {"jpeg", "image/jpeg"}, {"png", "image/png"}, {"gif", "image/gif"}, {"ico", "image/vnd.microsoft.icon"}, {"svg", "image/svg+xml"}, {"bmp", "image/bmp"}, {"ttf", "font/ttf"}, {"gz", "application/gzip"}, {"xml", "application/xml"}};
	std::string name = path.substr(path.rfind('/') + 1);
	size_t dot = name.rfind('.');
	std::string extension = dot == std::string::npos || dot == 0 ? "" : name.substr(dot + 1);
	if (extension.empty()) return type == "application/octet-stream";
	auto f = known.find(extension);
	if (f != known.end()) return type == f->second;
	if (type == "application/" + extension) return true;
	if (lower(extension) == extension) return false;
	f = known.find(lower(extension)); // capital letters: as such or as the small ones
	return type == (f != known.end() ? f->second : "application/" + lower(extension));
}
static std::string genName(bool extension = true) {
	static const char* stems[] = {"a", "data", "x-1", "Page", "long_name_of_a_file_that_goes_on_and_on", "50%25", "b+c", "v1.2", "\xc5\xbe", "~", "index", "a=b&c", "x'y(z)", "#"};
	static const char* extensions[] = {"", ".html", ".js", ".css", ".json", ".png", ".ttf", ".gz", ".xml", ".txt", ".tar.gz", ".weird", ".", ".HTML", ".Jpg", ".ico", ".svg", ".jpeg", ".gif", ".bmp", ".jpg"};
	std::string s = stems[choose(WORK, sizeof stems / sizeof *stems)];
	if (chance(WORK, 300)) s += std::to_string(choose(WORK, 30));
	return extension ? s + extensions[choose(WORK, sizeof extensions / sizeof *extensions)] : s;
}
static size_t genSize(size_t most) {
	size_t n;
	switch (choose(WORK, 7)) {
		case 0: n = 0; break;
		case 1: n = 4096 * (1 + choose(WORK, 3)) - 1 + choose(WORK, 3); break;
		case 2: n = choose(WORK, most + 1); break;
		case 3: n = 900 + choose(WORK, 300); break;
		default: n = choose(WORK, 100);
	}
	return n > most ? choose(WORK, most + 1) : n;
}
static std::string genContent(size_t most) { return content(choose(WORK, 100000), genSize(most)); }
struct Folder {
	std::string root, given;          // where it is; how it is called
	std::vector<std::string> folders = {""};
	Files files;
	Folder() {
		switch (choose(WORK, 5)) {
			case 0: root = "/srv/www"; given = "/srv/www/"; break;
			case 1: root = "/cwd/www"; given = "www"; break;
			case 2: root = "/srv/www"; given = "/srv/other/../www"; break;
			case 3: root = "/cwd/www"; given = "./www/"; break;
			default: root = given = "/srv/www";
		}
		sim::fsReset();
		sim::fsMkdir("/srv/other");
		sim::fsMkdir("/cwd");
		sim::fsMkdir(root);
		sim::params().unknownDtype = chance(DISK, 200);
	}
	void write(const std::string& path, const std::string& c, bool replace = false) {
		if (replace) sim::fsRemove(root + path);
		sim::fsWrite(root + path, c);
		files[path] = c;
	}
	std::string newPath() {
		std::string folder = folders[choose(WORK, folders.size())];
		if (folder.empty() && chance(WORK, 150)) return "/index.html";
		while (true) {
			std::string p = folder + "/" + genName();
			bool clash = false; // not a folder
			for (auto& f : folders) clash |= f == p;
			if (!clash) return p;
		}
	}
	void fill(size_t most, int count) {
		for (int n = choose(WORK, 4); n > 0; n--) {
			std::string p = folders[choose(WORK, folders.size())] + "/" + genName(false) + "_f"; // no file is called so
			if (chance(WORK, 300)) p += ".d";
			folders.push_back(p);
			sim::fsMkdir(root + p);
		}
		if (chance(WORK, 120)) { // deep
			std::string p = folders[choose(WORK, folders.size())];
			for (int n = 2 + choose(WORK, 12); n > 0; n--) {
				p += "/" + genName(false) + "_f";
				folders.push_back(p);
				sim::fsMkdir(root + p);
			}
		}
		for (int n = choose(WORK, count); n > 0; n--) write(newPath(), genContent(most));
		if (chance(WORK, 700)) write("/index.html", genContent(most));
	}
	std::string anyPath() const {
		if (files.empty()) return "/index.html";
		auto i = files.begin();
		std::advance(i, choose(WORK, files.size()));
		return i->first;
	}
};
static std::string request(const std::string& path, bool rich = false) { return "GET " + path + " HTTP/1.1\r\n" + headerLines({"Host: x"}, rich) + "\r\n"; }
// The response to one request already sent
static HttpMessage response(Raw& raw, size_t& pos, const std::string& path, int64_t idle = IDLE) {
	HttpMessage m;
	std::string why;
	Parsed p = Parsed::MORE;
	raw.recvUntil([&] { return (p = parseResponse(raw.in, pos, m, why)) != Parsed::MORE; }, idle);
	if (p == Parsed::BAD) violation("malformed", "the response to GET " + cut(path) + " is malformed: " + why);
	if (p == Parsed::MORE) violation("no-response", "GET " + cut(path) + " isn't answered" + (raw.eof ? ", the connection was closed" : raw.failed ? ", the connection failed" : ", nothing comes") + (raw.in.size() > pos ? " after " + cut(std::string_view(raw.in).substr(pos)) : ""));
	return m;
}
static HttpMessage fetch(Raw& raw, size_t& pos, const std::string& path) {
	if (!raw.send(request(path))) violation("connection-lost", "can't send GET " + cut(path));
	return response(raw, pos, path);
}
static void judgeFile(const HttpMessage& m, const std::string& path, const std::string* want, const std::string& named) {
	if (!want) {
		if (m.status < 400 || m.status > 599) violation("should-fail", fmt("status %d for ", m.status) + cut(path) + ", which isn't there, with " + cut(m.body));
		return;
	}
	if (m.status != 200) violation("not-served", fmt("status %d for ", m.status) + cut(path) + fmt(" of %zu bytes", want->size()));
	if (m.body != *want) violation("wrong-content", "of " + cut(path) + ": " + firstDifference(m.body, *want));
	if (!typeFits(named, m.header("content-type"))) violation("wrong-type", cut(path) + " has type " + cut(m.header("content-type")));
}
struct AnyFileServer { // one of the two kinds
	std::unique_ptr<Bomba::DynamicFileServer> dynamic;
	std::unique_ptr<Bomba::CachingFileServer> caching;
	Bomba::IHttpGetResponder& get() { return dynamic ? static_cast<Bomba::IHttpGetResponder&>(*dynamic) : *caching; }
};
static const std::string* lookUp(const Files& files, const std::string& path) { auto f = files.find(path); return f == files.end() ? nullptr : &f->second; }

// ---- F01 ----------------------------------------------------------------------------------------
SCENARIO(file_content) {
	swarmNet();
	auto& p = sim::params();
	if (chance(FAULT, 150)) p.eintrPermille = 30;
	if (chance(FAULT, 300)) { p.diskFaults = true; p.shortReadPermille = 300; } // allowed at any time
	size_t buffer = std::min({p.sndBuf, p.rcvBuf, size_t(p.segMode == 2 ? 50 : 100000)});
	size_t most = buffer < 20 ? 500 : buffer < 100 ? 4500 : chance(WORK, 200) ? 40000 : 9000;
	Folder disk;
	disk.fill(most, 14);
	for (int n = choose(WORK, 3); n > 0; n--) sim::fsSpecial(disk.root + disk.folders[choose(WORK, disk.folders.size())] + "/pipe" + std::to_string(n));
	std::string missing = "/missing.txt";
	sim::fsSymlink(disk.root + "/broken", "nothing");
	if (!disk.files.empty() && chance(WORK, 300)) { std::string t = disk.anyPath(); sim::fsSymlink(disk.root + "/link.txt", disk.root + t); disk.files["/link.txt"] = disk.files[t]; }
	AnyFileServer server;
	bool caching = choose(WORK, 2);
	if (caching) server.caching = std::make_unique<Bomba::CachingFileServer>(disk.given);
	else server.dynamic = std::make_unique<Bomba::DynamicFileServer>(disk.given);
	Files files = disk.files;
	const std::string* index = lookUp(disk.files, "/index.html");
	for (int n = choose(WORK, 4); n > 0; n--) { // they take precedence
		std::string path = chance(WORK, 200) ? disk.anyPath() : disk.newPath();
		if (path == "/index.html") continue;
		std::string c = genContent(most);
		files[path] = c;
		if (caching) { if (choose(WORK, 2)) server.caching->addGeneratedFile(path.substr(1), c); else server.caching->addGeneratedFile(path.substr(1), std::vector<char>(c.begin(), c.end())); }
		else {
			bool known = choose(WORK, 2);
			uint32_t seed = choose(WORK, 1000);
			server.dynamic->addGeneratedFile(path.substr(1), known, [c, known, seed] (Bomba::Callback<void(std::span<const char>)> write) {
				std::string_view rest = c;
				while (!rest.empty() || known) {
					size_t n = known ? rest.size() : std::min<size_t>(rest.size(), 1 + (rest.size() * 7919 + seed) % (seed % 3 ? 3000 : 40));
					std::string piece(rest.substr(0, n)); // gone after the call
					write(std::span<const char>(piece.data(), piece.size()));
					rest.remove_prefix(n);
					if (known) break;
				}
			});
		}
	}
	auto wanted = [&] (const std::string& path, std::string& named) -> const std::string* {
		named = path;
		if (path == "/" || (!caching && path.back() == '/')) { named = "/index.html"; return index; }
		return lookUp(files, path);
	};
	// Another server in the same process, of another folder that has different files at the same places
	bool two = chance(WORK, 250);
	Files otherFiles;
	AnyFileServer otherServer;
	if (two) {
		sim::count("config.two-servers");
		std::string root = "/srv/more";
		sim::fsMkdir(root);
		for (auto& f : disk.folders) if (!f.empty()) sim::fsMkdir(root + f);
		for (auto& [path, c] : files) if (chance(WORK, 700)) sim::fsWrite(root + path, otherFiles[path] = genContent(std::min<size_t>(most, 1000)));
		if (caching) otherServer.caching = std::make_unique<Bomba::CachingFileServer>(root);
		else otherServer.dynamic = std::make_unique<Bomba::DynamicFileServer>(root);
	}
	auto wantedOf = [&] (bool other, const std::string& path, std::string& named) -> const std::string* {
		if (!other) return wanted(path, named);
		named = path == "/" || (!caching && path.back() == '/') ? "/index.html" : path;
		return lookUp(otherFiles, named);
	};
	Bomba::HttpServer<> http(server.get()), otherHttp(two ? otherServer.get() : server.get());
	int fds = sim::openVirtualFds();
	auto host = std::make_unique<HostOf<Bomba::HttpServer<>>>(http, chance(WORK, 200), PORT);
	auto poller = std::make_unique<Poller>(*host);
	auto otherHost = two ? std::make_unique<HostOf<Bomba::HttpServer<>>>(otherHttp, false, PORT + 1) : nullptr;
	Fibers fibers;
	int peers = 1 + choose(WORK, 3);
	int served = 0;
	for (int c = 0; c < peers; c++) fibers.start("peer" + std::to_string(c), [&] {
		Raw raw;
		size_t pos = 0;
		bool other = two && choose(WORK, 2);
		if (!raw.connectRetry(PORT + other)) violation("not-accepted", "can't connect");
		std::vector<std::string> paths;
		std::string all;
		for (int n = 1 + choose(WORK, 10); n > 0; n--) {
			std::string path;
			auto any = [&] { auto i = files.begin(); std::advance(i, choose(WORK, files.size())); return i->first; };
			switch (choose(WORK, 12)) {
				case 0: path = missing; break;
				case 1: path = "/"; break;
				case 2: path = disk.folders[choose(WORK, disk.folders.size())] + "/"; break;
				case 3: path = disk.folders.size() > 1 ? disk.folders[1 + choose(WORK, disk.folders.size() - 1)] : "/none"; break;
				case 4: path = chance(WORK, 500) ? "/pipe1" : "/broken"; break;
				case 5: path = files.empty() ? "/x" : any() + pick(WORK, std::vector<std::string>{"x", "/x", ".bak", "%"}); break;
				default: path = files.empty() ? "/y" : any();
			}
			paths.push_back(path);
			all += request(path, chance(WORK, 200));
		}
		bool pipelined = chance(WORK, 500);
		int sender = pipelined ? sim::spawn("sender", [&] { raw.sendPieces(all); }) : -1;
		for (auto& path : paths) {
			std::string named;
			const std::string* want = wantedOf(other, path, named);
			HttpMessage m = pipelined ? response(raw, pos, path) : fetch(raw, pos, path);
			judgeFile(m, path, want, named);
			if (want) served++;
			sim::count("requests");
		}
		if (sender >= 0) sim::join(sender);
		if (raw.readable(100 * MS)) { raw.recvSome(); violation("extra-bytes", raw.eof || raw.failed ? std::string("the connection was ended though nobody demanded it") : "after the last response came " + cut(std::string_view(raw.in).substr(pos))); }
	});
	fibers.joinAll();
	poller.reset();
	host.reset();
	otherHost.reset();
	if (sim::openVirtualFds() > fds) { std::string what; for (auto& d : sim::describeOpenFds()) what += " " + d; violation("not-released", "descriptors are left open:" + what); }
	if (served > 0) sim::nontrivial();
}

// A file that doesn't fit into 31 or 32 bits, streamed from the simulated disk through the protocol
SCENARIO(file_large) {
	Folder disk;
	disk.fill(300, 4);
	uint64_t size = pick(WORK, std::vector<uint64_t>{1ull << 31, 1ull << 32, 3ull << 30, 1ull << 33, 99999999999ull, 123456789012345ull});
	size = size - 3000 + choose(WORK, 9000);
	bool whole = size < (5ull << 29) && chance(WORK, 100); // Others are broken off by a fault of the disk
	uint64_t readable = whole ? size : 1 + choose(WORK, chance(WORK, 100) ? 1500000 : 20000);
	std::string path = "/" + genName(false) + "_f.bin";
	sim::fsWriteLarge(disk.root + path, size);
	Bomba::DynamicFileServer server(disk.given);
	Bomba::HttpServer<> http(server);
	auto session = http.getSession();
	std::string asked = request(path), head;
	uint64_t got = 0;
	bool headDone = false;
	std::array<char, 1 << 16> expected;
	auto takeBody = [&] (std::span<const char> part) {
		while (!part.empty()) {
			size_t n = std::min(part.size(), expected.size());
			sim::largeContent(got, expected.data(), n);
			if (memcmp(part.data(), expected.data(), n)) violation("wrong-content", fmt("of the file of %llu bytes, near the byte %llu", (unsigned long long)size, (unsigned long long)got));
			got += n;
			part = part.subspan(n);
			if (!whole && got >= readable) sim::fsWriteLarge(disk.root + path, 1); // It was shortened meanwhile
		}
		if (got > size) violation("extra-bytes", "more was sent than the file contains");
	};
	auto [reaction, consumed] = session.respond(std::span<char>(asked), [&] (std::span<const char> part) {
		if (!headDone) {
			head.append(part.data(), part.size());
			size_t end = head.find("\r\n\r\n");
			if (end == std::string::npos) return;
			headDone = true;
			std::string rest = head.substr(end + 4);
			head.resize(end + 4);
			if (head.compare(0, 12, "HTTP/1.1 200")) violation("not-served", "a file of " + std::to_string(size) + " bytes got " + cut(head));
			std::string lower = head;
			for (char& c : lower) c = tolower(c);
			size_t at = lower.find("\r\ncontent-length:");
			if (at != std::string::npos) at = lower.find_first_not_of(" \t", at + 17);
			std::string digits = at == std::string::npos ? "" : lower.substr(at, lower.find_first_not_of("0123456789", at) - at);
			if (digits != std::to_string(size)) violation("wrong-length", "a file of " + std::to_string(size) + " bytes got " + cut(head));
			takeBody(rest);
		} else takeBody(part);
	});
	if (whole) {
		if (reaction != Bomba::ServerReaction::OK || got != size) violation("wrong-content", fmt("%llu bytes of %llu were sent", (unsigned long long)got, (unsigned long long)size));
		sim::count("whole files above 2 GiB");
	} else if (reaction != Bomba::ServerReaction::DISCONNECT) violation("should-disconnect", "the connection isn't ended though the response is incomplete");
	else if (got + 4096 + 9000 < std::min(readable, size)) violation("wrong-content", fmt("only %llu bytes were sent though %llu are readable", (unsigned long long)got, (unsigned long long)readable));
	sim::count("requests");
	sim::nontrivial();
}

// ---- F02 ----------------------------------------------------------------------------------------
SCENARIO(file_escape) {
	swarmNet();
	Folder disk;
	disk.fill(300, 8);
	const std::string mark = "SECRET-";
	auto secret = [&] (const std::string& path) { sim::fsWrite(path, mark + path); };
	std::string above = disk.root.substr(0, disk.root.rfind('/'));
	secret("/secret.txt"); secret("/etc/passwd"); secret(above + "/secret.txt"); secret(disk.root + "-secret/a.txt"); secret(above + "/other/index.html"); secret("/index.html"); secret(above + "/index.html");
	secret("/srv/secret"); secret("/cwd/secret.txt"); secret("/home/.ssh/key");
	bool caching = chance(WORK, 300);
	std::vector<std::string> hidden = {"/.hidden", "/.git/config", "/.git/index.html", "/..data", "/...", "/.htaccess.html"};
	for (auto& f : disk.folders) if (chance(WORK, 300)) hidden.push_back(f + "/.secret.txt");
	if (!caching) for (auto& h : hidden) secret(disk.root + h);
	AnyFileServer server;
	if (caching) server.caching = std::make_unique<Bomba::CachingFileServer>(disk.given);
	else server.dynamic = std::make_unique<Bomba::DynamicFileServer>(disk.given);
	Bomba::HttpServer<> http(server.get());
	HostOf<Bomba::HttpServer<>> host(http, false, PORT);
	size_t before = sim::fsEvents().size();
	auto genPath = [&] {
		std::string s;
		auto part = [&] () -> std::string {
			switch (choose(WORK, 9)) {
				case 0: case 1: return "..";
				case 2: return ".";
				case 3: return "";
				case 4: { std::string f = disk.anyPath(); return f.substr(1 + choose(WORK, f.size())); }
				case 5: return disk.folders[choose(WORK, disk.folders.size())];
				case 6: return pick(WORK, std::vector<std::string>{"srv", "www", "cwd", "etc", "other", "etc/passwd", "home/.ssh/key", "secret.txt", "index.html", "a.txt", "www-secret", "secret", "-secret/a.txt"});
				case 7: return hidden[choose(WORK, hidden.size())].substr(choose(WORK, 2));
				default: return pick(WORK, std::vector<std::string>{"%2e%2e", "%2e", "..\\", "\\..\\", "..%2f", "...", "....", "..;", "~", std::string(1, 0), std::string("..") + '\0', "\x01", "\x7f", "..\t", "*", "?", "..#", std::string(300, 'a'), "%00", "\xc0\xae\xc0\xae", "x/../..", "./.", "C:"});
			}
		};
		switch (choose(WORK, 5)) {
			case 0: s = "/"; break;
			case 1: s = "//"; break;
			case 2: break;
			case 3: s = disk.root + "/"; break;
			default: s = "/" + disk.folders[choose(WORK, disk.folders.size())];
		}
		for (int n = 1 + choose(WORK, 7); n > 0; n--) { s += part(); if (n > 1) s += pick(WORK, std::vector<std::string>{"/", "/", "/", "//", "/./", "", "\\"}); }
		if (chance(WORK, 150)) s += pick(WORK, std::vector<std::string>{"/", "//", "/.", "/..", ".", std::string(1, 0)});
		if (chance(WORK, 100)) s = "/" + std::string(1 + choose(WORK, 5), '/') + s;
		std::erase_if(s, [] (char c) { return c == ' ' || c == '\r' || c == '\n'; });
		return s;
	};
	Fibers fibers;
	for (int c = 1 + choose(WORK, 2); c > 0; c--) fibers.start("peer", [&] {
		Raw raw;
		size_t pos = 0;
		if (!raw.connectRetry(PORT)) violation("not-accepted", "can't connect");
		for (int n = 4 + choose(WORK, 16); n > 0; n--) {
			std::string path = chance(WORK, 200) ? "/../secret.txt" : chance(WORK, 200) ? hidden[choose(WORK, hidden.size())] : genPath();
			if (path.empty()) continue;
			HttpMessage m = fetch(raw, pos, path);
			sim::count("paths");
			if (m.body.find(mark) != std::string::npos) violation("escaped", "GET " + cut(path) + " returned " + cut(m.body.substr(m.body.find(mark))));
			if (m.status < 400) {
				bool legal = false;
				for (auto& f : disk.files) legal |= f.second == m.body;
				if (!legal) violation("escaped", fmt("GET %s was answered by %d ", cut(path).c_str(), m.status) + "with what isn't any file of the folder: " + cut(m.body));
				sim::count("paths-served");
			}
		}
	});
	fibers.joinAll();
	for (size_t i = before; i < sim::fsEvents().size(); i++) {
		auto& e = sim::fsEvents()[i];
		if (e.op != "open" || e.err) continue;
		if (caching) violation("escaped", "the disk was accessed while serving: " + e.path);
		if (e.path.compare(0, disk.root.size() + 1, disk.root + "/") != 0) violation("escaped", "a file out of the folder was opened: " + e.path);
		if (e.path.substr(disk.root.size()).find("/.") != std::string::npos) violation("escaped", "a hidden file was opened: " + e.path);
	}
	sim::nontrivial();
}

// ---- F03 ----------------------------------------------------------------------------------------
SCENARIO(file_snapshot) {
	NetOptions o;
	o.smallBuffers = false;
	swarmNet(o);
	Folder disk;
	disk.fill(6000, 8);
	Bomba::CachingFileServer server(disk.given);
	Bomba::HttpServer<> http(server);
	HostOf<Bomba::HttpServer<>> host(http, chance(WORK, 200), PORT);
	Poller poller(host);
	Files snapshot = disk.files, generated;
	std::vector<std::unique_ptr<Raw>> links;
	std::vector<size_t> positions;
	std::set<std::string> ever;
	for (auto& f : disk.files) ever.insert(f.first);
	int loads = 0, differing = 0;
	for (int n = 8 + choose(WORK, 40); n > 0; n--) {
		switch (choose(WORK, 10)) {
			case 0: { std::string path = chance(WORK, 600) ? disk.anyPath() : disk.newPath(); ever.insert(path); disk.write(path, genContent(6000), choose(WORK, 2)); break; }
			case 1: { std::string path = disk.anyPath(); if (disk.files.erase(path)) sim::fsRemove(disk.root + path); break; }
			case 2: {
				std::string path = chance(WORK, 300) ? disk.anyPath() : chance(WORK, 300) && !generated.empty() ? generated.begin()->first : disk.newPath(), c = genContent(6000);
				ever.insert(path);
				server.addGeneratedFile(path.substr(1), c);
				generated[path] = c;
				break;
			}
			case 3: server.reload(); snapshot = disk.files; loads++; break;
			case 4: if (chance(WORK, 400)) { server.reset(); snapshot = disk.files; generated.clear(); loads++; } break;
			default: {
				if (links.empty() || (links.size() < 4 && chance(WORK, 200))) {
					links.push_back(std::make_unique<Raw>());
					positions.push_back(0);
					if (!links.back()->connectRetry(PORT)) violation("not-accepted", "can't connect");
				}
				size_t l = choose(WORK, links.size());
				std::string path = "/";
				if (!ever.empty() && chance(WORK, 850)) { auto i = ever.begin(); std::advance(i, choose(WORK, ever.size())); path = *i; }
				size_t accesses = sim::fsEvents().size();
				HttpMessage m = fetch(*links[l], positions[l], path);
				if (sim::fsEvents().size() != accesses) violation("touches-disk", "serving " + cut(path) + " accessed the disk: " + sim::fsEvents().back().op + " " + sim::fsEvents().back().path);
				links[l]->in.clear();
				positions[l] = 0;
				std::string named = path == "/" ? "/index.html" : path;
				const std::string* want = lookUp(generated, path);
				if (!want) want = lookUp(snapshot, named);
				if (path == "/" && generated.count("/index.html")) { // not stated whether it is the index page
					if (m.status == 200 ? !(want && m.body == *want) && m.body != generated["/index.html"] : want != nullptr) violation("wrong-content", fmt("status %d for /, with ", m.status) + cut(m.body));
					break;
				}
				judgeFile(m, path, want, named);
				const std::string* now = lookUp(disk.files, named);
				if (!want != !now || (want && *want != *now)) differing++;
				sim::count("requests");
			}
		}
	}
	if (loads && differing) sim::nontrivial();
}

// ---- F04 ----------------------------------------------------------------------------------------
// Contents carry their version: "<name>|<version>|" and then filling that depends on both.
static std::string versioned(const std::string& name, uint32_t version, size_t size) {
	std::string s = name + "|" + std::to_string(version) + "|";
	return s + content(version * 31 + name.size() * 7 + name.back(), size + version % 13);
}
SCENARIO(file_reload) {
	swarmNet();
	auto& p = sim::params();
	p.diskYieldPermille = pick(FAULT, std::vector<uint32_t>{0, 200, 900});
	if (p.preemptPermille < 20) p.preemptPermille = 20;
	size_t buffer = std::min({p.sndBuf, p.rcvBuf, size_t(p.segMode == 2 ? 50 : 100000)});
	Folder disk;
	struct Version { uint32_t version; uint64_t from, to; };       // when it was on the disk
	struct Operation { uint64_t from, to; int kind; std::string name; uint32_t version; }; // kind: 0 load, 1 generate, 2 reset
	std::map<std::string, std::vector<Version>> versions;
	std::map<std::string, size_t> sizes;
	std::vector<Operation> operations;
	std::vector<std::string> names, generatedNames;
	for (int n = 1 + choose(WORK, 4); n > 0; n--) {
		std::string name = "/f" + std::to_string(n) + pick(WORK, std::vector<std::string>{"", ".html", ".js"});
		if (chance(WORK, 200)) name = "/sub" + name;
		sizes[name] = genSize(buffer < 20 ? 100 : buffer < 100 ? 1000 : 9000);
		names.push_back(name);
	}
	if (chance(WORK, 500)) { names.push_back("/index.html"); sizes["/index.html"] = genSize(buffer < 100 ? 100 : 3000); }
	for (int n = choose(WORK, 3); n > 0; n--) { generatedNames.push_back("/g" + std::to_string(n) + ".json"); sizes[generatedNames.back()] = genSize(buffer < 20 ? 100 : buffer < 100 ? 1000 : 9000); }
	uint64_t clock = 0; // of the operations
	auto writeAll = [&] (uint32_t version, bool all) {
		for (auto& name : names) if (all || choose(WORK, 2)) {
			auto& v = versions[name];
			if (!v.empty()) v.back().to = clock++;
			v.push_back({version, clock++, UINT64_MAX});
			disk.write(name, versioned(name, version, sizes[name]), true);
		}
	};
	uint32_t version = 0;
	writeAll(version++, true);
	Operation first{clock++, 0, 0, "", 0};
	Bomba::CachingFileServer server(disk.given);
	first.to = clock++;
	operations.push_back(first);
	Bomba::HttpServer<> http(server);
	int serving = 1 + choose(WORK, 3);
	std::vector<std::unique_ptr<HostOf<Bomba::HttpServer<>>>> hosts;
	for (int i = 0; i < serving; i++) hosts.push_back(std::make_unique<HostOf<Bomba::HttpServer<>>>(http, false, PORT + i));
	int modifiers = 1 + choose(WORK, 2);
	struct Got { uint64_t from, to; std::string name; int64_t version; }; // -1 for not there
	std::vector<Got> got;
	std::map<int, uint32_t> latest; // seen by all, with one modifying thread
	uint32_t newestSeen = 0;
	bool lockstep = modifiers == 1 && choose(WORK, 2); // all files change together
	Fibers fibers;
	int busy = modifiers;
	for (int m = 0; m < modifiers; m++) fibers.start("modifier" + std::to_string(m), [&] {
		for (int n = 1 + choose(WORK, 5); n > 0; n--) {
			int kind = chance(WORK, 550) ? 0 : generatedNames.empty() || chance(WORK, 200) ? 2 : 1;
			if (lockstep && kind == 1) kind = 0;
			Operation op{0, 0, kind, "", version++};
			if (kind != 1 && chance(WORK, 850)) writeAll(op.version, lockstep);
			if (chance(SCHED, 300)) sim::sleepFor(range(SCHED, 0, 2000) * US);
			size_t at = operations.size();
			if (kind == 1) op.name = generatedNames[choose(WORK, generatedNames.size())];
			op.from = clock++;
			op.to = UINT64_MAX;
			operations.push_back(op);
			if (kind == 0) server.reload();
			else if (kind == 2) server.reset();
			else server.addGeneratedFile(op.name.substr(1), versioned(op.name, op.version, sizes[op.name]));
			operations[at].to = clock++;
			sim::count("modifications");
			if (chance(SCHED, 500)) sim::sleepFor(range(SCHED, 0, 2000) * US);
		}
		busy--;
	});
	int peers = serving + choose(WORK, 3);
	for (int c = 0; c < peers; c++) fibers.start("peer" + std::to_string(c), [&, c] {
		Raw raw;
		size_t pos = 0;
		if (!raw.connectRetry(PORT + c % serving)) violation("not-accepted", "can't connect");
		bool slow = chance(WORK, 300);
		for (int n = 2 + choose(WORK, 12); n > 0; n--) {
			std::string name = !generatedNames.empty() && chance(WORK, 300) ? generatedNames[choose(WORK, generatedNames.size())] : names[choose(WORK, names.size())];
			std::string path = name == "/index.html" && choose(WORK, 2) ? "/" : name;
			Got g{clock++, 0, name, -1};
			uint32_t atLeast = newestSeen;
			if (!raw.send(request(path))) violation("connection-lost", "can't send");
			if (slow) sim::sleepFor(range(WORK, 0, 5) * MS);
			HttpMessage m = response(raw, pos, path);
			g.to = clock++;
			raw.in.clear();
			pos = 0;
			if (m.status == 200) {
				unsigned v = 0;
				size_t bar = m.body.find('|');
				if (bar == std::string::npos || m.body.substr(0, bar) != name || sscanf(m.body.c_str() + bar, "|%u|", &v) != 1) violation("wrong-content", path + " was answered by " + cut(m.body));
				g.version = v;
				std::string want = versioned(name, v, sizes[name]);
				if (m.body != want) violation("torn", path + " isn't what version " + std::to_string(v) + " was: " + firstDifference(m.body, want));
				if (lockstep && name[1] != 'g') {
					if (v < atLeast) violation("stale", fmt("%s was answered by version %u though version %u of a file had been served before", path.c_str(), v, atLeast));
					newestSeen = std::max(newestSeen, v);
				}
			} else if (m.status < 400) violation("wrong-status", fmt("status %d for ", m.status) + path);
			got.push_back(g);
			sim::count("requests");
			if (chance(SCHED, 300)) sim::sleepFor(range(SCHED, 0, 1000) * US);
		}
	});
	fibers.joinAll();
	int overlapping = 0;
	for (auto& g : got) {
		bool isGenerated = g.name[1] == 'g', fits = false;
		auto relevant = [&] (const Operation& op) { return isGenerated ? op.kind == 2 || (op.kind == 1 && op.name == g.name) : op.kind != 1; };
		auto replaced = [&] (uint64_t end) { for (auto& j : operations) if (relevant(j) && end < j.from && j.to < g.from) return true; return false; };
		if (isGenerated && g.version < 0) fits = !replaced(0); // never generated
		for (auto& i : operations) {
			if (i.from > g.from && i.from < g.to) overlapping++;
			if (fits || !relevant(i) || i.from > g.to || replaced(i.to)) continue;
			if (isGenerated) fits = i.kind == 1 ? g.version == i.version : g.version < 0;
			else for (auto& v : versions[g.name]) if (v.version == g.version && v.from < i.to && v.to > i.from) fits = true;
		}
		if (!fits) violation("wrong-version", g.name + (g.version < 0 ? std::string(" wasn't there") : fmt(" was served in version %lld", (long long)g.version)) + " though no load or addition before explains it");
	}
	if (overlapping) sim::nontrivial();
}

// ---- F05 ----------------------------------------------------------------------------------------
SCENARIO(file_faults) {
	NetOptions o;
	swarmNet(o);
	auto& p = sim::params();
	size_t buffer = std::min({p.sndBuf, p.rcvBuf, size_t(p.segMode == 2 ? 50 : 100000)});
	size_t most = buffer < 20 ? 500 : buffer < 100 ? 4500 : chance(WORK, 200) ? 20000 : 9000;
	Folder disk;
	disk.fill(most, 8);
	bool caching = choose(WORK, 2);
	// All contents a file has had, by path
	std::map<std::string, std::vector<std::string>> had;
	for (auto& f : disk.files) had[f.first].push_back(f.second);
	AnyFileServer server;
	auto faults = [&] {
		p.diskFaults = true;
		auto rate = [&] { return chance(FAULT, 500) ? pick(FAULT, std::vector<uint32_t>{10, 100, 400}) : 0; };
		p.openFailPermille = rate(); p.readFailPermille = rate(); p.shortReadPermille = rate(); p.statFailPermille = rate();
	};
	uint32_t mutatePermille = chance(FAULT, 600) ? pick(FAULT, std::vector<uint32_t>{20, 100, 400}) : 0;
	auto mutate = [&] (const std::string& path) { // anything may happen to a file at any time
		auto& h = had[path];
		std::string c = disk.files.count(path) ? disk.files[path] : "";
		switch (choose(DISK, 6)) {
			case 0: sim::fault("disk.file-truncated"); c = c.substr(0, choose(DISK, c.size() + 1)); break;
			case 1: sim::fault("disk.file-grown"); c += content(choose(DISK, 1000), choose(DISK, most)); if (c.size() > 2 * most) c.resize(most); break;
			case 2: sim::fault("disk.file-emptied"); c.clear(); break;
			case 3: sim::fault("disk.file-removed"); sim::fsRemove(disk.root + path); disk.files.erase(path); return;
			default: sim::fault("disk.file-rewritten"); c = content(choose(DISK, 1000), choose(DISK, 2) ? c.size() : choose(DISK, most));
		}
		h.push_back(c);
		disk.write(path, c, choose(DISK, 2));
	};
	bool hooked = false;
	sim::fsHook = [&] (const std::string&, const std::string&) {
		if (!hooked || !mutatePermille || !sim::faultsAllowed() || had.empty() || !chance(DISK, mutatePermille)) return;
		auto i = had.begin();
		std::advance(i, choose(DISK, had.size()));
		mutate(i->first);
	};
	struct Unhook { ~Unhook() { sim::fsHook = nullptr; } } unhook;
	bool constructFaulty = caching && chance(FAULT, 300);
	if (constructFaulty) { faults(); hooked = true; }
	Files generated;
	for (int attempt = 0; caching && !server.caching; attempt++) {
		if (attempt == 5) { sim::allowFaults(false); }
		try { server.caching = std::make_unique<Bomba::CachingFileServer>(disk.given); }
		catch (std::exception& e) { if (attempt == 5) violation("not-loaded", "the folder can't be loaded without any faults: " + exceptionText(e)); sim::count("failed-loads"); }
	}
	sim::allowFaults(true);
	if (!caching) server.dynamic = std::make_unique<Bomba::DynamicFileServer>(disk.given);
	// What the caching server may serve: any content of any time until now. Without faults or changes so far it is known.
	bool exact = caching && !constructFaulty;
	Files snapshot = disk.files;
	if (caching) for (int n = choose(WORK, 3); n > 0; n--) { std::string path = "/gen" + std::to_string(n) + ".txt", c = genContent(3000); server.caching->addGeneratedFile(path.substr(1), c); generated[path] = c; }
	Bomba::HttpServer<> http(server.get());
	HostOf<Bomba::HttpServer<>> host(http, false, PORT);
	sim::sleepFor(1 * MS);
	int fds = sim::openVirtualFds();
	faults();
	hooked = true;
	bool done = false, loading = false, blurred = false;
	Fibers fibers;
	if (caching && chance(WORK, 700)) fibers.start("modifier", [&] {
		for (int n = 1 + choose(WORK, 4); n > 0; n--) {
			sim::sleepFor(range(WORK, 0, 20) * MS);
			bool wasExact = exact;
			exact = false;
			try { loading = true; server.caching->reload(); blurred = true; sim::count("loads"); }
			catch (std::exception&) { sim::count("failed-loads"); exact = wasExact; } // it remains as it was
			loading = false;
		}
	});
	int whole = 0, refused = 0, broken = 0;
	std::vector<std::string> paths;
	for (auto& h : had) paths.push_back(h.first);
	paths.push_back("/none.html");
	for (auto& g : generated) paths.push_back(g.first);
	for (int c = 1 + choose(WORK, 3); c > 0; c--) fibers.start("peer", [&] {
		std::unique_ptr<Raw> raw;
		size_t pos = 0;
		for (int n = 2 + choose(WORK, 12); n > 0; n--) {
			if (!raw) {
				raw = std::make_unique<Raw>();
				pos = 0;
				if (!raw->connectRetry(PORT)) violation("not-accepted", "can't connect");
			}
			std::string path = paths[choose(WORK, paths.size())], why;
			bool exactBefore = exact && !loading;
			raw->send(request(path));
			HttpMessage m;
			Parsed parsed = Parsed::MORE;
			raw->recvUntil([&] { return (parsed = parseResponse(raw->in, pos, m, why)) != Parsed::MORE; }, IDLE);
			if (parsed == Parsed::BAD) violation("malformed", "the response to GET " + cut(path) + " is malformed: " + why);
			if (parsed == Parsed::MORE) {
				if (!raw->eof && !raw->failed) violation("no-response", "GET " + cut(path) + " isn't answered");
				if (caching) violation("broken-off", "the response to GET " + cut(path) + " of a cached file was broken off");
				broken++;
				raw.reset();
				continue;
			}
			raw->in.clear();
			pos = 0;
			std::string named = path;
			if (generated.count(path)) {
				if (m.status != 200 || m.body != generated[path]) violation("wrong-content", fmt("status %d for the generated file ", m.status) + path + ": " + cut(m.body));
				continue;
			}
			if (exactBefore && exact && !loading) { judgeFile(m, path, lookUp(snapshot, named), named); whole++; continue; }
			if (m.status >= 400) { refused++; continue; }
			if (m.status != 200) violation("wrong-status", fmt("status %d for ", m.status) + path);
			auto& h = had[named];
			if (h.empty()) violation("made-up", cut(path) + " never existed but is served: " + cut(m.body));
			bool length = false;
			for (auto& v : h) length |= v.size() == m.body.size();
			if (!caching && !length) violation("wrong-length", fmt("%zu bytes of %s were served, it never had that length", m.body.size(), path.c_str()));
			for (size_t i = 0; i < m.body.size(); i++) {
				bool known = false;
				for (auto& v : h) known |= i < v.size() && v[i] == m.body[i];
				if (!known) violation("made-up", fmt("byte %zu of %s has never been in the file: ", i, path.c_str()) + cut(std::string_view(m.body).substr(i)));
			}
			whole++;
		}
	});
	fibers.joinAll();
	sim::allowFaults(false);
	hooked = false;
	// All is well again
	if (caching) {
		try { server.caching->reload(); } catch (std::exception& e) { violation("not-loaded", "the folder can't be loaded after the faults: " + exceptionText(e)); }
	}
	Raw raw;
	size_t pos = 0;
	if (!raw.connectRetry(PORT)) violation("not-accepted", "can't connect after the faults");
	for (auto& path : paths) {
		const std::string* want = lookUp(generated, path);
		if (!want) want = lookUp(disk.files, path);
		HttpMessage m = fetch(raw, pos, path);
		judgeFile(m, path, want, path);
		raw.in.clear();
		pos = 0;
	}
	raw.close();
	if (!sim::waitUntil([&] { return sim::openVirtualFds() <= fds; }, 100 * SEC)) { std::string what; for (auto& d : sim::describeOpenFds()) what += " " + d; violation("not-released", "descriptors are left open:" + what); }
	sim::count("served", whole); sim::count("refused", refused); sim::count("broken-off", broken);
	if (refused + broken || caching) sim::nontrivial();
}
