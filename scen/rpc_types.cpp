// The same as rpc_json and rpc_bin with other template arguments: string types, buffer types, number formats
#include <cxxabi.h>
#include "rpc.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_binary_protocol.hpp"
// As little as README demands from a custom string type, with a fixed alignment of its contents in memory that differs from std::string
class Letters {
	std::vector<char> _letters;
public:
	operator std::string_view() const { return {_letters.data(), _letters.size()}; }
	void clear() { _letters.clear(); }
	Letters& operator+=(char added) { _letters.push_back(added); return *this; }
	Letters& operator+=(const char* added) { return *this += std::string_view(added); }
	Letters& operator+=(std::string_view added) { std::vector<char> copy(added.begin(), added.end()); _letters.insert(_letters.end(), copy.begin(), copy.end()); return *this; }
	Letters& operator+=(const Letters& added) { return *this += std::string_view(added); }
};
template <int Size> struct TypedJson {
	using Buffer = Bomba::ExpandingBuffer<Size, std::vector<char>>;
	using Server = Bomba::JsonRpcServer<Letters, Buffer>;
	using Client = Bomba::JsonRpcClient<Letters, Buffer>;
	static constexpr size_t usualText = 6000, bigText = 60000, mostText = SIZE_MAX;
	static constexpr bool anyByte = false, deep = true;
	static size_t framer(std::string_view s) { size_t pos = 0; HttpMessage m; std::string why; return parseResponse(s, pos, m, why) == Parsed::OK ? pos : 0; }
	static Client client(Bomba::IRemoteCallable& top, Bomba::ITcpClient& net) { return Client(top, net, "example.com"); }
};
// A number format written by a user, big endian
template <typename Output> struct BigEndian {
	template <typename T> static std::array<char, sizeof(T)> prepareNumber(T value) {
		std::array<char, sizeof(T)> bytes;
		memcpy(bytes.data(), &value, sizeof value);
		std::reverse(bytes.begin(), bytes.end());
		return bytes;
	}
	template <typename T> static void writeNumber(T value, Bomba::SerialisationFlags::Flags flags, Output& output) {
		Bomba::SerialisationFlags::typeWithFlags(flags, [&] (auto typed) {
			typed = value;
			auto bytes = prepareNumber(typed);
			output += std::string_view(bytes.data(), bytes.size());
		});
	}
	template <typename T> static std::tuple<bool, T, int> readNumber(Bomba::SerialisationFlags::Flags flags, std::span<const char> data) {
		return Bomba::SerialisationFlags::typeWithFlags(flags, [&] (auto typed) -> std::tuple<bool, T, int> {
			if (data.size() < sizeof typed) return {false, 0, 0};
			std::array<char, sizeof typed> bytes;
			std::copy_n(data.begin(), bytes.size(), bytes.begin());
			std::reverse(bytes.begin(), bytes.end());
			memcpy(&typed, bytes.data(), bytes.size());
			return {true, typed, int(bytes.size())};
		});
	}
};
struct BigBinary {
	using Buffer = Bomba::ExpandingBuffer<16, std::vector<char>>;
	using Server = Bomba::BinaryProtocolServer<int32_t, Buffer, BigEndian<Buffer>, 5>;
	using Client = Bomba::BinaryProtocolClient<int32_t, Buffer, BigEndian<Buffer>, 5>;
	static constexpr size_t usualText = 6000, bigText = 100000, mostText = SIZE_MAX;
	static constexpr bool anyByte = true, deep = true;
	static size_t framer(std::string_view s) { if (s.size() < 8) return 0; size_t n = 0; for (int i = 0; i < 4; i++) n = n << 8 | (unsigned char)s[4 + i]; return n >= 8 && s.size() >= n ? n : 0; }
	static Client client(Bomba::IRemoteCallable& top, Bomba::ITcpClient& net) { return Client(top, net); }
};
// Buffers that don't grow: what doesn't fit is cut off
template <int Size, bool SmallServer, bool SmallClient> struct CuttingJson : TypedJson<1024> {
	using Cutting = Bomba::NonExpandingBuffer<Size>;
	using Server = Bomba::JsonRpcServer<std::string, std::conditional_t<SmallServer, Cutting, Bomba::ExpandingBuffer<>>>;
	using Client = Bomba::JsonRpcClient<std::string, std::conditional_t<SmallClient, Cutting, Bomba::ExpandingBuffer<>>>;
	static constexpr bool truncates = true;
	static Client client(Bomba::IRemoteCallable& top, Bomba::ITcpClient& net) { return Client(top, net, "example.com"); }
};
template <int Size, bool SmallServer, bool SmallClient> struct CuttingBinary {
	using Cutting = Bomba::NonExpandingBuffer<Size>;
	using ServerBuffer = std::conditional_t<SmallServer, Cutting, Bomba::ExpandingBuffer<>>;
	using ClientBuffer = std::conditional_t<SmallClient, Cutting, Bomba::ExpandingBuffer<>>;
	using Server = Bomba::BinaryProtocolServer<uint32_t, ServerBuffer, Bomba::LittleEndianNumberFormat<ServerBuffer>, 5>;
	using Client = Bomba::BinaryProtocolClient<uint32_t, ClientBuffer, Bomba::LittleEndianNumberFormat<ClientBuffer>, 5>;
	static constexpr size_t usualText = 6000, bigText = 100000, mostText = SIZE_MAX;
	static constexpr bool anyByte = true, deep = true, truncates = true;
	static size_t framer(std::string_view s) { if (s.size() < 8) return 0; uint32_t n; memcpy(&n, s.data() + 4, 4); return n >= 8 && s.size() >= n ? n : 0; }
	static Client client(Bomba::IRemoteCallable& top, Bomba::ITcpClient& net) { return Client(top, net); }
};
SCENARIO(json_fail_cut) {
	switch (choose(WORK, 3)) {
		case 0: failScenario<CuttingJson<1500, true, false>>(); break;
		case 1: failScenario<CuttingJson<1500, false, true>>(); break;
		default: failScenario<CuttingJson<2048, true, true>>(); break;
	}
}
SCENARIO(bin_fail_cut) {
	switch (choose(WORK, 3)) {
		case 0: failScenario<CuttingBinary<400, true, false>>(); break;
		case 1: failScenario<CuttingBinary<400, false, true>>(); break;
		default: failScenario<CuttingBinary<300, true, true>>(); break;
	}
}
SCENARIO(json_call_typed) { callScenario<TypedJson<50>>(); }
SCENARIO(json_pipeline_typed) { pipelineScenario<TypedJson<2048>>(); }
SCENARIO(bin_call_typed) { callScenario<BigBinary>(); }
SCENARIO(bin_pipeline_typed) { pipelineScenario<BigBinary>(); }
// ---- S05: sizes that make no sense, with every type of size --------------------------------------
template <typename Size> static void sizedGarbage() {
	NetOptions o;
	o.smallBuffers = false;
	swarmNet(o);
	using Protocol = Bomba::BinaryProtocolServer<Size, Bomba::ExpandingBuffer<>, Bomba::LittleEndianNumberFormat<Bomba::ExpandingBuffer<>>, 5>;
	Tree served(0);
	Protocol protocol(*served.top);
	auto host = std::make_unique<ServerHost<Protocol>>(protocol, chance(WORK, 200));
	sim::sleepFor(1 * MS);
	size_t base = sim::liveBytes(), sent = 0;
	sim::peakBytes(true);
	sim::setMemoryLimit(300 << 20);
	auto number = [] (auto value) { std::string r(sizeof value, 0); memcpy(r.data(), &value, sizeof value); return r; };
	auto size = [&] (size_t real) {
		uint64_t v = real;
		if (chance(FAULT, 300)) switch (choose(FAULT, 6)) {
			case 0: v = -uint64_t(1 + choose(FAULT, 60)); break;
			case 1: v = uint64_t(std::numeric_limits<Size>::max()) - choose(FAULT, 60); break;
			case 2: v = uint64_t(1) << (sizeof(Size) * 8 - 1 - choose(FAULT, 2)); break;
			case 3: v = (uint64_t(1) << 32) + choose(FAULT, 100); break;
			case 4: v = (uint64_t(1) << 31) + choose(FAULT, 100); break;
			default: v += choose(FAULT, 40); v -= std::min<uint64_t>(v, choose(FAULT, 40)); break;
		}
		return number(Size(v));
	};
	auto text = [&] { std::string s = genText(60, true); return size(s.size()) + s; };
	auto args = [&] {
		std::string r;
		for (int n = choose(FAULT, 6); n > 0; n--) switch (choose(FAULT, 5)) {
			case 0: r += number(int(genInt(32, true))); break;
			case 1: r += number(genDouble()); break;
			case 2: r += char(choose(FAULT, 3)); break;
			case 3: { int count = choose(FAULT, 4); r += size(count); for (int k = 0; k < count; k++) r += choose(FAULT, 2) ? text() : number(int(genInt(32, true))); break; }
			default: r += text(); break;
		}
		return r;
	};
	auto indexOf = [&] (Bomba::IRemoteCallable& method) { return static_cast<Bomba::IRemoteCallable&>(served.api).childName(&method).second; };
	int peers = 1 + choose(WORK, 2);
	Fibers fibers;
	for (int c = 0; c < peers; c++) fibers.start("peer" + std::to_string(c), [&, c] {
		for (int n = 1 + choose(WORK, 4); n > 0; n--) {
			Raw raw;
			if (!raw.connectRetry(PORT)) violation("not-accepted", "can't connect");
			std::string all, expected, story;
			bool judged = chance(WORK, 500), ends = false; // Whether it's known what the responses are
			for (int k = 1 + choose(FAULT, 5); k > 0; k--) {
				std::string id = number(uint32_t(choose(FAULT, 1000))), body;
				if (judged) {
					// Arguments that may end too early or declare another size than they have
					std::vector<std::string> parts; // of what may be read at once
					std::string result;
					switch (choose(WORK, 5)) {
						case 4: { std::string s = genText(60, true); body = char(indexOf(served.api.store)); parts = {size(s.size()), s, "", ""}; break; }
						case 0: case 1: { std::string s = genText(60, true); body = char(indexOf(served.api.echo)); parts = {size(s.size()), s, std::string(1, char(choose(WORK, 2)))};
							break; }
						case 2: { int a = int(genInt(32, true)), b = int(genInt(32, true)); body = char(indexOf(served.api.add)); parts = {number(a), number(b)}; break; }
						default: { body = char(indexOf(served.api.flip)); parts = {std::string(1, char(choose(WORK, 2)))}; break; }
					}
					std::string args;
					for (auto& part : parts) args += part;
					if (chance(FAULT, 200)) args.resize(choose(FAULT, 2) ? choose(FAULT, args.size()) : args.size() - 1);
					bool fits = false;
					if (parts.size() == 4) { // the reference reading
						Size length = 0;
						if (args.size() >= sizeof length) memcpy(&length, args.data(), sizeof length);
						fits = args.size() >= sizeof length && (std::is_unsigned_v<Size> || length >= 0) && uint64_t(length) <= args.size() - sizeof length;
					} else if (parts.size() == 3) {
						Size length = 0;
						if (args.size() >= sizeof length) {
							memcpy(&length, args.data(), sizeof length);
							size_t left = args.size() - sizeof length;
							if ((std::is_unsigned_v<Size> || length >= 0) && uint64_t(length) < left) {
								std::string s = args.substr(sizeof length, length);
								fits = true;
								char twice = args[sizeof length + length];
								if (twice != 0) s += s;
								result = number(Size(s.size())) + s;
								if (twice != 0 && twice != 1) { judged = false; break; } // not a boolean
							}
						}
					} else if (parts.size() == 2) {
						if ((fits = args.size() >= 8)) { unsigned a, b; memcpy(&a, args.data(), 4); memcpy(&b, args.data() + 4, 4); result = number(int(a + b)); }
					} else if ((fits = args.size() >= 1)) result = std::string(1, char(!args[0]));
					body += args;
					story += fits ? "F" : "-";
					if (!ends && fits) expected += id + number(Size(4 + sizeof(Size) + result.size())) + result;
					if (!fits) ends = true;
				} else body = chance(FAULT, 300) ? char(indexOf(served.api.echo)) + text() + char(choose(FAULT, 2)) : char(choose(FAULT, 22)) + args();
				all += id + (!judged && chance(FAULT, 100) ? size(4 + sizeof(Size) + body.size()) : number(Size(4 + sizeof(Size) + body.size()))) + body;
			}
			if (!judged) ends = false;
			sim::fault("peer.nonsensical-sizes");
			sent += all.size();
			raw.sendPieces(all);
			bool closed = false;
			while (raw.readable(judged && (ends || raw.in.size() < expected.size()) ? 100 * SEC : 500 * MS)) if (!raw.recvSome()) { closed = true; break; }
			if (raw.in.find("\xfe\xfe\xfe\xfe") != std::string::npos && all.find("\xfe\xfe\xfe\xfe") == std::string::npos) violation("uninitialised", "a response has bytes of memory never written: " + cut(raw.in));
			if (raw.in.size() > 3 * all.size() + 2000) violation("leaked", fmt("%zu bytes came in response to %zu", raw.in.size(), all.size()));
			if (judged && raw.in.size() > expected.size()) violation("garbage-answered", "messages with incomplete arguments (" + story + ") were answered: " + firstDifference(raw.in, expected));
			if (judged && (closed ? std::string_view(expected).substr(0, raw.in.size()) : std::string_view(expected)) != raw.in) violation("wrong-response", "messages (" + story + ") were answered with " + firstDifference(raw.in, expected));
			if (judged && ends && !closed) violation("not-closed", "the connection remains open after a message with incomplete arguments (" + story + ")");
			if (judged && !ends && closed) violation("closed", "a connection with proper messages was closed (" + story + ")");
		}
	});
	fibers.joinAll();
	size_t peak = sim::peakBytes(false);
	if (peak > base + (size_t(3) << 20) + 100 * sent) violation("memory", fmt("%zu bytes were used though only %zu were sent", peak - base, sent));
	sim::allowFaults(false);
	Raw raw;
	if (!raw.connectRetry(PORT)) violation("not-accepted", "can't connect after the garbage");
	std::string word = "still alive", body = char(indexOf(served.api.echo)) + number(Size(word.size())) + word + char(1);
	std::string want = number(uint32_t(77)) + number(Size(4 + 2 * sizeof(Size) + 2 * word.size())) + number(Size(2 * word.size())) + word + word;
	raw.send(number(uint32_t(77)) + number(Size(4 + sizeof(Size) + body.size())) + body);
	while (raw.in.size() < want.size() && raw.readable(100 * SEC) && raw.recvSome()) {}
	if (raw.in != want) violation("no-response", "after the garbage, a proper request got " + cut(raw.in));
	sim::count("garbage-bytes", sent);
	sim::nontrivial();
}
SCENARIO(server_garbage_sizes) {
	switch (choose(WORK, 5)) {
		case 0: sizedGarbage<uint64_t>(); break;
		case 1: sizedGarbage<int64_t>(); break;
		case 2: sizedGarbage<uint32_t>(); break;
		case 3: sizedGarbage<int32_t>(); break;
		default: sizedGarbage<int16_t>(); break;
	}
}
