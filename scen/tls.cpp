// The same scenarios as for the plain client, with TlsSyncClient in its place.  A simulated party decrypts what it sends
// and passes it to the real server, so that everything the client does goes through TLS.
#include <experimental/net>
#include "tls/tls_sync_client.hpp"
#include "tlsfront.hpp"
namespace Bomba {
struct SyncNetworkClient : TlsSyncClient {
	SyncNetworkClient(const std::string& host, const std::string& port) : TlsSyncClient(host, std::stoi(port) + 100) {}
};
}
#include "rpc.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_binary_protocol.hpp"
struct Json {
	using Server = Bomba::JsonRpcServer<>;
	using Client = Bomba::JsonRpcClient<>;
	static constexpr size_t usualText = 6000, bigText = 40000, mostText = SIZE_MAX;
	static constexpr bool anyByte = false, deep = true, tls = true;
	static size_t framer(std::string_view s) { size_t pos = 0; HttpMessage m; std::string why; return parseResponse(s, pos, m, why) == Parsed::OK ? pos : 0; }
	static Client client(Bomba::IRemoteCallable& top, Bomba::ITcpClient& net) { return Client(top, net, "example.com"); }
};
struct Binary {
	using Server = Bomba::BinaryProtocolServer<>;
	using Client = Bomba::BinaryProtocolClient<>;
	static constexpr size_t usualText = 6000, bigText = 30000, mostText = 65535;
	static constexpr bool anyByte = true, deep = false, tls = true;
	static size_t framer(std::string_view s) { if (s.size() < 6) return 0; uint16_t n; memcpy(&n, s.data() + 4, 2); return n >= 6 && s.size() >= n ? n : 0; }
	static Client client(Bomba::IRemoteCallable& top, Bomba::ITcpClient& net) { return Client(top, net); }
};
static void fronts() {
	tls::front(PORT + 100, PORT);
	tls::front(PORT + 101, PORT + 1);
}
SCENARIO(tls_json_call) { fronts(); callScenario<Json>(); }
SCENARIO(tls_bin_call) { fronts(); callScenario<Binary>(); }
SCENARIO(tls_json_pipeline) { fronts(); pipelineScenario<Json>(); }
SCENARIO(tls_bin_pipeline) { fronts(); pipelineScenario<Binary>(); }
SCENARIO(tls_json_ready) { fronts(); readyScenario<Json>(); }
SCENARIO(tls_bin_ready) { fronts(); readyScenario<Binary>(); }
SCENARIO(tls_json_fail) { fronts(); failScenario<Json>(); }
SCENARIO(tls_bin_fail) { fronts(); failScenario<Binary>(); }
