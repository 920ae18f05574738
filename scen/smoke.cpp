#include "kernel.hpp"
#include "bomba_tcp_server.hpp"
#include "bomba_sync_client.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_json_rpc.hpp"
#include <thread>
struct Api : Bomba::RpcObject<Api> {
	int total = 0;
	Bomba::RpcMember<[] (Api* self, int v = Bomba::name("v")) { self->total += v; return self->total; }> add = child<"add">;
};
SCENARIO(smoke) {
	sim::params().segMode = sim::choose(sim::FAULT, 4);
	Api impl;
	Bomba::JsonRpcServer<> srv(impl);
	{
	Bomba::BackgroundTcpServer<Bomba::JsonRpcServer<>> server(srv, 8080);
	{
	Api remote;
	Bomba::SyncNetworkClient net("127.0.0.1", "8080");
	Bomba::JsonRpcClient<> client(remote, net, "localhost");
	int exp = 0;
	for (int i = 0; i < 5; i++) {
		int v = sim::choose(sim::WORK, 100);
		exp += v;
		int got = remote.add(v);
		if (got != exp) sim::violation("wrong", "got " + std::to_string(got));
	}
	}
	}
	sim::nontrivial();
}
