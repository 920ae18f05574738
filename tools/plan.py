"""Which scenarios decide which property, and how long a check searches."""
PLAN = {
    "R01": {"scenarios": [("rpc_json", "json_call", 3), ("rpc_types", "json_call_typed", 1)], "rule": "Non-trivial: at least two calls ran on the server.",
            "oracle": "sequential model of the remote object executed in the server's order of execution"},
    "R02": {"scenarios": [("rpc_bin", "bin_call", 3), ("rpc_bin", "bin_call_wide", 1), ("rpc_types", "bin_call_typed", 1)], "rule": "Non-trivial: at least two calls ran on the server.",
            "oracle": "sequential model of the remote object executed in the server's order of execution"},
    "M01": {"scenarios": [("rpc_json", "json_pipeline", 3), ("rpc_json", "http_pipeline", 2), ("rpc_types", "json_pipeline_typed", 1)], "rule": "Non-trivial: at least two calls were in flight on one client.",
            "oracle": "sequential model of the remote object in the order of sending; what the simulated HTTP server sent for each request"},
    "M02": {"scenarios": [("rpc_bin", "bin_pipeline", 2), ("rpc_bin", "bin_outoforder", 2), ("rpc_types", "bin_pipeline_typed", 1)], "rule": "Non-trivial: at least two calls were in flight on one client.",
            "oracle": "sequential model of the remote object in the order of sending, also with a simulated server that answers in any order"},
    "M03": {"scenarios": [("rpc_json", "json_ready", 1), ("rpc_bin", "bin_ready", 1)], "rule": "Non-trivial: outstanding calls were polled while a party between client and server controlled the arrival of the responses.",
            "oracle": "the bytes released to the client so far decide which calls may be ready; waits of the polling fiber are counted by the kernel; sequential model of the results"},
    "C01": {"scenarios": [("rpc_json", "json_fail", 3), ("rpc_bin", "bin_fail", 3), ("rpc_types", "json_fail_cut", 1), ("rpc_types", "bin_fail_cut", 1)], "rule": "Non-trivial: at least one call failed because of an injected fault.",
            "oracle": "the server's log executed by a sequential model: every returned value is the one its single execution gave; bounded simulated time; a fresh call works after the faults"},
    "C02": {"scenarios": [("rpc_json", "json_garbage", 2), ("rpc_bin", "bin_garbage", 2), ("rpc_bin", "bin_garbage_wide", 1)], "rule": "Non-trivial: at least one call failed because of a corrupted response.",
            "oracle": "AddressSanitizer, fill patterns of unwritten memory, memory limit, bounded simulated time"},
    "C03": {"scenarios": [("rpc_json", "json_errors", 1)], "rule": "Non-trivial: the run has both calls that failed and calls that succeeded.",
            "oracle": "the failures put on the wire by a party between client and server, by position; sequential model for the other calls"},
    "R03": {"scenarios": [("srv_http", "forms", 1)], "rule": "Non-trivial: at least two form requests were answered.",
            "oracle": "an independent form encoder and decoder; the calls expected from each peer's requests as an interleaving of the server's log"},
    "J01": {"scenarios": [("srv_http", "json_requests", 1)], "rule": "Non-trivial: at least two JSON-RPC requests were answered.",
            "oracle": "an independent JSON parser; the response, error and executions JSON-RPC demands for each request, notification and batch, with a sequential model of the object"},
    "S01": {"scenarios": [("srv_http", "http_stream", 3), ("srv_http", "isolated", 1)], "quick_runs": 14000, "rule": "Non-trivial: at least two responses were judged.",
            "oracle": "the response each request demands on its own, in the order of the requests; an independent HTTP parser; comparison with the same requests sent alone"},
    "S06": {"scenarios": [("srv_http", "http_response", 1)], "rule": "Every run is non-trivial: a responder wrote at least one response.",
            "oracle": "the bytes the responder wrote, the type it gave, and whether it failed; an independent HTTP parser"},
    "S02": {"scenarios": [("srv_conn", "bin_stream", 1)], "rule": "Non-trivial: at least two messages ran a method.",
            "oracle": "an independent encoder of the messages and their responses, with a sequential model of the object; the calls expected from each peer as an interleaving of the server's log"},
    "S03": {"scenarios": [("srv_conn", "faulty_peers", 1)], "quick_runs": 14000, "rule": "Every run is non-trivial: peers that misbehave and peers that don't share a server.",
            "oracle": "the response each request of a well-behaved peer demands on its own; a new connection works after the faults; descriptors are released"},
    "S04": {"scenarios": [("srv_conn", "connections", 1)], "rule": "Non-trivial: more than three connections came and went in the measured phase.",
            "oracle": "descriptors open in the simulated process and live heap memory against the connections the scenario keeps open; uses of closed descriptors counted by the kernel"},
    "S05": {"scenarios": [("srv_conn", "server_garbage", 3), ("rpc_types", "server_garbage_sizes", 1)], "rule": "Every run is non-trivial: garbage was sent.",
            "oracle": "AddressSanitizer, fill patterns of unwritten memory, peak of the heap against the bytes sent, bounded simulated time and steps; messages with incomplete arguments are neither run nor answered; a proper request is answered afterwards"},
    "L01": {"scenarios": [("srv_conn", "server_stop", 1)], "rule": "Non-trivial: the server was destroyed and the consequences were checked.",
            "oracle": "simulated time of the destructor; prefix of the responses demanded; descriptors; a second server on the same port; no handling after destruction"},
    "L02": {"scenarios": [("srv_conn", "average_time", 1)], "rule": "Non-trivial: more than one message was handled.",
            "oracle": "simulated time spent in handlers (lower bound) and seen by the peers (upper bound), divided by the number of messages"},
    "L03": {"scenarios": [("srv_conn", "polled_rounds", 1)], "rule": "Every run is non-trivial: rounds were executed with connections open.",
            "oracle": "waits of the polling fiber counted by the kernel; responses each request demands; progress within a number of rounds linear in what was asked"},
    "F01": {"scenarios": [("files", "file_content", 30), ("files", "file_large", 1)], "quick_runs": 16000, "rule": "Non-trivial: at least one file was served.",
            "oracle": "the content written to the simulated disk or registered as generated; the documented table of types"},
    "F02": {"scenarios": [("files", "file_escape", 1)], "rule": "Every run is non-trivial: crafted paths were requested.",
            "oracle": "the files opened on the simulated disk by their real paths; marked contents outside the folder"},
    "F03": {"scenarios": [("files", "file_snapshot", 1)], "rule": "Non-trivial: after a reload, a request was made for a file that was different on the disk.",
            "oracle": "model of the cache: disk at the last load plus generated files; log of disk accesses"},
    "F04": {"scenarios": [("files", "file_reload", 1)], "quick_runs": 14000, "rule": "Non-trivial: a load or addition overlapped a request.",
            "oracle": "history of loads, additions and requests: each response must be one whole version that was on the disk during a load not superseded before the request began"},
    "F05": {"scenarios": [("files", "file_faults", 1)], "quick_runs": 12000, "rule": "Non-trivial: a request was refused or broken off because of a disk fault, or a cache was loaded under faults.",
            "oracle": "every content each file has ever had; exact contents again once faults have stopped; open descriptors"},
}
PLAN["R04"] = {"scenarios": [("updates", "updates", 1)], "quick_runs": 12000, "rule": "Non-trivial: at least two updates were made.",
    "oracle": "a model that applies each update to the object by the rules stated; the object read back through connections in every format; the same updates applied to mirrors"}
PLAN["R05"] = {"scenarios": [("rpc_form", "form_client", 1)], "rule": "Non-trivial: at least two calls ran on the server.",
    "oracle": "the calls made, executed by a sequential model in the order of the server's log; the server's answers to each"}
PLAN["D01"] = {"scenarios": [("describe", "described", 1)], "quick_runs": 10000, "rule": "Non-trivial: at least two methods were described and two calls made.",
    "oracle": "the methods put into each randomly composed tree, with their parameters and types restated in the scenario; an independent JSON parser; calls generated from nothing but the description, which must run exactly the method they name and return what is described"}
PLAN["T01"] = {"scenarios": [("races", "race_statistics", 1), ("races", "race_files", 1), ("races", "race_separate", 1)],
    "rule": "Non-trivial: more than a thousand memory accesses were checked.",
    "oracle": "happens-before relation over all memory accesses of the library and the standard library's templates, kept as vector clocks over the program's own synchronisation; results of calls compared with the values expected",
    "components": {
        "real": ["all Bomba headers of /repo's working tree, unmodified", "libstdc++ networking TS, containers, strings, std::thread, std::mutex, std::shared_mutex, all instrumented", "instrumentation of every memory access by the compiler (-fsanitize=thread)"],
        "stub": ["the runtime of the instrumentation: sim/race.cpp, vector clocks over fibers", "sockets, clocks, threads, mutexes, files: as for the other checks", "code inside libstdc++.so (file streams, directories) isn't instrumented: its accesses aren't seen"]}}
_SCRIPT = {
    "real": ["public_html/bomba.js of /repo's working tree, unmodified, run by node's JavaScript engine", "all Bomba headers of /repo's working tree, unmodified, as the server", "libstdc++ networking TS, std::thread"],
    "stub": ["fetch() and node-fetch: sim/browser.mjs, every request carried over a simulated connection by scen/web.cpp", "the DOM: the elements, fields and buttons forms are made of", "sockets, clocks, threads, files: as for the other checks"]}
PLAN["W01"] = {"scenarios": [("web", "script_calls", 1)], "quick_runs": 8000, "rule": "Non-trivial: at least two calls were sent.", "components": _SCRIPT,
    "oracle": "the arguments generated for each call against what the server's methods were given; the outcome of each promise against what that execution gave, or the failure injected"}
PLAN["W02"] = {"scenarios": [("web", "script_forms", 1)], "quick_runs": 8000, "rule": "Non-trivial: at least two forms were filled in and sent.", "components": _SCRIPT,
    "oracle": "the values entered into the fields against what the server's methods were given; the result in the server's response against the form's texts"}
PLAN["S07"] = {"scenarios": [("custom", "custom_server", 1), ("custom", "custom_client", 1)], "quick_runs": 20000, "rule": "Non-trivial: peers exchanged messages with a custom protocol on the server; more than one response was collected by a custom protocol on the client.",
    "oracle": "the bytes each party sent; each call of the user's protocol must continue the stream exactly where it had consumed it; the responses that a protocol defined in the scenario demands"}
PLAN["C04"] = {"scenarios": [("tls", "tls_json_call", 2), ("tls", "tls_bin_call", 2), ("tls", "tls_json_pipeline", 2), ("tls", "tls_bin_pipeline", 1), ("tls", "tls_json_ready", 1), ("tls", "tls_bin_ready", 1), ("tls", "tls_json_fail", 2), ("tls", "tls_bin_fail", 1)],
    "quick_runs": 10000, "rule": "Non-trivial: as for the same scenario with the plain client (R01, R02, M01, M02, M03, C01).",
    "oracle": "the same as for R01, R02, M01, M02, M03 and C01; a simulated party decrypts what the client sends and passes it to the real server",
    "components": {
        "real": ["tls/tls_sync_client.hpp and all Bomba headers of /repo's working tree, unmodified", "Boost.Asio with its TLS streams", "OpenSSL's client side", "libstdc++ networking TS for the server"],
        "stub": ["the TLS side of the server: OpenSSL over memory buffers in scen/tlsfront.hpp, with a fixed key", "randomness of OpenSSL: drawn from the seed", "sockets, epoll, clocks, threads: as for the other checks"]}}
LEVEL_NOTE = ["The simulated sockets, clock, threads and disk behave as Linux does for the operations used (see DESIGN.md, 'Trusted base')."]
COMPONENTS = {
    "real": ["all Bomba headers of /repo's working tree, unmodified", "libstdc++ networking TS, std::thread, std::mutex, std::filesystem, std::fstream above the system calls", "AddressSanitizer instrumentation of all of them"],
    "stub": ["sockets, poll, eventfd/pipe, name resolution: simulated TCP", "clocks and timers: simulated time", "pthread threads, mutexes, condition variables, rwlocks: fibers under the seeded scheduler", "files and directories: simulated disk"],
}
NOT_APPLICABLE = {
    "N01": "A pure function of its input: no schedule, clock, I/O, fault or second party for the result to depend on. The values that cross a connection are covered by R01, R02 and R03.",
    "N03": "The server's own header says THIS DOESN'T WORK, and the documentation repeats it, so it promises nothing yet that could be decided. The TLS client is decided by C04.",
}
