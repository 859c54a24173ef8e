#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook="none"):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over.split(), "text": qtext},
      "why_tests_cant": why,
      "anchors": {"files": files.split(),
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
        "observe_at": observe, "hook_needed": hook}})

p("C01", "Every request is answered once, to its sender, with its own data",
  "A Z39.50 client that sends requests one at a time through the proxy receives, for each of them and on its own connection, exactly one response of the matching type that carries the request's reference id and the data its own earlier requests selected, in that order, followed by no unsolicited message. This holds whatever the other clients, threads and backends do, and whether or not the session crosses pass-through filters on the route.",
  "schedules histories inputs", "every number of concurrent clients, request sequence, segmentation of the byte streams, worker-thread interleaving and backend delay",
  "The unit tests run one package through one filter in one thread; they never have two clients whose packages share a router, a thread pool and a poll loop.",
  "src/filter_frontend_net.cpp src/thread_pool_observer.cpp src/package.cpp src/session.cpp src/router_chain.cpp src/router_flexml.cpp src/filter_z3950_client.cpp",
  [("recv_GDU / result", "src/filter_frontend_net.cpp"), ("Package::move, RoutePos", "src/package.cpp, src/router_flexml.cpp"), ("per-session backend association", "src/filter_z3950_client.cpp")],
  ["client socket: sequence of response APDUs", "backend socket: requests received"])
p("C02", "No client input or disconnect can crash or wedge the proxy",
  "Whatever bytes a client sends (garbage, truncated or oversized messages, APDUs out of protocol order, absurd numeric arguments, responses instead of requests, HTTP on a Z39.50 port) and whenever it disconnects, the proxy neither crashes, nor reads or writes memory out of bounds, nor stops serving. Well-behaved clients connected at the same time keep getting correct answers, and a client connecting afterwards is served normally.",
  "inputs schedules fault_sequences", "every byte sequence and every point at which a connection is closed or reset, in every interleaving with other clients",
  "The tests feed well-formed packages directly to filters; no test sends bytes, drops a connection or has a second client watching.",
  "src/filter_frontend_net.cpp src/thread_pool_observer.cpp src/filter_z3950_client.cpp src/filter_bounce.cpp src/filter_log.cpp src/filter_present_chunk.cpp src/filter_sort.cpp src/filter_sru_to_z3950.cpp",
  [("recv_GDU, failNotify, cleanup of queued packages", "src/filter_frontend_net.cpp"), ("cleanup of queued messages", "src/thread_pool_observer.cpp")],
  ["process liveness, sanitizer reports", "responses seen by the control clients"])
p("C03", "A failing backend costs its client a timely error, nothing else",
  "When a Z39.50 backend refuses, delays, drops, resets, truncates or corrupts its responses, the client of that session gets a diagnostic, a Close or end of connection within the configured backend timeout plus a small margin, and never a response mixing in another request's data. The proxy does not crash, other sessions are unaffected, and the same target works again for new sessions once it is healthy.",
  "fault_sequences schedules", "every sequence of backend faults at every point of every session, under every interleaving",
  "The tests only know a backend that answers; the z3950_client test needs a live server and does not run here.",
  "src/filter_z3950_client.cpp src/filter_frontend_net.cpp",
  [("send_and_receive, timeoutNotify, failNotify", "src/filter_z3950_client.cpp")],
  ["client socket", "simulated time between request and reply"],
  [("m_waiting, m_destroyed", "whether a session's backend association expects a reply", "src/filter_z3950_client.cpp")])
p("C04", "Sessions are distinct and give back everything they used",
  "Two client connections never share session state: each has its own backend connection unless a sharing filter is configured. When a client's connection ends, for whatever reason and at whatever moment, every backend connection, descriptor and per-client slot held for it is released within a bounded time, so that after any history the proxy returns to the resource level of a fresh start.",
  "histories schedules fault_sequences", "every history of connects, requests and disconnects, including disconnects while a request is queued or being processed",
  "Leaks and cross-talk need many sessions ending at awkward moments while worker threads are busy; tests run one session to completion.",
  "src/filter_frontend_net.cpp src/session.cpp src/filter_z3950_client.cpp src/package.cpp",
  [("session close package on disconnect", "src/filter_frontend_net.cpp"), ("release_assoc", "src/filter_z3950_client.cpp"), ("session id generator", "src/session.cpp")],
  ["descriptors held by the proxy", "connections open at the backends", "connections accepted per backend session"])
p("C05", "The worker pool runs every job once and reports every result once",
  "Every job put into the worker pool is handled exactly once by one worker and its result is delivered exactly once, on the thread that runs the event loop; no job or result is lost, duplicated or delayed forever while a worker is free. The number of workers stays between the configured minimum and maximum, jobs cancelled before they start are destroyed without being run, and destroying the pool ends every worker.",
  "schedules histories", "every arrival pattern, worker interleaving, spurious wake-up and cancellation point",
  "test_thread_pool_observer needs YAZ++ and does not run here, and a real run shows one interleaving of three threads.",
  "src/thread_pool_observer.cpp src/thread_pool_observer.hpp src/pipe.cpp",
  [("put, run, socketNotify, cleanup, get", "src/thread_pool_observer.cpp")],
  ["handle/result/cleanup calls of instrumented jobs", "threads alive"],
  [("m_input, m_output", "queued jobs and results", "src/thread_pool_observer.cpp")])
p("C06", "A shared backend session is indistinguishable from a private one",
  "With the session-sharing filter configured, every client gets the hit counts, records, scan results and diagnostics that its own requests would produce on a private connection to the target: the right query, database, result-set name, record syntax and element set, whatever other clients share the connections, whenever sets or connections expire or fail. A client never waits forever.",
  "schedules histories fault_sequences", "every interleaving of clients sharing targets, expiry instants, backend failures and cache states",
  "There is no test of the sharing filter beyond configuration; the property is about many clients over time.",
  "src/filter_session_shared.cpp",
  [("get_set, search, present, scan", "src/filter_session_shared.cpp"), ("record cache", "src/filter_session_shared.cpp")],
  ["client responses compared with a private-session model", "requests received by the backends"])
p("C07", "Session sharing respects keys, exclusivity, limits and expiry",
  "A shared backend connection carries at most one outstanding request at a time and only requests of clients whose initial credentials and target are those it was opened with. The number of connections per target and credentials stays within the configured maximum, and idle connections are closed after the configured time-to-live plus a bounded delay.",
  "schedules histories", "every interleaving and history of clients with equal and different credentials",
  "Needs several clients, a clock and observation of the backend side; no test has any of them.",
  "src/filter_session_shared.cpp",
  [("get_backend, release_backend, expire", "src/filter_session_shared.cpp"), ("InitKey", "src/filter_session_shared.cpp")],
  ["backend: outstanding requests per connection, credentials per connection, open connections over time"])
p("C08", "Merged search and paging over several targets lose and invent nothing",
  "A search through the multi filter reports the sum of the targets' hit counts, and a present of any window of the merged set returns exactly the records the documented merge order assigns to that window: each target's records in their order, each record once, no gaps and no duplicates across any sequence of windows. This holds for every order in which the targets answer.",
  "inputs schedules histories", "every number of targets, hit-count vector, merge order, present window and reply order",
  "test_filter_multi only constructs the filter; merge order over windows is a function of target sizes and request history.",
  "src/filter_multi.cpp",
  [("Multi::FrontendSet::serve_order, round_robin", "src/filter_multi.cpp"), ("multi_move worker threads", "src/filter_multi.cpp")],
  ["client: hit count and record sequence", "backends: presented ranges"])
p("C09", "Multi-target failures follow the configured policy; scan merges correctly",
  "When some targets fail to connect, initialise, search or present, the client gets either the merged answer of the remaining targets (when errors are hidden) or a diagnostic, never a crash, hang, silent short result or mislabelled record. A merged scan lists the union of the targets' terms in order, with summed counts, at most the requested number, around the requested position.",
  "fault_sequences schedules inputs", "every subset of targets failing in every way at every step",
  "No test involves more than zero targets.",
  "src/filter_multi.cpp",
  [("init, search, present, scan1, scan2", "src/filter_multi.cpp")],
  ["client responses", "backend requests"])
p("C10", "Virtual databases route each set to its own target",
  "Through the virtual-database filter each search reaches exactly the target(s) configured for the requested database, with the client's own credentials and nothing sent to others; later present and scan requests address the backend set the named result set was created on, for any interleaving of several sets over several databases in one session. Unknown databases and unknown sets yield the standard diagnostics and leave existing sets intact.",
  "histories inputs schedules", "every history of searches and presents over named sets and databases, targets with and without named result sets, failing targets",
  "test_filter_virt_db performs a handful of fixed steps against bounce.",
  "src/filter_virt_db.cpp",
  [("get_backend_from_databases, create_backend, search, present, scan", "src/filter_virt_db.cpp")],
  ["client responses", "per-backend request logs"])
p("C11", "Load balancing keeps a session on one live target and its counts true",
  "With the load-balancing filter every session's packages all go to one target chosen at init among those the client listed; an open session never moves. The balancer's idea of how many live sessions each target has equals the real number after every history of opens, closes and failures, so that when sessions open one after another the one target with strictly fewest live and recently failed sessions is preferred.",
  "histories schedules", "every history of session starts, ends and backend failures",
  "No test exists for this filter.",
  "src/filter_load_balance.cpp",
  [("process, cost, add_session, remove_session, add_package, remove_package, add_dead", "src/filter_load_balance.cpp")],
  ["init requests' target per session at the backends", "distribution of sessions"])
p("C12", "Frontend limits hold and recover",
  "The configured maxima of simultaneous connections (total and per client address), message size, HTTP requests per window and idle time are enforced by the frontend: excess connections or messages are refused, idle connections are closed within the timeout plus a bounded delay, and connections within the limits are never refused. Once the load is gone the full capacity is available again.",
  "histories schedules fault_sequences", "every history of connects, disconnects and requests over time from several addresses",
  "Counters over histories of connects and time; tests have neither sockets nor clock.",
  "src/filter_frontend_net.cpp",
  [("LimitConnect use, http-req-max, connect-max, session timeout, max_recv_bytes", "src/filter_frontend_net.cpp")],
  ["accepted vs refused connections", "time at which idle connections end"])
p("C13", "Only authorised users reach targets and databases",
  "With simple authentication configured, a session whose init does not carry registered credentials never has any request forwarded, and a search or scan naming a database outside the session user's list is refused and not forwarded, whatever other sessions do concurrently. A session with valid credentials and permitted databases or targets is always let through, under its own user's rights even when users log in and out on reused connections.",
  "histories schedules inputs", "every interleaving of sessions of different users over the shared registers",
  "test_filter_auth_simple only checks that configuration loads.",
  "src/filter_auth_simple.cpp",
  [("process_init, process_search, process_scan, check_targets", "src/filter_auth_simple.cpp")],
  ["requests seen by the backend", "client responses"],
  [("userBySession", "logged-in user per session, shared by all threads", "src/filter_auth_simple.cpp")])
p("C14", "Rate limiting delays only offenders and caps retrieval",
  "With the limit filter a session exceeding its search, PDU or bandwidth allowance is slowed down but every request is still answered correctly and in order; a present asking for more than the retrieval maximum returns at most that many records, and sessions within their allowance are not delayed while a worker thread is free.",
  "histories schedules inputs", "every request history, clock position and mix of sessions",
  "No test exists; the behaviour is a function of time and history.",
  "src/filter_limit.cpp",
  [("process", "src/filter_limit.cpp")],
  ["simulated response times per session", "number of records"])
p("C15", "Chunked presents equal one large present",
  "A present split into chunks by the chunking filter yields exactly the records, in order, and the status the unsplit present would yield, for every chunk size, window and backend behaviour (fewer records than asked, a diagnostic in the middle, a closed connection). It always terminates with one response carrying the request's reference id.",
  "inputs fault_sequences", "every chunk size, requested window and backend fault position",
  "No test exists for this filter; backend faults in the middle of a chunk sequence are not reachable from unit tests.",
  "src/filter_present_chunk.cpp",
  [("handle_package", "src/filter_present_chunk.cpp")],
  ["client response", "requests at the backend"])
p("C16", "Result sorting is a complete reordering of the prefetched window",
  "With the sorting filter, the first present of a result set (or search that returns records) prefetches a window, and presents inside it return exactly the target's records of the requested syntax and element set reordered by the configured key in the configured direction, each once and always at the same position; presents reaching outside the window return the target's own records, and reference ids and counts are right. Concurrent sessions and failing backends do not disturb this and cause no crash.",
  "inputs schedules fault_sequences", "every set size, prefetch size, window, key distribution and backend fault",
  "No test exists for this filter.",
  "src/filter_sort.cpp",
  [("Frontend search/present, RecordList", "src/filter_sort.cpp")],
  ["client records against a sorting model"])
p("C17", "SRU requests get the records and diagnostics of the Z39.50 target",
  "Every SRU searchRetrieve through the SRU filter receives one HTTP response whose hit count, record window and positions match the target's answer for that query, or an SRU diagnostic when the request or the target fails. Keep-alive connections carry several requests without mixing them, and target failures or odd record counts never crash or hang the gateway.",
  "inputs schedules fault_sequences", "every request window, target behaviour and interleaving of HTTP connections",
  "test_filter_sru_to_z3950 does not run here and sends one request into a stub.",
  "src/filter_sru_to_z3950.cpp src/sru_util.cpp",
  [("process, z3950_init_request, z3950_search_request, z3950_to_srw_present", "src/filter_sru_to_z3950.cpp")],
  ["HTTP responses", "requests at the Z39.50 backend"])
p("C18", "ZOOM sessions give each client its own target's answers, failures included",
  "Through the ZOOM filter each client's searches and presents reach the target its database name is configured for and return that target's hits and records for that client's query, in order; unknown databases, unreachable targets and backend errors give diagnostics within the configured timeout, after which the session remains usable. Clients never see each other's sets or connections.",
  "schedules histories fault_sequences", "every interleaving of clients, target switches within a session and backend faults",
  "test_filter_zoom-like tests need the network; nothing exercises the filter here.",
  "src/filter_zoom.cpp src/torus.cpp",
  [("Frontend::handle_package, get_backend_from_databases, auto_reconnect", "src/filter_zoom.cpp")],
  ["client responses", "backend request logs"])
p("C19", "HTTP proxying relays each exchange intact and one-to-one",
  "Every HTTP request forwarded by the HTTP client filter reaches its origin server with its method, path and body, and its client receives exactly that server's response (status, headers, body), or a well-formed error response if the server cannot be reached or breaks off before or within the body it announced; responses are never swapped between clients or requests on a keep-alive connection. Rewriting filters on the route apply only their configured substitutions, to their own request's text.",
  "schedules fault_sequences inputs", "every interleaving of HTTP clients, server faults and stream segmentation",
  "Rewrite tests call the filter once with a fixed document; no test has an HTTP server or two clients.",
  "src/filter_http_client.cpp src/filter_http_rewrite.cpp src/filter_frontend_net.cpp",
  [("Rep::proxy", "src/filter_http_client.cpp"), ("rewrite phases", "src/filter_http_rewrite.cpp")],
  ["HTTP client and origin server message logs"])
p("C20", "CGI requests run once, return their output and leave no process behind",
  "Every request matching a CGI path starts exactly one child with that request's environment and input, and the client receives exactly that child's output; a child that fails, writes nothing or stalls yields an error response in bounded time. Afterwards no child, descriptor or worker thread stays behind, whichever side ends first.",
  "schedules fault_sequences", "every interleaving of concurrent CGI requests, child behaviours and failing fork or pipe calls",
  "No test exists for this filter.",
  "src/filter_cgi.cpp",
  [("CGI::Rep, process, child", "src/filter_cgi.cpp")],
  ["simulated processes, pipes and descriptors", "HTTP responses"])
p("C21", "Served files are whole or refused, and only from the configured root",
  "A GET for a path under a configured file area returns status 200 with exactly the file's bytes, length and configured content type, and anything else (missing, unreadable, truncated or failing while read, directory, path escaping the root) returns an error status and no file content. Concurrent requests do not affect each other and no descriptor is left open.",
  "inputs fault_sequences schedules", "every request path, file state and read fault position",
  "No test exists for this filter; read errors cannot be produced by a unit test.",
  "src/filter_http_file.cpp",
  [("fetch_uri, fetch_file", "src/filter_http_file.cpp")],
  ["HTTP responses against the simulated file system", "paths opened"])
p("C22", "Stop signals end the proxy cleanly, without losing accepted work",
  "After SIGTERM the proxy stops listening and exits within a bounded time of the next event, with status 0 and without crashing whatever the worker threads are doing. After SIGUSR1 it stops accepting at once, keeps serving the connected clients correctly until they disconnect, and then exits.",
  "schedules crash_points", "every point in every execution at which the signal may arrive",
  "A signal at an arbitrary point of a threaded run cannot be placed by a test.",
  "src/filter_frontend_net.cpp src/metaproxy_prog.cpp src/router_flexml.cpp src/thread_pool_observer.cpp",
  [("stop, start, My_Timer_Thread-like pipe", "src/filter_frontend_net.cpp"), ("signal handlers", "src/metaproxy_prog.cpp")],
  ["process exit status and time", "client responses after the signal"])
p("C23", "Filters without sessions treat each request as if it were alone",
  "The per-request filters (query rewriting, CQL conversion, record transformation, explain handling, logging, surrogate removal, bounce) produce for every request and response the result they produce when it is the only one in the system, whatever other requests are in progress. Log output consists of whole lines, each about one request.",
  "schedules inputs", "every interleaving of requests of several clients through shared filter instances",
  "The tests run each filter in one thread; hidden shared state only shows with concurrent requests.",
  "src/filter_query_rewrite.cpp src/filter_cql_rpn.cpp src/filter_record_transform.cpp src/filter_log.cpp src/filter_sd_remove.cpp src/filter_bounce.cpp src/filter_zeerex_explain.cpp",
  [("process", "src/filter_record_transform.cpp, src/filter_query_rewrite.cpp, src/filter_cql_rpn.cpp, src/filter_log.cpp")],
  ["queries at the backend, records at the client, lines of the log file"])
p("C24", "Backend connections are private, capped and follow the session's target",
  "Each client session that initialises through the Z39.50 client filter uses one backend connection of its own, to the target named in its init request or else the default, opened before the init is forwarded and closed when the session ends. Never more than the configured number of connections to a target are open, sessions beyond it get a diagnostic or wait rather than share, and a slot freed is available again.",
  "schedules histories fault_sequences", "every history of session starts and ends over several targets",
  "Needs several sessions and a view of the backend's side of the connections.",
  "src/filter_z3950_client.cpp",
  [("get_assoc, check_max, release_assoc", "src/filter_z3950_client.cpp")],
  ["connections accepted by each backend over time"])
p("C25", "The built-in test target behaves as a consistent Z39.50 server",
  "Every session on the built-in test backend gets searches of the fixed size, records that depend on their position, syntax and element set only, presents and piggyback windows that return exactly the requested records or the standard diagnostic (out of range, syntax, element set), and options negotiated by itself: what other sessions do or negotiate has no effect on it. Requests before init and requests that are not supported end the session with a Close; no request, whatever its numbers or names, stops the server.",
  "schedules histories inputs", "every request history of several concurrent sessions",
  "test_filter_backend_test runs one fixed sequence in one thread.",
  "src/filter_backend_test.cpp",
  [("process, fetch", "src/filter_backend_test.cpp")],
  ["client responses"])
p("C26", "Threads never touch shared data without synchronisation",
  "Whatever mix of clients, filters and backends is at work, two threads of the proxy never access the same data at the same time when at least one of them changes it: any two such accesses are ordered by a lock, by handing the package over, or by starting or joining a thread. Session tables, caches, counters, pools and statistics kept by filters therefore never lose updates, are never read half changed, and never depend on which worker thread handles a package.",
  "schedules histories fault_sequences", "every pair of accesses by two threads in every execution of every filter and of the event loop and its thread pool",
  "Tests run filters in one thread; a missing lock shows only under particular timing, and most often not even then.",
  "src/thread_pool_observer.cpp src/filter_frontend_net.cpp src/filter_z3950_client.cpp src/filter_session_shared.cpp src/filter_virt_db.cpp src/filter_multi.cpp src/filter_load_balance.cpp src/filter_auth_simple.cpp src/filter_limit.cpp src/filter_sort.cpp src/filter_http_client.cpp src/filter_http_file.cpp src/filter_cgi.cpp src/filter_zoom.cpp src/filter_record_transform.cpp src/filter_sru_to_z3950.cpp src/session.cpp",
  [("mutex and condition of each filter's Rep or Impl", "src/filter_*.cpp"), ("input and output queues", "src/thread_pool_observer.cpp"), ("session id counter", "src/session.cpp")],
  ["loads and stores of each thread, in the order of its locks"])
p("N01", "HTML rewriting finds exactly the link attributes of a document",
  "For every document the HTML scanner reports tags, attributes and text such that re-emitting them reproduces the document outside the rewritten attributes.",
  "inputs", "every byte string", "Tests sample a dozen documents.",
  "src/html_parser.cpp", [("parse_str", "src/html_parser.cpp")], ["callback sequence"])
p("N02", "URL recipes and XML configuration decode to their documented meaning",
  "Expanding a URL recipe and reading an XML configuration are pure functions of their text with the documented result for every input.",
  "inputs configurations", "every recipe and configuration text", "Tests sample a few texts.",
  "src/url_recipe.cpp src/xmlutil.cpp src/router_flexml.cpp src/router_xml.cpp", [("build, get_int, check_element_mp", "src/url_recipe.cpp, src/xmlutil.cpp")], ["return values"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
