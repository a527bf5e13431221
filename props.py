"""The properties and how each one is checked: single source for
properties.jsonl, MANIFEST.json (gen.py) and run.py."""

P = []


def prop(id, title, statement, over, text, why, files, mech, runs,
         observe=None, state=None, assumptions=None, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech, runs=runs,
                  observe=observe, state=state,
                  assumptions=assumptions or [], note=note, na=na))


def R(h, scenario, flavour="asan", time=150, **kw):
    d = dict(h=h, scenario=scenario, flavour=flavour, time=time)
    d["params"] = kw.pop("params", {})
    d["thorough"] = kw.pop("thorough", {})
    d.update(kw)
    return d


prop("P01", "Session identity is unique, stable and thread-safe",
     "Every session that is created, by whatever number of threads at the "
     "same time and however many sessions were made before, gets an "
     "identifier no other session has. Copies and assignments carry the "
     "identifier and the closed mark of their source, equality and ordering "
     "agree with the identifier, and closing marks exactly that object and "
     "is never undone. Per-session data is found exactly between its "
     "creation and its release, also when threads use the map concurrently.",
     ["schedules", "histories"],
     "all interleavings of 2-3 threads creating/copying/looking up sessions "
     "(preemption-bounded), all operation histories up to a depth",
     "the unit tests create sessions from many free-running threads and "
     "look only at the sum; no schedule is controlled",
     ["include/metaproxy/session.hpp", "src/session.cpp"],
     [("global id counter under a mutex", "include/metaproxy/session.hpp "
       "Session::Session()"),
      ("session_map", "include/metaproxy/session.hpp session_map")],
     [R("session", "sess_ids", params=dict(preempt=3),
        thorough=dict(preempt=5)),
      R("session", "sess_ids", "race", params=dict(preempt=2, atomicpoints=1),
        thorough=dict(preempt=4)),
      R("session", "sess_many", thorough=dict(log2=25)),
      R("session", "sess_jump"),
      R("session", "sess_ops", thorough=dict(depth=5)),
      R("session", "sess_map_ops", thorough=dict(depth=7)),
      R("session", "sess_map_mt", params=dict(preempt=3),
        thorough=dict(threads=3)),
      R("session", "sess_map_mt", "race", params=dict(preempt=2),
        thorough=dict(threads=3, preempt=3))])

prop("P02", "A package visits exactly the filters its route prescribes",
     "A package processed by a router visits the filters of the start route "
     "in configured order, each exactly once per pass, until a filter stops "
     "it, moves it to another named route (whose filters then follow from "
     "the first) or the route ends. A package branched off another one "
     "starts where its source stood, and from then on neither moves the "
     "other; positions of different packages are independent. Moving to a "
     "route that does not exist processes nothing and leaves the position "
     "as it was, and every filter on any route is started and stopped with "
     "the router.",
     ["configurations", "histories"],
     "all assignments of pass/stop/move/branch/repeat behaviours to filters "
     "on up to three routes, all interleavings of up to 3 route positions, also "
     "those of two threads",
     "the tests run one or two packages through one fixed route",
     ["src/router_chain.cpp", "src/router_flexml.cpp", "src/package.cpp"],
     [("route position", "src/router_flexml.cpp Pos::move, Pos::clone"),
      ("chain position", "src/router_chain.cpp Pos::move, Pos::clone"),
      ("package", "src/package.cpp move, copy_filter, copy_route")],
     [R("route", "flex_walk", params=dict(fault=2), thorough=dict(fault=4)),
      R("route", "chain_walk", params=dict(fault=5, len=5),
        thorough=dict(fault=6, len=6)),
      R("route", "pos_interleave", thorough=dict(depth=5)),
      R("route", "pos_mt", params=dict(depth=2, preempt=1),
        thorough=dict(depth=2, preempt=4)),
      R("route", "pos_mt", "race", params=dict(depth=2, preempt=1),
        thorough=dict(depth=2, preempt=3))])

prop("P03", "Inconsistent configurations are refused, consistent ones run",
     "A configuration is accepted exactly when it has the metaproxy root "
     "element, a start element naming an existing route, only known elements "
     "and attributes where they belong, unique filter ids and route ids, "
     "known filter types, filter references that resolve, and every route "
     "named by a filter's settings exists. Anything else is refused with an "
     "error before any package is processed. Every configured filter is "
     "configured exactly once and told whether this is only a test of the "
     "configuration.",
     ["configurations"],
     "a family of configurations: every combination of up to `fault` "
     "deviations from valid ones with up to 2 named filters and 2 routes",
     "the tests try half a dozen hand-written documents",
     ["src/router_flexml.cpp"],
     [("configuration parser", "src/router_flexml.cpp parse_xml_config_dom, "
       "parse_xml_filters, parse_xml_routes, check_routes_in_filters")],
     [R("route", "flex_config", params=dict(fault=2),
        thorough=dict(fault=3))])

prop("P04", "The filter factory hands out exactly what was registered",
     "A filter type can be created exactly while it is registered; creating "
     "it gives a new filter made by the creator registered first, and an "
     "unknown type is an error. Registering a taken name is refused and "
     "changes nothing, dropping reports whether the name was there, and "
     "loading a type that is already known leaves it as it is.",
     ["histories"],
     "all operation sequences up to the depth over four names of modules to "
     "load (good, without a filter, no library, missing), and over four names including the "
     "empty one and one loadable from the executable",
     "one fixed sequence of calls is tested",
     ["src/factory_filter.cpp"],
     [("creator map", "src/factory_filter.cpp")],
     [R("small", "factory_load", thorough=dict(depth=5)),
      R("small", "factory_ops", params=dict(depth=4),
        thorough=dict(depth=5))])

prop("P05", "Configuration values are read from XML without loss or mix-up",
     "Text of an element or attribute is all of its direct text and nothing "
     "else; booleans are true exactly for 'true' and '1'; missing values "
     "give the default. Elements and attributes match only by full name and "
     "namespace, unsupported attributes and forbidden child elements are "
     "refused, each requested attribute gets its own value or the empty "
     "string, and navigation finds the first node of the wanted kind, "
     "skipping none.",
     ["inputs"],
     "all documents from a grammar: element name x namespace x prefix x "
     "attribute set and order x up to 3 children of 4 kinds; 19 values in 6 "
     "positions",
     "the tests never call these functions except through one recipe",
     ["src/xmlutil.cpp", "include/metaproxy/xmlutil.hpp"],
     [("XML helpers", "src/xmlutil.cpp")],
     [R("small", "xml_values"), R("small", "xml_structure")])

prop("P06", "A client cannot forge the address it is known by",
     "The address used for access control and limits is always that of the "
     "peer of the connection, and the listener address that of the listener, "
     "however many forwarded-for values of whatever content are added "
     "afterwards. The forwarded value is used only in the printed form, "
     "which is its first word (0 if empty), the most recent identifier and "
     "the custom session if set.",
     ["inputs", "histories"],
     "all sequences of up to 3 forwarded-for values from 16 adversarial ones "
     "(and 40 more of the same), 4 peers, 3 listeners, with identifier/session "
     "settings in between",
     "no test touches this class",
     ["src/origin.cpp", "include/metaproxy/origin.hpp",
      "src/filter_frontend_net.cpp"],
     [("address list", "src/origin.cpp set_tcpip_address, get_address, "
       "get_bind_address, operator<<")],
     [R("small", "origin_ops", thorough=dict(fwd=4, fault=2))])

prop("P07", "HTML is tokenised completely and loses no content",
     "For every document the parser reports open tags, attributes with their "
     "values and quotes, tag ends, close tags and text in document order, "
     "with script content as plain text up to its closing tag and comments "
     "and declarations as single tags. Put back together, the reported "
     "pieces are the document (except white space inside tags and the "
     "closing quote of a value cut off at the end); nothing outside the "
     "document is ever reported or read.",
     ["inputs"],
     "all strings up to length 6 over a 12-character alphabet (up to 5 with all "
     "white space), all sequences of up to 5 of 26 markup pieces, all pairs of "
     "documents of up to 2 pieces with one parser",
     "a dozen documents are tested",
     ["src/html_parser.cpp", "src/html_parser.hpp"],
     [("tokenizer", "src/html_parser.cpp parse_str, tagAttrs, skipAttribute, "
       "tagEnd")],
     [R("html", "html_chars", thorough=dict(len=8)),
      R("html", "html_tokens", params=dict(len=5), thorough=dict(len=6)),
      R("html", "html_reuse")])

prop("P08", "URL recipes expand exactly as documented",
     "Text outside of ${...} and %{...} is copied verbatim; a variable is "
     "replaced by the value of the metadata element of that type (the last one "
     "if there are several; a leading md- in its name is ignored), empty if "
     "there is none. A given pattern "
     "is replaced in that value, the first match only or all with g, "
     "ignoring case with i, and a backslash protects the characters that "
     "delimit the parts. With % the result is URI-encoded, with $ not.",
     ["inputs"],
     "all recipes up to 6 characters over a 14-character alphabet, all "
     "combinations of two variables from 17 names x 13 substitutions x "
     "literals x record variations, values up to 140 kB",
     "a dozen recipes are tested",
     ["src/url_recipe.cpp"],
     [("recipe interpreter", "src/url_recipe.cpp url_recipe_handle")],
     [R("recipe", "recipe_chars", params=dict(len=5), thorough=dict(len=6)),
      R("recipe", "recipe_pieces", thorough=dict(fault=2)),
      R("recipe", "recipe_sizes")])

prop("P09", "Sessions that have ended leave nothing behind in the filters",
     "Once a client's session has ended, whatever requests it sent, in whatever "
     "order, and however the target answered them (normally, with diagnostics, "
     "by closing, by disappearing, with records that cannot be parsed), the "
     "filters it went through hold no session at the target any more for it, "
     "and the memory and files in use do not grow with the number of sessions "
     "served. This holds for auth_simple, backend_test, bounce, cql_rpn, "
     "http_file, http_rewrite, limit, load_balance, log, multi, present_chunk, "
     "query_rewrite, record_transform, sd_remove, sort, sru_z3950 and virt_db.",
     ["inputs", "histories"],
     "all sequences of up to 4 requests of 12 kinds through 22 configurations of "
     "17 filters, those of up to 3 also with one or two deviating answers at each "
     "possible place, repeated five times with new sessions",
     "no test looks at memory across sessions, and most filters have only a "
     "configuration test",
     ["src/filter_auth_simple.cpp", "src/filter_cql_rpn.cpp",
      "src/filter_record_transform.cpp", "src/filter_multi.cpp",
      "src/filter_virt_db.cpp", "src/filter_load_balance.cpp",
      "src/filter_sru_to_z3950.cpp", "src/filter_sort.cpp"],
     [("sessions kept by filters", "src/filter_multi.cpp release_frontend"),
      ("sessions at targets", "src/filter_virt_db.cpp Frontend::close"),
      ("conversion resources", "src/filter_record_transform.cpp convert_npr")],
     [R("retain", "re_sessions", params=dict(depth=3, fault=2),
        thorough=dict(depth=4, fault=2)),
      R("retain", "re_sessions", params=dict(depth=4, fault=0),
        thorough=dict(depth=5, fault=0))])

prop("P10", "The worker pool handles and delivers every message exactly once",
     "Every message handed to the worker pool is handled exactly once by a "
     "worker thread and its result delivered exactly once by the thread that "
     "owns the pool, in whatever order the workers run, unless it was still "
     "waiting when the messages of its owner were discarded. Never more "
     "than the configured maximum of messages are handled at once, that "
     "many are when there are that many, a full queue makes the caller wait "
     "rather than lose a message, and destroying the pool always ends. "
     "Nothing shared between the threads is used without synchronisation.",
     ["schedules"],
     "all interleavings up to the preemption bound of 1-2 (max 3) workers "
     "and the owner with up to 3 messages (66 to fill the queue), discarding "
     "at every point",
     "the test runs free threads and counts results; schedules are chance",
     ["src/thread_pool_observer.cpp", "src/thread_pool_observer.hpp",
      "src/pipe.cpp"],
     [("queues and workers", "src/thread_pool_observer.cpp put, cleanup, run, "
       "socketNotify, destructor")],
     [R("pool", "pool_run", params=dict(preempt=2),
        thorough=dict(preempt=3)),
      R("pool", "pool_run", "race", params=dict(preempt=1),
        thorough=dict(preempt=2)),
      R("pool", "pool_grow", params=dict(max=2, extra=1),
        thorough=dict(max=3)),
      R("pool", "pool_stop", params=dict(preempt=2),
        thorough=dict(preempt=4)),
      R("pool", "pool_stop", "race", params=dict(preempt=1),
        thorough=dict(preempt=3)),
      R("pool", "pool_full", params=dict(preempt=1),
        thorough=dict(preempt=2))])

prop("P11", "Every client request is answered once, on its own connection",
     "Each request a client sends is processed once and its answer goes to "
     "that client's connection and no other, whatever else is going on, both "
     "with their bodies however these were sent; a request nobody handles is answered with a Close or HTTP error and ends "
     "the session. Each connection has one session of its own, whose end the "
     "route is told exactly once, whoever ended it; the connection is then "
     "closed as soon as nothing is outstanding and no longer counts. When "
     "told to stop gracefully, the server takes no new connections, serves "
     "the open ones to their end and then ends itself.",
     ["schedules", "histories"],
     "all interleavings (preemption-bounded) of a client with 1-2 "
     "connections and up to 2 pipelined requests of 8 kinds, leaving at once, "
     "later or never, with the event loop and 1-2 worker threads; sequences "
     "of 2 HTTP requests of every method, version, connection header and body "
     "encoding",
     "there is no test with more than a port that is opened and closed",
     ["src/filter_frontend_net.cpp", "src/thread_pool_observer.cpp",
      "src/package.cpp"],
     [("association life cycle", "src/filter_frontend_net.cpp "
       "ZAssocChild::recv_GDU, failNotify, ThreadPoolPackage::result"),
      ("event loop and stop", "src/filter_frontend_net.cpp process, stop")],
     [R("front", "front_run", params=dict(conns=1, reqs=2, preempt=2),
        thorough=dict(preempt=3)),
      R("front", "front_run", params=dict(conns=2, reqs=1, preempt=1),
        thorough=dict(preempt=2, reqs=2)),
      R("front", "front_run", "race", params=dict(conns=1, reqs=2, preempt=1),
        thorough=dict(preempt=2)),
      R("front", "front_http", params=dict(reqs=2),
        thorough=dict(reqs=3)),
      R("front", "front_drain", params=dict(preempt=1),
        thorough=dict(preempt=3)),
      R("front", "front_drain", "race", params=dict(preempt=1),
        thorough=dict(preempt=2))])

prop("P12", "Connection, request and idle limits are enforced as configured",
     "A connection is refused exactly when its peer matches a configured "
     "pattern whose limit of simultaneous connections, or of connections in "
     "the last minute, is reached; an HTTP request over the limit of its "
     "peer is refused with an error and its connection closed. The peer is "
     "the real one whatever the client claims, connections that are gone no "
     "longer count, idle ones are closed after the configured time, and the "
     "statistics page is served exactly when configured.",
     ["histories", "configurations"],
     "all histories up to the depth of connecting from two peers, HTTP and "
     "statistics requests, leaving and waiting, under 12 (24) limit "
     "configurations",
     "no test exercises any limit",
     ["src/filter_frontend_net.cpp", "src/util.cpp", "src/origin.cpp"],
     [("limits", "src/filter_frontend_net.cpp ZAssocServer::sessionNotify, "
       "ZAssocChild::recv_GDU, PeerStat"),
      ("pattern match", "src/util.cpp match_ip")],
     [R("front", "front_limits", params=dict(depth=4),
        thorough=dict(depth=6))])

prop("P13", "Each session has its own backend connection, properly answered",
     "A session's first Init opens one connection to the target it names (or "
     "the default or forced one); every request of the session is relayed on "
     "it unchanged, and the backend's answer goes to exactly that request, "
     "with diagnostics marked with the backend. If the backend cannot be "
     "reached, drops the connection or stays silent for the configured time, "
     "the request is answered with a Close and the session ends. There are "
     "never more connections to a target than allowed, and a connection is "
     "closed when its session ends, also with concurrent requests.",
     ["histories", "schedules", "fault patterns"],
     "all histories of two sessions up to the depth over 8 operations with "
     "up to `fault` backend faults; all preemption-bounded interleavings of "
     "3 sessions sharing 1-2 sockets and of concurrent requests of one "
     "session with its end",
     "the tests configure the filter and send an Init without target",
     ["src/filter_z3950_client.cpp"],
     [("connection per session", "src/filter_z3950_client.cpp get_assoc, "
       "release_assoc"),
      ("relay and timeouts", "src/filter_z3950_client.cpp send_and_receive, "
       "Assoc::timeoutNotify, failNotify, recv_GDU")],
     [R("zclient", "zc_seq", params=dict(depth=4),
        thorough=dict(depth=4, fault=2)),
      R("zclient", "zc_sockets", params=dict(sessions=3, sockets=1, preempt=2),
        thorough=dict(preempt=3)),
      R("zclient", "zc_sockets", params=dict(sessions=3, sockets=2, preempt=2),
        thorough=dict(preempt=3)),
      R("zclient", "zc_sockets", "race",
        params=dict(sessions=3, sockets=1, preempt=1),
        thorough=dict(preempt=2)),
      R("zclient", "zc_pipeline", params=dict(reqs=3, preempt=2),
        thorough=dict(preempt=3)),
      R("zclient", "zc_pipeline", "race", params=dict(reqs=2, preempt=2),
        thorough=dict(reqs=3))])

prop("P14", "Sharing backend sessions and result sets is invisible to clients",
     "A client behind the session-sharing filter gets the hit counts, records "
     "and diagnostics a target of its own would give, whatever other sessions "
     "search, present, scan or break in between; when the target fails or all "
     "sessions are in use, the request gets a diagnostic, never another "
     "query's result. Sessions that authenticate differently never share a "
     "backend session, each serves one request at a time, no more than the "
     "configured number of sessions and of result sets per session exist, and "
     "unused sessions are closed after the configured time. Concurrent "
     "requests never hang or corrupt the shared state.",
     ["histories", "schedules", "fault patterns"],
     "all histories up to the depth of up to 3 sessions (two with the same "
     "credentials) over 14 operations incl. waiting, under 6 configurations, "
     "with up to `fault` target failures, each answer compared with that of a "
     "dedicated reference server; all preemption-bounded interleavings of 2-3 "
     "concurrent sessions and of searches with the expiry thread",
     "the tests only create the filter",
     ["src/filter_session_shared.cpp"],
     [("sharing of result sets", "src/filter_session_shared.cpp get_set, "
       "override_set, search, present"),
      ("backend sessions", "src/filter_session_shared.cpp create_backend, "
       "get_backend, remove_backend, expire_instances")],
     [R("shared", "sh_seq", "race", params=dict(depth=3, sessions=3, fault=0),
        thorough=dict(fault=1)),
      R("shared", "sh_seq", params=dict(depth=3, sessions=2, cfgs=3),
        thorough=dict(cfgs=6, sessions=3, fault=2)),
      R("shared", "sh_seq", "race",
        params=dict(depth=4, sessions=2, fault=0, cfgs=2),
        thorough=dict(cfgs=6)),
      R("shared", "sh_mt", params=dict(max=2, ops=3, preempt=2),
        thorough=dict(preempt=3)),
      R("shared", "sh_mt", params=dict(max=1, ops=7, preempt=2, calm=0),
        thorough=dict(preempt=3)),
      R("shared", "sh_mt", params=dict(sessions=3, max=1, ops=3, preempt=1),
        thorough=dict(preempt=2)),
      R("shared", "sh_mt", "race", params=dict(max=1, ops=7, preempt=1, calm=0),
        thorough=dict(preempt=2, start=1)),
      R("shared", "sh_expire", "race", params=dict(preempt=1, rounds=2),
        thorough=dict(preempt=2, rounds=3)),
      R("shared", "sh_expire", params=dict(preempt=0, rounds=4),
        thorough=dict(preempt=1))])

prop("P15", "Several targets searched as one: counts, order and records merge",
     "A session naming several targets reports the sum of their hit counts; "
     "the merged result set lists every target's records, each once and marked "
     "with its target, interleaved round robin or one target after the other "
     "as configured, and presenting any range returns exactly that part of it "
     "or a range diagnostic. Scan merges the terms of all targets with summed "
     "counts. A target that is lost or reports diagnostics ends the session or "
     "is reported, unless it is to be hidden and another target answers; its "
     "place is never taken by stale or other records. Each target is reached "
     "by its route and credentials and released with the session.",
     ["inputs", "histories", "schedules", "fault patterns"],
     "all combinations of hit counts (0-2, one of up to 6) of 1-3 targets, "
     "both orders, all ranges, piggyback; all failures (7 kinds) of 2-3 "
     "targets at Init, search and present over two rounds, up to `fault` of "
     "them; all pairs of sets of 4 terms, all positions; 4 route maps with all "
     "histories of two named sets; preemption-bounded interleavings of two "
     "clients and of two requests of one client",
     "the tests configure the filter and send an Init without targets",
     ["src/filter_multi.cpp", "src/util.cpp"],
     [("merged order", "src/filter_multi.cpp round_robin, serve_order, present"),
      ("failures", "src/filter_multi.cpp record_diagnostics, init, search"),
      ("term lists", "src/filter_multi.cpp scan")],
     [R("multi", "mu_merge", thorough=dict(count=3, big=6, all=1)),
      R("multi", "mu_faults", params=dict(fault=2),
        thorough=dict(fault=3)),
      R("multi", "mu_faults", params=dict(fault=2, rounds=1, targets=3),
        thorough=dict(fault=3)),
      R("multi", "mu_scan", thorough=dict(terms=5, number=5)),
      R("multi", "mu_route", thorough=dict(depth=4)),
      R("multi", "mu_mt", params=dict(preempt=1, targets=1, present=0),
        thorough=dict(present=1)),
      R("multi", "mu_mt", "race",
        params=dict(preempt=1, targets=1, present=0), thorough=dict(present=1)),
      R("multi", "mu_mt", "race", params=dict(preempt=0, present=0),
        thorough=dict(preempt=1))])

prop("P16", "A virtual database behaves like the targets it is mapped to",
     "Each database of a client's search or scan selects the first matching "
     "virtual database; the request goes, with the client's credentials and "
     "by the configured route, to the targets it maps to, with the database "
     "given for the target, and records carry the name the client used. "
     "Unknown databases and combinations of differently routed ones get a "
     "diagnostic. Within a session every result set name refers to the last "
     "successful search with that name, whatever other sets exist and whether "
     "or not targets support named result sets, until a target goes away. All "
     "target sessions end with the client's.",
     ["histories", "schedules", "fault patterns"],
     "all histories up to the depth of one session over searches with and "
     "without replacement, presents and scans on 2 sets and 8 database "
     "combinations, with and without named result sets, up to `fault` target "
     "failures; all interleavings (preemption-bounded) of two sessions and of "
     "two requests of one session; all short histories of Inits",
     "the tests send one search and one present",
     ["src/filter_virt_db.cpp", "src/util.cpp"],
     [("databases to targets", "src/filter_virt_db.cpp "
       "create_backend_from_databases, init_backend, fixup_npr_record"),
      ("result sets", "src/filter_virt_db.cpp search, present, scan")],
     [R("virtdb", "vd_seq", params=dict(depth=3, fault=1),
        thorough=dict(fault=2)),
      R("virtdb", "vd_seq", params=dict(depth=4, dbs=3, fault=0),
        thorough=dict(dbs=8)),
      R("virtdb", "vd_seq", params=dict(depth=5, dbs=1, fault=0),
        thorough=dict(depth=6)),
      R("virtdb", "vd_init"),
      R("virtdb", "vd_mt", params=dict(preempt=2), thorough=dict(preempt=3)),
      R("virtdb", "vd_mt", "race", params=dict(preempt=2),
        thorough=dict(preempt=3))])

prop("P17", "Sessions are balanced over their targets by load and losses",
     "A new session goes to the one of its targets with the fewest open "
     "sessions, requests in progress and unexpected losses; if that refuses or "
     "fails the others are tried in that order, each once, and if none takes "
     "it the client is told so and its session ended. What counts is right "
     "after every history of sessions that start, send requests, are lost or "
     "end, one after another or at the same time, and requests and answers "
     "are relayed unchanged.",
     ["histories", "schedules", "fault patterns"],
     "all histories up to the depth of up to 3 sessions starting (3 target "
     "lists), searching, closing, disconnecting, and starting while another "
     "one's request is in progress, up to `fault` targets failing (at Init "
     "or search); all interleavings (preemption-bounded) of two requests of "
     "one or two sessions that go on, end or start",
     "the tests configure the filter only",
     ["src/filter_load_balance.cpp"],
     [("choice of target", "src/filter_load_balance.cpp process, TargetStat")],
     [R("balance", "lb_seq", params=dict(depth=5), thorough=dict(depth=6)),
      R("balance", "lb_seq", params=dict(depth=4, fault=2),
        thorough=dict(depth=5)),
      R("balance", "lb_mt", params=dict(preempt=3), thorough=dict(preempt=4)),
      R("balance", "lb_mt", "race", params=dict(preempt=3),
        thorough=dict(preempt=4))])

prop("P18", "Limits slow down the sessions that exceed them, and only those",
     "A session exceeding its limit of searches, requests or bytes within the "
     "last minute has each request delayed by at least a second; a session "
     "within its limits is never delayed, whatever it did more than a minute "
     "ago and whatever other sessions do, also while they are being delayed. A "
     "present asks for no more records than the limit; all else is relayed "
     "unchanged.",
     ["histories", "schedules"],
     "all histories up to the depth of searches, presents of 3 sizes, other "
     "requests and pauses of two sessions under 7 sets of limits (virtual "
     "time); all interleavings (preemption-bounded) of two requests of two "
     "sessions, of one, or with a session that ends",
     "no test uses the filter",
     ["src/filter_limit.cpp"],
     [("limits", "src/filter_limit.cpp process")],
     [R("limit", "li_seq", params=dict(depth=4), thorough=dict(depth=5)),
      R("limit", "li_seq", params=dict(depth=6, one=1),
        thorough=dict(depth=8)),
      R("limit", "li_mt", params=dict(preempt=3), thorough=dict(preempt=5)),
      R("limit", "li_mt", "race", params=dict(preempt=3),
        thorough=dict(preempt=5))])

prop("P19", "Only known users get in, and only to what they may use",
     "With a user register a session is admitted exactly if the credentials "
     "of its Init match an entry, and its searches and scans are passed on "
     "exactly if all databases are allowed for the user; with a target "
     "register (also besides a user register) only targets allowed for the "
     "user are passed on, others make the Init fail or are left out as "
     "configured, and one without any left fails. What is denied is answered "
     "with a diagnostic, ends the session and never reaches the next filter. "
     "This holds for every register text and for sessions at the same time.",
     ["inputs", "histories", "schedules"],
     "all Inits of 4 forms, 9 users, 6 passwords and 7 target lists against 5 "
     "configurations; all histories up to the depth of requests of up to 3 "
     "sessions; all registers of up to 3 of 10 kinds of lines; all "
     "interleavings (preemption-bounded) of two sessions",
     "the test sends one Init through an unconfigured filter",
     ["src/filter_auth_simple.cpp", "src/util.cpp"],
     [("credentials", "src/filter_auth_simple.cpp process_init, check_targets"),
      ("databases", "src/filter_auth_simple.cpp process_search, process_scan"),
      ("registers", "src/filter_auth_simple.cpp config_userRegister")],
     [R("auth", "au_init", thorough=dict(rounds=2)),
      R("auth", "au_seq", params=dict(depth=3), thorough=dict(depth=4)),
      R("auth", "au_reg", thorough=dict(lines=4)),
      R("auth", "au_mt", params=dict(preempt=3), thorough=dict(preempt=5)),
      R("auth", "au_mt", "race", params=dict(preempt=3),
        thorough=dict(preempt=5))])

prop("P20", "A present in chunks gives what the whole present would",
     "Presents are passed on as consecutive presents of at most the configured "
     "number of records, with the same result set, syntax and element set; the "
     "client gets all records once and in order, with right count, status, "
     "next position and reference id. Whatever the target answers (fewer, no "
     "or too many records, diagnostics, Close, nothing, another response) the "
     "client gets what was there or the failure, after finitely many requests; "
     "sizes of any value are harmless.",
     ["inputs", "fault patterns"],
     "all combinations of chunk 0-3, 0-6 hits, target limits, 3 start "
     "positions and 10 sizes, up to `fault` of 8 kinds of odd answers at any "
     "of the presents",
     "no test uses the filter",
     ["src/filter_present_chunk.cpp"],
     [("chunks", "src/filter_present_chunk.cpp chunk_it")],
     [R("chunk", "pc_present", params=dict(fault=2), thorough=dict(size=9,
                                                                   fault=3))])

prop("P21", "Sorted result sets hold the target's records in sorted order",
     "The first present (or piggyback search) from the start of a result set "
     "sorts the records up to the prefetch size by the configured key, up or "
     "down; presents within them return that window, others the target's "
     "records, in the syntax and element set asked for, with right count, next "
     "position and reference id, or a range diagnostic. Sets that are unknown, "
     "failed or deleted are not served, replacement follows the indicator, and "
     "a lost target ends the session.",
     ["histories", "schedules", "fault patterns"],
     "all histories up to the depth of searches, presents and deletes on two "
     "sets, with 6 key sequences, 3 prefetch sizes, 3 target limits, up to "
     "`fault` failing target requests; all interleavings (preemption-bounded) "
     "of two requests of one or two sessions",
     "no test uses the filter",
     ["src/filter_sort.cpp"],
     [("sorting", "src/filter_sort.cpp RecordList, handle_records"),
      ("result sets", "src/filter_sort.cpp handle_search, handle_present")],
     [R("sorting", "so_seq", params=dict(depth=2),
        thorough=dict(depth=3, keys=2)),
      R("sorting", "so_seq", params=dict(depth=3, rich=0, keys=2),
        thorough=dict(keys=6, fault=2)),
      R("sorting", "so_seq", params=dict(depth=4, rich=0, fault=0, keys=1),
        thorough=dict(depth=5)),
      R("sorting", "so_mt", params=dict(preempt=3), thorough=dict(preempt=5)),
      R("sorting", "so_mt", "race", params=dict(preempt=3),
        thorough=dict(preempt=4))])

prop("P22", "The SRU gateway answers as the target of its requests does",
     "A searchRetrieve request becomes Init, search and presents for XML with "
     "the query, databases, target, user and address given; the response has "
     "the hit count, exactly the records of the range asked for (within the "
     "configured limit) in order, positions, packing, next position, and "
     "diagnostics for anything refused or failed, and the session to the "
     "target is ended. Missing or bad queries never reach the target. Explain "
     "describes the database of the request in well-formed XML, scan and "
     "unknown operations are refused, malformed requests end in an error; the "
     "explain filter does so for its own databases and passes on the rest. "
     "Requests of one HTTP session are handled one at a time.",
     ["inputs", "fault patterns", "histories", "schedules"],
     "all combinations of 7 start and 7 maximum positions, 4 hit counts, "
     "limits, packings, odd records, and one failure out of 6-9 at Init, search "
     "or each present; all combinations of method, version, kind of query, "
     "database, target, user and extra parameters; pairs of other operations; "
     "all interleavings (preemption-bounded) of two requests",
     "no test uses the filter",
     ["src/filter_sru_to_z3950.cpp", "src/sru_util.cpp",
      "src/filter_zeerex_explain.cpp"],
     [("search and present", "src/filter_sru_to_z3950.cpp z3950_*_request"),
      ("explain and decoding", "src/sru_util.cpp")],
     [R("sru", "sr_search", thorough=dict(fault=3)),
      R("sru", "sr_search", params=dict(rounds=2), thorough=dict(rounds=3, fault=2)),
      R("sru", "sr_query"),
      R("sru", "sr_ops"),
      R("sru", "sr_explain", params=dict(depth=2), thorough=dict(depth=3)),
      R("sru", "sr_mt", params=dict(preempt=3), thorough=dict(preempt=6)),
      R("sru", "sr_mt", "race", params=dict(preempt=2),
        thorough=dict(preempt=4))])

prop("P23", "HTTP rewriting changes what its rules say, and nothing else",
     "Rules are applied to exactly the configured places (request line, "
     "headers, HTML attributes, text and quoted literals, bodies by MIME type): "
     "at each position the leftmost match of any rewrite is replaced, anchored "
     "rewrites only at the start, with the variables captured so far in this "
     "request and its response and no other; everything else, binary bodies "
     "included, is left as it was. Links to be skipped are not rewritten. No "
     "request or response makes the proxy end or loop, and bad configurations "
     "are refused when read.",
     ["inputs", "configurations", "schedules"],
     "all texts up to `len` over a small alphabet with all lists of up to `rules` "
     "of 10 rewrites; all pages of up to `depth` pieces from 10 kinds of HTML, "
     "scripts and styles; all combinations of request lines, hosts, types, "
     "bodies; all interleavings (preemption-bounded) of two requests",
     "the tests run a few fixed pages",
     ["src/filter_http_rewrite.cpp", "src/filter_http_rewrite1.cpp"],
     [("rules", "src/filter_http_rewrite.cpp Rule::test_patterns, Replace"),
      ("places", "src/filter_http_rewrite.cpp Phase, Event, Content"),
      ("simple rewriting", "src/filter_http_rewrite1.cpp")],
     [R("rewrite", "hr_rules", params=dict(len=4), thorough=dict(len=5)),
      R("rewrite", "hr_rules", params=dict(rules=3, len=2),
        thorough=dict(len=3)),
      R("rewrite", "hr_rules", params=dict(paren=1), thorough=dict(len=5)),
      R("rewrite", "hr_page", params=dict(depth=5), thorough=dict(depth=6)),
      R("rewrite", "hr_req", params=dict(rounds=1), thorough=dict(rounds=2)),
      R("rewrite", "hr_conf"),
      R("rewrite", "hr_simple"),
      R("rewrite", "hr_mt", params=dict(preempt=3), thorough=dict(preempt=6)),
      R("rewrite", "hr_mt", "race", params=dict(preempt=3),
        thorough=dict(preempt=5))])

prop("P24", "Files are served from the document root of their URL, and only those",
     "A GET of a URL whose decoded path, without query and fragment, starts with "
     "the prefix of an area (the first that matches) is answered with the file "
     "of that path below the document root and with the MIME type configured "
     "for its extension, or its content as the response itself if the area is "
     "raw; other files are never served, whatever the URL. A file that is not "
     "there, not regular or above a megabyte gives 404 and another method 405, "
     "or is passed on where configured. Paths with \"..\", other URLs and "
     "other protocols are passed on. Any MIME type file is read to its end.",
     ["inputs", "histories", "schedules"],
     "all URLs of 7 beginnings and up to three (thorough: four) of 17 pieces (slashes, dots, "
     "escapes, names, neighbours of the document root) for 6 configurations; "
     "pairs of requests for files of all kinds with 4 methods; all MIME type "
     "files of up to 2 of 10 kinds of lines after a long one; all interleavings "
     "(preemption-bounded) of two sessions",
     "no test uses the filter",
     ["src/filter_http_file.cpp", "src/plainfile.cpp"],
     [("areas", "src/filter_http_file.cpp fetch_uri"),
      ("answers", "src/filter_http_file.cpp fetch_file, get_mime_type"),
      ("types", "src/plainfile.cpp getline")],
     [R("hfile", "hf_urls", params=dict(depth=3), thorough=dict(depth=4)),
      R("hfile", "hf_files", params=dict(depth=2)),
      R("hfile", "hf_conf", params=dict(depth=2), thorough=dict(depth=4)),
      R("hfile", "hf_mt", params=dict(preempt=3), thorough=dict(preempt=6)),
      R("hfile", "hf_mt", "race", params=dict(preempt=3),
        thorough=dict(preempt=5))])

prop("P25", "Queries are converted as configured or refused, never mangled",
     "The CQL query of a search is replaced by the RPN query its mapping file "
     "defines, an RPN query (reverse) by CQL that means the same, and an RPN "
     "query is rewritten by stylesheet and converted to a character set; the "
     "rest of the request, other queries and other requests are passed on as "
     "they are, and responses are relayed. A query that cannot be converted is "
     "answered with a diagnostic for its fault, never passed on, and leaves the "
     "session open. Bad configurations are refused when read.",
     ["inputs", "configurations"],
     "all CQL queries of up to three clauses of 12 kinds, converted to RPN and "
     "also back and forth, with 5 kinds of responses; pairs of requests of 9 "
     "kinds in both directions; all RPN queries of up to two terms with 5 terms "
     "and 6 attribute lists, 10 stylesheets, 4 character sets; 18 configurations",
     "the tests pass one query through an unconfigured rewrite filter",
     ["src/filter_cql_rpn.cpp", "src/filter_query_rewrite.cpp"],
     [("CQL", "src/filter_cql_rpn.cpp process"),
      ("rewriting", "src/filter_query_rewrite.cpp process")],
     [R("query", "qu_cql", thorough=dict(shapes=4)),
      R("query", "qu_pass", params=dict(depth=2), thorough=dict(depth=4)),
      R("query", "qu_rewrite", params=dict(ops=1), thorough=dict(ops=2)),
      R("query", "qu_conf")])

prop("P26", "Records are asked for and converted as configured, one by one",
     "A present, or a search that may return records, is asked of the target "
     "with the syntax and element set of the matching retrieval entry, and is "
     "refused with a diagnostic if there is none; a search whose records could "
     "need different entries is passed on asking for no records. Each record of "
     "the response is replaced by its conversion, or by a surrogate diagnostic "
     "with its database and the reason if it cannot be converted; everything "
     "else is relayed unchanged, whatever other sessions do. Where surrogate "
     "diagnostics are to be removed each becomes a text record, in place.",
     ["inputs", "fault patterns", "schedules"],
     "all combinations of present or 4 kinds of searches, 5 syntaxes, 5 element "
     "sets, 3 retrieval lists and 7 kinds of responses with up to `recs` records "
     "of 5 kinds; all interleavings (preemption-bounded) of two sessions whose "
     "records convert or fail",
     "the tests send one package through an empty configuration",
     ["src/filter_record_transform.cpp", "src/filter_sd_remove.cpp", "src/util.cpp"],
     [("requests", "src/filter_record_transform.cpp process"),
      ("records", "src/filter_record_transform.cpp convert_npr"),
      ("surrogates", "src/filter_sd_remove.cpp process")],
     [R("record", "rt_one", params=dict(recs=3), thorough=dict(recs=3)),
      R("record", "rt_pass"),
      R("record", "rt_surrogate"),
      R("record", "rt_mt", params=dict(preempt=4), thorough=dict(preempt=7)),
      R("record", "rt_mt", "race", params=dict(preempt=4),
        thorough=dict(preempt=7))])

prop("P27", "CGI programs get the request and their whole output is the response",
     "A request below a mapped path runs that program, in its own directory, "
     "with method, URI, script name, path info, query string, document root, "
     "the headers Cookie, User-Agent, Accept, Accept-Encoding, Content-Type and "
     "the configured variables in its environment and the body as input. The "
     "response is what the program writes, completely, in whatever order it "
     "reads and writes and whether or not it reads all of the body. The request "
     "gets exactly one response, an error if there is no pipe or process, and "
     "does not wait for programs of other requests; no process or file is left "
     "behind. Everything else is passed on unchanged.",
     ["inputs", "schedules", "fault patterns"],
     "all interleavings (preemption-bounded) of the proxy with 10 kinds of "
     "programs x 8 outputs x 3 body sizes, and of two clients' requests, over a "
     "model of pipes, descriptors and processes; 7 configurations x 11 paths x 4 "
     "methods x 9 header sets with failures of each system call",
     "the filter is not tested at all",
     ["src/filter_cgi.cpp"],
     [("pipes and fork", "src/filter_cgi.cpp process"),
      ("environment", "src/filter_cgi.cpp Rep::child")],
     [R("cgi", "cgi_io", params=dict(preempt=2), thorough=dict(preempt=4)),
      R("cgi", "cgi_env", params=dict(fault=1), thorough=dict(fault=3)),
      R("cgi", "cgi_mt", params=dict(preempt=1), thorough=dict(preempt=2)),
      R("cgi", "cgi_mt", "race", params=dict(preempt=0),
        thorough=dict(preempt=1))])

prop("P28", "Logging leaves traffic alone and writes whole, well-formed entries",
     "Whatever categories are logged, every request and response passes "
     "unchanged, of every kind and with any of its optional parts missing. Each "
     "category writes its entry for each request or response it is about, and "
     "none otherwise: exactly one line (dumps: several), even if values have "
     "line breaks, with time, message, the session's user where asked for, "
     "address, session, elapsed time, protocol and the documented details. "
     "Entries of sessions that are active at the same time, also from several "
     "log filters with the same file, never mix within an entry.",
     ["inputs", "schedules"],
     "all pairs of 35 requests and 51 responses (each type of message, all forms "
     "of diagnostics and optional fields) x 10 combinations of categories; all "
     "interleavings (preemption-bounded, with points at each write) of two "
     "clients through one filter or two with the same file",
     "the tests log two requests and do not look at the log",
     ["src/filter_log.cpp", "src/gduutil.cpp"],
     [("entries", "src/filter_log.cpp process"),
      ("one-line summaries", "src/filter_log.cpp log_1line_Z_APDU"),
      ("access lines", "src/gduutil.cpp operator<<")],
     [R("logf", "lg_one"),
      R("logf", "lg_mt", params=dict(preempt=1), thorough=dict(preempt=2, ops=3)),
      R("logf", "lg_mt", "race", params=dict(preempt=1),
        thorough=dict(preempt=2))])

prop("P29", "The test server answers by its session's terms; leftovers are bounced",
     "The built-in test server keeps each session apart: only a session that asked "
     "for named result sets at Init gets them, requests before Init or of unknown "
     "kind end that session with a protocol error, and what is not Z39.50 passes on. "
     "Searches and presents return exactly the records, in the syntax and element "
     "set, that the request's bounds ask for, and a diagnostic for ranges (however "
     "large or negative), syntaxes and element sets that it does not have. The "
     "filter that bounces requests ends every session it sees and passes nothing "
     "on: Z39.50 requests get a Close, HTTP requests status 400, with the request "
     "as body where echo is configured, and other packages no response.",
     ["inputs", "histories", "schedules"],
     "6 x 6 x 7 bounds x syntaxes x element sets for small and medium sets x result "
     "set names; 12 x 13 present ranges x syntaxes x compositions; all option and "
     "version sets at Init; all sequences of 9 steps by two sessions up to a depth; "
     "all interleavings (preemption-bounded) of two clients; all kinds of messages "
     "x echo modes",
     "the tests send a few requests in one session with ordinary values",
     ["src/filter_backend_test.cpp", "src/filter_bounce.cpp", "src/util.cpp"],
     [("requests", "src/filter_backend_test.cpp process"),
      ("records", "src/filter_backend_test.cpp fetch"),
      ("how many records", "src/util.cpp piggyback"),
      ("bounce", "src/filter_bounce.cpp process")],
     [R("testsrv", "ts_init"), R("testsrv", "ts_search"), R("testsrv", "ts_present"),
      R("testsrv", "ts_two", thorough=dict(ops=5)), R("testsrv", "bo_all"),
      R("testsrv", "ts_mt", params=dict(preempt=2), thorough=dict(preempt=9)),
      R("testsrv", "ts_mt", "race", params=dict(preempt=1, before=1),
        thorough=dict(preempt=3))])

prop("P30", "The program obeys its options, checks its configuration, and stops",
     "Whatever the order of its options, the program does what they say: a wrong "
     "option, a missing, malformed or wrong configuration ends it with status 1 "
     "and nothing started; with -t it only tells whether the configuration is "
     "right; otherwise it starts every filter, in the mode, directory and user "
     "given. Every kind of filter accepts each element that its schema lists, and "
     "refuses unknown elements, and unknown attributes where it has attributes; the "
     "supplied example configurations are accepted. SIGTERM or SIGUSR1, at any time "
     "after the handlers are in place, reaches every filter of every route, SIGTERM "
     "also after SIGUSR1 and once to the children; handling allocates no memory and "
     "touches nothing destroyed, and a child process that has not started its own "
     "program ignores the signal.",
     ["inputs", "crash points", "schedules"],
     "all sequences of up to 3 of 19 options; 24 kinds of filters x subsets of up "
     "to 2 optional elements x each place for an unknown element or attribute; "
     "the example configurations; up to 2 signals of either kind at each of ~25 "
     "points between start and end x modes x routes",
     "no test runs the program",
     ["src/metaproxy_prog.cpp", "src/router_xml.cpp", "src/router_flexml.cpp",
      "src/factory_static.cpp"],
     [("options and signals", "src/metaproxy_prog.cpp sc_main"),
      ("filters known", "src/factory_static.cpp FactoryStatic"),
      ("start and stop", "src/router_flexml.cpp stop")],
     [R("prog", "pg_opts", thorough=dict(options=4)),
      R("prog", "pg_stop"),
      R("prog", "pg_conf", thorough=dict(elements=5)),
      R("prog", "pg_etc")])

prop("P31", "HTTP requests go to their target and its response comes back",
     "With an HTTP client in the route, each HTTP request makes exactly one "
     "request to the URL it gives, or to the default host if it gives a path, "
     "with its method, headers and body, over the configured proxy or the one "
     "the request asks for (which is not told to the target), with the "
     "configured number of redirects, from the listening address if so "
     "configured, and with the peer last in X-Forwarded-For exactly when "
     "configured. The response is passed on with its code, headers and body; "
     "without a target the answer is 404, and a failure gives 502 with the "
     "reason. Other requests are passed on, sessions do not mix, connections "
     "are released, and unknown configuration elements are refused.",
     ["inputs", "configurations", "histories", "schedules"],
     "every combination of 216 configurations with requests of 7 kinds of "
     "target, 4 methods, proxy, forwarding and connection headers and 6 "
     "outcomes; all sequences of 2 (3) requests over 2 sessions; two "
     "concurrent requests; YAZ's HTTP client is played by the harness",
     "there is no test",
     ["src/filter_http_client.cpp", "src/util.cpp", "src/origin.cpp"],
     [("request and response", "src/filter_http_client.cpp proxy"),
      ("configuration", "src/filter_http_client.cpp configure")],
     [R("httpc", "hc_one"),
      R("httpc", "hc_seq", params=dict(depth=2), thorough=dict(depth=3)),
      R("httpc", "hc_mt", params=dict(preempt=2), thorough=dict(preempt=4)),
      R("httpc", "hc_mt", "race", params=dict(preempt=1), thorough=dict(preempt=3)),
      R("httpc", "hc_conf", params=dict(depth=3), thorough=dict(depth=5))])
