NC = "the crate is compiled and run unchanged, with the real libraries it uses"

prop("P11", "Logging loses nothing, keeps its form and follows its settings",
     "Every record at or above the level set for its module is written once, whole, and in order per thread, to the console and the file exactly as the settings ask (console, file, metrics, CLI, per-module levels), and no other is; files roll over at the size set and no roll, restart or kill loses, doubles or mixes what was written and acknowledged before it.",
     "inputs schedules crash-points histories", "all settings, messages and thread interleavings, and all moments of rolling, reopening and killing", "the only test rolls one file once",
     "common/logger/src/lib.rs common/logger/src/date_fixed_roller.rs",
     [("init", "common/logger/src/lib.rs"), ("DateFixedWindowRoller::roll", "common/logger/src/date_fixed_roller.rs")], "h-base",
     "processes that set up the real logger with random settings and log from many threads until they end, reopen or are killed; distinct by setting, target, level and outcome", "exactly-once, order and form checker over all files and the console left behind, against what each thread had logged", NC, q=16, t=240)
prop("P12", "Calls to CKB reach the right service and answers come back unchanged",
     "Each call of the CKB client sends one well-formed JSON-RPC request, under an id no other request carries, with its own method and parameters to the one service that answers it, and returns to the caller what that service answered; an error, an unreadable or unexpected answer, a lost connection or a slow service is an error to that caller and disturbs nobody else. Completing a transaction signs exactly its signature witnesses, validly.",
     "inputs schedules", "all parameters, answers, failures and interleavings of calls", "no test makes a call",
     "core/rpc-client/src/client.rs core/rpc-client/src/lib.rs",
     [("jsonrpc!, RpcClient", "core/rpc-client/src/client.rs")], "h-base",
     "concurrent calls of all methods to three loopback servers that answer well, wrongly, late, partially or not at all; distinct by method, fault and answer", "request and answer log of the servers matched one to one with the calls and their results; signatures recovered by an own verifier", NC, q=18, t=240)
prop("P13", "Tracing and metering a function change nothing it does",
     "A function under trace_span or metrics_rpc takes the same arguments, has the same effects and returns the same result, error or panic as without. Its span has the name and kind given, the caller's span as parent, the tags and logs asked for, and ends when the function does, also when it is cancelled; its counters count each call once under success or failure as it ended, with the time it took.",
     "inputs schedules histories", "all trees of traced calls with all outcomes, cancellations and interleavings", "the tests only see that the macros expand",
     "common/apm-derive/src/lib.rs common/apm-derive/src/trace_expand.rs common/apm-derive/src/rpc_expand.rs common/apm-derive/src/kv_parser.rs",
     [("trace_span", "common/apm-derive/src/lib.rs"), ("metrics_rpc", "common/apm-derive/src/lib.rs")], "h-base",
     "random trees of wrapped functions (synchronous, async, async-trait; failing, panicking, cancelled) run one after another; distinct by shape and outcome", "span and counter records matched with the tree of calls that was run, results with an unwrapped twin", "the macros are the repository's; the spans are those of the real jaeger tracer library, the counters are the harness's; early returns in synchronous traced functions are not judged", q=14, t=240)
prop("P14", "Versions are read and ordered as semantic versioning says",
     "A version text is read to the version it writes, and refused if it is none; the order of versions is that of semantic versioning, total, transitive and consistent with equality; build metadata and commit ids are shown and do not count.",
     "inputs", "all version texts and pairs of them", "the tests compare a few versions",
     "common/version/src/lib.rs",
     [("Version", "common/version/src/lib.rs")], "h-base",
     "generated version texts, near misses and pairs; distinct by form and relation", "differential monitor against an own implementation of the semantic versioning rules", NC, q=12, t=240)
