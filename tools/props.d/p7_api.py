NB = "the node's RPC server code is real, over the real pool, storage and executor; jsonrpsee's transport (sockets, HTTP framing) is simulated: requests and answers are passed as text in process, and the server threads' monotonic clock is moved on by interposing clock_gettime"
API = "core/api/src/jsonrpc/impl/"

prop("P70", "Blocks, transactions, receipts and logs are read as the chain holds them",
     "Every read of a block, transaction, receipt, proposal, proof, metadata or hardfork state, by number, hash, tag or position, gives that of exactly the block or transaction named, all fields as the chain decided them: hashes, positions, sender and signature, fees paid, gas used so far, created contract, status, logs with their place in the block, blooms. What is pending is shown as pending; what is not there is null or an error, never something else. It stays so over restarts.",
     "inputs histories", "all chains with transactions of every type and outcome, all ways of naming blocks, and all restarts", "no test serves a request",
     f"{API}web3.rs {API}axon.rs core/api/src/jsonrpc/web3_types.rs core/api/src/adapter.rs core/storage/src/lib.rs",
     [("Web3RpcImpl", f"{API}web3.rs"), ("AxonRpcImpl", f"{API}axon.rs"), ("Web3Block, Web3Transaction, Web3Receipt", "core/api/src/jsonrpc/web3_types.rs")], "h-api",
     "chains of generated transactions (payments, creations, logging, reverting and failing calls of all types) read in all ways; distinct by method, way of naming and block", "differential monitor of every answer field against an own rendering of what was executed", NB, q=16, t=300)
prop("P71", "The state is read at the block asked for, and proofs of it verify",
     "Balance, nonce, code and storage are those of the block named (number, hash, tag), also when the state has changed since; a block that does not exist gives no state of another one. Account and storage proofs verify against that block's state root, and prove exactly these values, or their absence.",
     "inputs histories", "all accounts, slots and blocks of chains that change them", "no test serves a request",
     f"{API}web3.rs core/api/src/adapter.rs core/executor/src/adapter/backend/read_only.rs core/executor/src/adapter/trie/mod.rs",
     [("Web3RpcImpl::get_balance, get_proof", f"{API}web3.rs"), ("DefaultAPIAdapter::get_account", "core/api/src/adapter.rs")], "h-api",
     "accounts and slots read at all blocks of growing chains, through small and large caches; distinct by method, block and value", "differential monitor against the leaves of the state tree at that block; proofs checked by an own verifier", NB, q=14, t=300)
prop("P72", "Log queries and filters give every matching log once, in order, and no other",
     "eth_getLogs gives exactly the logs of the blocks named that match address and topics, in chain order; too wide a range is refused. A filter gives each block or matching log from its creation on exactly once over its polls, in order, whatever the blocks, polls and reads in between, and also while the chain grows; a filter that is used stays, one that is uninstalled or unused for long is gone.",
     "inputs schedules histories", "all filters, ranges, and interleavings of polls and blocks", "no test makes a filter",
     f"{API}filter.rs {API}web3.rs core/api/src/jsonrpc/web3_types.rs",
     [("FilterHub", f"{API}filter.rs"), ("Web3RpcImpl::get_logs", f"{API}web3.rs")], "h-api",
     "queries and filters over chains that stand or grow while clients poll concurrently, with the time moved on; distinct by query and by the history of a filter", "exactly-once and order checker over the answers of every filter against an own matching of the chain's logs", NB, q=16, t=300)
prop("P73", "Trying out a call or estimating its gas foretells what a transaction would do",
     "eth_call runs at the block named, with that block's surroundings and state and the caller, value, price and gas given, gives what it returns, or its revert data as an error, and changes nothing. eth_estimateGas gives a gas limit with which the transaction, sent right after, succeeds, and no more than twice its use, and refuses only what fails. What exceeds the limits for gas and price is refused.",
     "inputs histories", "all calls of programs over all blocks", "no test executes a call through the API",
     f"{API}web3.rs core/api/src/adapter.rs core/executor/src/lib.rs",
     [("Web3RpcImpl::call, estimate_gas", f"{API}web3.rs"), ("DefaultAPIAdapter::evm_call", "core/api/src/adapter.rs")], "h-api",
     "generated programs that report their surroundings, store, revert, nest and loop, tried and then sent; distinct by kind, block and estimate", "differential monitor of each answer against the block's header and state, and of each estimate against the execution of the transaction itself", NB, q=14, t=300)
prop("P74", "The fee history is that of the blocks asked for",
     "eth_feeHistory covers exactly the newest block named and as many before it as asked for and exist (at most 1024), with the base fee of each and of the next block, the ratio of gas used to the limit, and, for each percentile, the priority fee at which that share of the block's gas was paid; percentiles out of range or order, and counts and blocks that make no sense, are refused.",
     "inputs histories", "all counts, blocks and percentiles over all chains", "no test asks for a fee history",
     f"{API}web3.rs core/api/src/jsonrpc/web3_types.rs",
     [("Web3RpcImpl::fee_history, calculate_rewards", f"{API}web3.rs")], "h-api",
     "fee histories of generated chains with varied prices, base fees and gas limits; distinct by count, block and percentiles", "differential monitor against an own computation from the executed transactions", NB, q=14, t=300)
prop("P75", "No request ends the node or keeps it from serving others",
     "Whatever clients send (any method with any parameters, malformed text, batches, calls of built-in contracts, requests abandoned at any moment, sockets opened and dropped), no part of the node panics, each request is answered, and requests of others are answered as if nothing had happened. Every documented method answers to its name.",
     "inputs schedules", "all texts, parameters and moments of hanging up, on a fresh chain and later ones", "no test serves a request",
     f"{API}web3.rs {API}filter.rs {API}axon.rs {API}ckb_light_client.rs {API}node.rs core/api/src/jsonrpc/ws_subscription.rs core/api/src/jsonrpc/web3_types.rs core/api/src/adapter.rs",
     [("run_jsonrpc_server", "core/api/src/jsonrpc/mod.rs"), ("FilterHub", f"{API}filter.rs"), ("BlockId, Web3Filter deserialization", "core/api/src/jsonrpc/web3_types.rs")], "h-api",
     "requests of all methods with well-formed, odd and impossible parameters, noise, bursts of clients that hang up; distinct by method, outcome and oddity", "panic monitor over all threads and a liveness probe (state, hashing, a new filter) after each burst", NB, q=16, t=300)
prop("P76", "Subscribers are sent every new head and matching log once and in order",
     "A WebSocket client that subscribes to heads or logs is sent, under the id it was given, every block or matching log from then on once and in order, until it unsubscribes or hangs up, and nothing else; one that does not read, floods or goes away holds up nobody. Subscriptions that make no sense are refused.",
     "schedules histories", "all interleavings of subscribers coming, going and reading with blocks", "no test opens a socket",
     "core/api/src/jsonrpc/ws_subscription.rs core/api/src/jsonrpc/mod.rs",
     [("ws_subscription_module", "core/api/src/jsonrpc/ws_subscription.rs")], "h-api",
     "crowds of subscribers, some stuck or leaving, while the chain grows; distinct by kind, place and outcome", "exactly-once and order checker over what every socket was sent", NB, q=18, t=300)
prop("P77", "A transaction sent is pending under its hash until a block takes it",
     "eth_sendRawTransaction takes every valid transaction, of any type, alone or among many at once, and answers with its hash; from then on it can be read as pending and counts for the pending nonce, until it is in a block. A transaction that is not valid (price, gas, chain, nonce used, balance, form) is refused and leaves no trace; sending one again does not count twice.",
     "inputs schedules histories", "all transactions, valid or not, in all orders and at once", "no test sends a transaction",
     f"{API}web3.rs core/api/src/adapter.rs core/mempool/src/lib.rs",
     [("Web3RpcImpl::send_raw_transaction", f"{API}web3.rs"), ("MemPoolImpl::insert", "core/mempool/src/lib.rs")], "h-api",
     "valid and invalid transactions of several senders, one by one and concurrently, over blocks that take some; distinct by sender, type and fault", "model of what is pending compared with the answers after every step", NB, q=18, t=300)
