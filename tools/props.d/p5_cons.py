CB = "the whole consensus, mempool, executor and storage code is the repository's own, put together as core-run does; the network is an in-process one that encodes and decodes every message, the database an in-memory stand-in for RocksDB"

prop("P50", "A validator reads from its logs after a crash what it wrote",
     "After a crash or failed write at any point, the transaction log gives for a proposal either the whole list of transactions saved for it or none, never another or a shorter list, and never the list of another proposal; the consensus log gives a record that was written, the newest that was written whole; unreadable or foreign files do not stop the node; removing old records removes those and no others.",
     "crash-points histories", "all sequences of saves, loads, removals, restarts, clock changes and failed writes", "tests save and load a few records with no failures",
     "core/consensus/src/wal.rs", [("SignedTxsWAL", "core/consensus/src/wal.rs"), ("ConsensusWal", "core/consensus/src/wal.rs")], "h-cons",
     "generated histories of log operations on real files, with writes cut short (file size limit), files torn, added and removed, and the clock moved; distinct by operation and state", "reference-model monitor after every operation under injected write faults", CB)
prop("P51", "Consensus signatures bind voters, message and quorum",
     "A vote verifies exactly under the key of the member who signed it and for the hash signed; an aggregate verifies exactly for the set of voters whose votes it holds; malformed keys, signatures and unknown members are refused without a panic; the digest of a transaction list distinguishes lists that differ in any transaction, sender or order.",
     "inputs", "all committees, subsets, messages and corruptions of them", "tests sign one fixed message with fixed keys",
     "core/consensus/src/util.rs", [("OverlordCrypto", "core/consensus/src/util.rs"), ("digest_signed_transactions", "core/consensus/src/util.rs")], "h-cons",
     "generated committees, votes and aggregates, valid ones and ones corrupted in one place; distinct by kind of corruption and size", "oracle over generated signatures and single corruptions (own blst calls and keccak)", CB)
prop("P52", "A validator votes for valid proposals only, and commits what was voted for",
     "A validator accepts a proposal exactly if it is for the height being decided, is what the voted hash names, follows the last block (hash, state root, time, proof of more than two thirds of the committee's weight), is by a committee member, keeps the chain's limits and lists exactly known or obtainable, uncommitted transactions, each once; honest proposals are accepted; no proposal panics the node. Committing it, from the pool or after a restart from the log, stores the same block, transactions and receipts on every node, carries each transaction out once, and a repeated commit changes nothing.",
     "inputs histories crash-points", "all proposals of a byzantine leader, on all chains, with restarts between vote and commit", "tests call the engine with mocks that accept everything",
     "core/consensus/src/engine.rs core/consensus/src/adapter.rs core/consensus/src/status.rs protocol/src/types/block.rs",
     [("get_block, check_block, commit", "core/consensus/src/engine.rs"), ("verify_proof, verify_block_header", "core/consensus/src/adapter.rs"), ("update_status", "core/consensus/src/engine.rs")], "h-cons",
     "generated chains by nodes of a changing committee with uneven weights; at every height each validator is offered forged proposals (one rule broken) and the honest one, nodes restart and lose their pools; distinct by forgery, size and committee", "monitor of every verdict against the rule broken, and of the records of all nodes after every commit", CB,
     assume=["two known findings (nonce gaps and nonce order in a proposal are not checked) are reported under their own keys"])
prop("P54", "A node catching up stores the chain and nothing else, whatever its peers answer",
     "Whatever peers claim and answer when a node synchronizes, every block, transaction, receipt and proof it stores is that of the chain the committees agreed on; a false or missing answer stops the call without harm and without a panic; with an honest peer it reaches the height claimed (at most 50 blocks per call); afterwards, also after a restart, its status, proof, pool and keys are those of the head, so that it accepts, commits and makes the next proposals, also across a change of the committee.",
     "inputs histories", "all answers of lying peers, on all chains", "tests call the parts with mocks and expect errors",
     "core/consensus/src/synchronization.rs core/consensus/src/message.rs core/consensus/src/adapter.rs core/run/src/lib.rs",
     [("receive_remote_block", "core/consensus/src/synchronization.rs"), ("PullBlockRpcHandler, PullProofRpcHandler, PullTxsRpcHandler", "core/consensus/src/message.rs"), ("verify_proof", "core/consensus/src/adapter.rs")], "h-cons",
     "generated chains; a late node is told heights, true and false, and given answers with one field changed, missing or noisy, with restarts in between; distinct by chain, lie and order", "comparison of everything stored with the chain after every call under single lies", CB)
prop("P55", "Validators agree on one history under faults, and it goes on",
     "With fewer than a third of the validators crashing, restarting or lying, and the network losing, delaying, repeating and splitting messages, all nodes hold the same blocks, transactions and receipts at every height; stored blocks never change and are not forgotten over restarts; every transaction in the chain was asked for, is in it once, and each sender's follow in nonce order without gaps; committees change as the metadata says; and once the network is well again, heights grow and what clients ask for is committed.",
     "schedules histories crash-points", "all schedules of messages, crashes and restarts, with up to a third of byzantine weight", "no test runs more than one node",
     "core/consensus/src/engine.rs core/consensus/src/consensus.rs core/consensus/src/synchronization.rs core/consensus/src/wal.rs core/mempool/src/lib.rs core/run/src/lib.rs",
     [("OverlordConsensus", "core/consensus/src/consensus.rs"), ("ConsensusEngine", "core/consensus/src/engine.rs"), ("OverlordSynchronization", "core/consensus/src/synchronization.rs"), ("MemPoolImpl", "core/mempool/src/lib.rs")], "h-cons",
     "clusters of 4 and 5 full nodes on runtimes of their own under phases of loss, delay, duplication, partition, crashes and equivocation by one validator; distinct by weather and schedule", "agreement, exactly-once, ordering and progress monitors over the histories of all nodes", CB,
     assume=["progress is required only where no validator lies: the Overlord library itself can be made to lock on a block nobody has; time is counted in ticks of the node's own runtime, so that a slow machine is not taken for a halt"])
prop("P56", "Nothing a peer sends takes a node down",
     "Whatever bytes or well-formed messages a peer or a validator sends or answers, on any endpoint of consensus, synchronization and mempool, no thread of a node panics (a panic ends the node), its engine keeps running, it still serves its peers and users, and honest nodes do not come to disagree.",
     "inputs schedules", "all messages and answers, at all states of a running chain", "tests hand fixed messages to mocks",
     "core/consensus/src/consensus.rs core/consensus/src/message.rs core/consensus/src/synchronization.rs core/mempool/src/adapter/message.rs core/mempool/src/lib.rs",
     [("set_proposal, set_vote, set_qc, set_choke", "core/consensus/src/consensus.rs"), ("message handlers", "core/consensus/src/message.rs"), ("NewTxsHandler, PullTxsHandler", "core/mempool/src/adapter/message.rs")], "h-cons",
     "three full nodes and a fourth validator that sends well-signed messages with extreme or inconsistent fields, corrupted bytes, replays, requests and false answers; distinct by endpoint and kind", "panic monitor over all threads, with service and agreement monitors, under hostile traffic", CB)
prop("P57", "A validator that stops at any point goes on from what it stored",
     "Whenever a validator stops, also in the middle of committing a block or of starting, what it stored is whole: every block up to the head with its transactions, receipts and state, linked by hashes, none changed or lost since it was seen, no transaction twice; it starts again from there and the chain goes on.",
     "crash-points histories", "all points between two writes, all sequences of stops and restarts", "no test stops a node",
     "core/consensus/src/engine.rs core/consensus/src/wal.rs core/storage/src/lib.rs core/executor/src/adapter/trie_db.rs core/run/src/lib.rs",
     [("commit, update_status", "core/consensus/src/engine.rs"), ("ImplStorage", "core/storage/src/lib.rs"), ("start", "core/run/src/lib.rs")], "h-cons",
     "chains of a single validator stopped at random moments and after the k-th database write, also during start; distinct by the last thing written", "whole-history monitor after every restart, with progress required", CB,
     assume=["a stop is that of the process: what was written to files and database before it stays"])
prop("P58", "Hardforks: announced by those set up for them, in force from their height on",
     "A leader's proposals carry the hardfork its operator set up, until the chain has agreed to it or its height has come; a validator set up otherwise, or not at all, does not vote for it, nor for a made up or doubled one. What blocks announced is kept on the chain in order; the flags in force after each block, also after a restart, are those whose height has come, the same on every node; and a node forgets its own announcement, in memory and in its database, exactly when it is agreed or too late.",
     "histories inputs", "all sequences of announcements, heights, flags and restarts", "tests have no node set up for a hardfork",
     "core/consensus/src/engine.rs core/executor/src/system_contract/metadata/mod.rs core/executor/src/system_contract/metadata/store.rs core/storage/src/lib.rs protocol/src/types/primitive.rs",
     [("get_block, check_block", "core/consensus/src/engine.rs"), ("set_hardfork_info, hardfork_info", "core/executor/src/system_contract/metadata/store.rs"), ("HardforkInfo::push", "protocol/src/types/primitive.rs"), ("set_hardfork_proposal", "core/storage/src/lib.rs")], "h-cons",
     "three full nodes set up alike, differently or not at all propose, check and commit blocks, with restarts and made up announcements; distinct by who announces what how long before", "model of announcements and of the flags in force, compared with every node's engine, chain and database after every step", CB)
