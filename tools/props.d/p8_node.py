NN = "a whole node: core/cli and core/run as they are, in processes of their own with real signals and kills; the database (a stand-in that journals every write to a file, and can kill the process at any of them), the p2p library and the RPC transport are simulated, so nodes run alone"

prop("P80", "init makes exactly the chain its specification describes, or nothing",
     "`axon init` makes a database that holds exactly the genesis its specification describes: header, every account and balance, two epochs with their length, parameters and validators, the active hardforks; the same specification makes the same chain on every machine, another specification another chain. What is invalid or exists already is refused before anything is created or changed, also by run and hardfork without init; an init that is killed leaves nothing that runs as another chain; data of a version too old or unreadable is refused untouched.",
     "inputs crash-points histories", "all specifications, configurations, data left behind, and moments of a kill", "the tests check three fixed specifications",
     "core/cli/src/args/init.rs core/cli/src/utils.rs core/run/src/lib.rs core/run/src/components/chain_spec.rs core/run/src/components/storage.rs common/config-parser/src/types/spec.rs common/config-parser/src/types/config.rs core/executor/src/system_contract/mod.rs",
     [("init, execute_genesis", "core/run/src/lib.rs"), ("ChainSpec", "common/config-parser/src/types/spec.rs"), ("check_version", "core/cli/src/utils.rs")], "h-node",
     "init, run and hardfork commands over random valid and spoilt specifications, configurations, keys, versions and kills at writes; distinct by genesis, fault, variation and version", "the database left behind compared field by field with the specification, and byte by byte around refusals", NN, q=18, t=240)
prop("P81", "A node stopped, killed or restarted at any moment carries on its chain",
     "After any stop (a block count or height reached, SIGTERM, SIGINT, SIGKILL, a kill at any database write) a node starts again, keeps every block it had answered with, every transaction and receipt in it and the state it had reported, and goes on making blocks from there, with transactions sent to it executed once; it stops exactly where told, and answers as itself while it runs.",
     "schedules crash-points histories", "all sequences of runs and ends, and all database writes to end at", "no test starts a node",
     "core/run/src/lib.rs core/cli/src/args/run.rs core/consensus/src/engine.rs core/consensus/src/stop_signal.rs core/consensus/src/wal.rs core/storage/src/lib.rs core/run/src/components/storage.rs",
     [("run, start", "core/run/src/lib.rs"), ("StopSignal", "core/consensus/src/stop_signal.rs"), ("OverlordConsensus::commit", "core/consensus/src/engine.rs")], "h-node",
     "histories of runs that end in every way while transactions are sent; distinct by kind of end, height and what was pending", "audit of the whole database after every end against everything the node had answered, and of every block by an own trie, hash and signature oracle", NN, q=20, t=300)
prop("P82", "The hardfork command schedules exactly what was asked, once",
     "`axon hardfork` records a proposal for the features and start block given, changes nothing else, and refuses a start that has passed; features already active or recorded are not proposed again. When the node runs on, its next block (or the one after, when that one was under way) carries the proposal if the start still lies ahead, the chain records it once with that start and those features, and it does not wait any longer; a new proposal takes the place of one still waiting.",
     "inputs histories", "all sequences of commands, features, start blocks and restarts", "no test runs the command",
     "core/cli/src/args/hardfork.rs core/run/src/lib.rs core/consensus/src/engine.rs core/storage/src/lib.rs core/executor/src/system_contract/metadata/mod.rs core/executor/src/system_contract/metadata/store.rs",
     [("set_hardfork_info", "core/run/src/lib.rs"), ("get_block, update_status_after_exec", "core/consensus/src/engine.rs"), ("set_hardfork_info", "core/executor/src/system_contract/metadata/store.rs")], "h-node",
     "commands with starts behind, at and ahead of the head and all features, between runs of a node; distinct by place, features, history and block carrying it", "model of the waiting and recorded proposals compared with the database after each command and run", NN, q=18, t=240)
prop("P83", "Generated and recovered keys belong together and make a working node",
     "generate-keypair writes as many distinct key pairs as asked for, each readable file holding the private key printed, each public key, address and peer id printed being the one of that private key; recover-keypair prints the same for the same files and refuses files that hold no key; a node configured with generated keys makes blocks as the validator they name.",
     "inputs", "all keys and key files", "no test generates keys",
     "core/cli/src/args/generate_keypair.rs core/cli/src/args/recover_keypair.rs core/run/src/key_provider.rs common/config-parser/src/types/config.rs",
     [("GenerateKeypairArgs::execute", "core/cli/src/args/generate_keypair.rs"), ("RecoverKeypairArgs::execute", "core/cli/src/args/recover_keypair.rs")], "h-node",
     "generated, recovered, edge and spoilt key files, and nodes run on generated keys; distinct by key and fault", "every printed value recomputed from the private key by own implementations", NN, q=14, t=200)
