XB = "the model of the EVM covers the operations its program generator emits (arithmetic, memory, storage, calls of every kind, creation, selfdestruct, logs, environment) and takes the gas of a transaction from the implementation; the opcode interpreter itself is third-party; the database under storage and trie is an in-memory stand-in for RocksDB"

prop("P20", "Every node computes the same state from the same blocks",
     "Executing the same transactions on the same state gives the same state root, receipts, gas and return data on every node: whatever the size or contents of its caches, however often the block was executed before, whether the node was restarted in between, on whichever thread, and whatever calls were answered meanwhile. A dry run leaves nothing behind that a later block can see.",
     "histories schedules configurations", "all block histories, cache sizes, restarts and concurrent calls", "tests execute one block on one fresh node",
     "core/executor/src/lib.rs core/executor/src/adapter/mod.rs core/executor/src/adapter/trie/db.rs core/executor/src/adapter/trie/wrapped.rs",
     [("AxonExecutor::exec", "core/executor/src/lib.rs"), ("RocksTrieDB", "core/executor/src/adapter/trie/db.rs")], "h-exec",
     "generated histories of blocks run on several nodes with different caches, restarts and loads; distinct by state root", "differential monitor: replicas with different caches, restarts and concurrent load against each other", XB)
prop("P21", "A block changes exactly the accounts its transactions say",
     "After a block, every account's balance, nonce, code and storage is what its transactions prescribe in order: transferred value moves once, a failed or reverted transaction moves nothing but its fee, the fee is the gas used times the price, created contracts hold the code their constructor returned, and no tokens appear or vanish other than through the native token contract. Fees go to the proposer, or to the validators by weight as the allocator says. Receipts, logs and cumulative results belong to their own transaction, and no account outside the block's reach changes.",
     "inputs histories programs", "all block histories with transfers, contract programs, failures, creations, token issues and fee shares", "tests execute a single transfer and read one balance",
     "core/executor/src/lib.rs core/executor/src/adapter/backend/apply.rs core/executor/src/system_contract/native_token.rs core/executor/src/utils.rs protocol/src/types/executor.rs",
     [("exec, evm_exec", "core/executor/src/lib.rs"), ("AxonExecutorApplyAdapter::apply", "core/executor/src/adapter/backend/apply.rs"), ("fee allocation", "core/executor/src/utils.rs")], "h-exec",
     "generated contract programs and transactions; every leaf of the state trie is compared with the model after every block; distinct by state root", "reference-model monitor over the whole state trie after every block", XB,
     assume=["the six known findings' behaviour is part of the model, each reported under its own key, so that other deviations remain visible"])
prop("P22", "A call shows what a transaction would do, and changes nothing",
     "A call on a block's state returns the same result, output and gas as the same transaction would on that state, the same again when repeated, and leaves no trace in the database. An estimate is enough gas for the transaction to do the same. Revert messages are decoded to the text the contract gave, and a malformed one is never a crash.",
     "inputs programs", "all calls, creations and revert data on all reachable states", "tests call one function of one contract",
     "core/executor/src/lib.rs core/executor/src/adapter/backend/read_only.rs core/executor/src/utils.rs", [("AxonExecutor::call", "core/executor/src/lib.rs"), ("decode_revert_msg", "core/executor/src/utils.rs")], "h-exec",
     "generated calls on generated states, each also executed as a transaction; distinct by result", "differential monitor: calls against execution, with a write monitor on the database", XB)
prop("P23", "Precompiled contracts compute what they are defined to, at their price",
     "Each precompiled contract answers every input with the result its definition gives (signature recovery, hashes, modular exponentiation, curve operations and pairings, blake2 compression, RSA and secp256r1 verification, CKB hashing and Merkle proofs), refuses what the definition refuses, charges exactly the defined gas and fails without effect when given less. No input makes a node panic, and addresses without a precompile behave as plain accounts.",
     "inputs", "all inputs of every precompiled contract, with every amount of gas", "tests give each contract one or two inputs from a fixed list",
     "core/executor/src/precompiles/mod.rs core/executor/src/precompiles/modexp.rs core/executor/src/precompiles/ecrecover.rs core/executor/src/precompiles/blake2_f.rs core/executor/src/precompiles/ec_pairing.rs core/executor/src/precompiles/ckb_mbt_verify.rs core/executor/src/precompiles/rsa.rs core/executor/src/precompiles/secp256r1.rs",
     [("build_precompile_set, precompiles!", "core/executor/src/precompiles/mod.rs"), ("exec_fn of each contract", "core/executor/src/precompiles")], "h-exec",
     "generated inputs, called through the executor with ample, exact and insufficient gas; distinct by contract and input", "reference monitor: every answer against an independent implementation of the definition and its gas schedule", XB,
     assume=["the curve arithmetic under ec_add, ec_mul and ec_pairing is a third-party library replaced by a stand-in where it could not be built; the monitor decides the contract code around it (parsing, bounds, gas, output)",
             "ragged inputs whose treatment changes consensus are known findings"])
prop("P24", "Contracts see the block, chain and accounts they are part of",
     "A contract that asks for its block's number, time, proposer, gas limit, base fee, chain id, sender, origin or price gets the values of the block and transaction it runs in; for the hash of one of the last 256 blocks it gets that block's hash and for any other number zero; for the balance, code size and code hash of an account it gets what that account has at that moment. Calls on an old block see that block's surroundings, not the newest ones.",
     "histories inputs", "all chain lengths, blocks of the chain asked about, and calls on every past block", "tests run one contract on a single block",
     "core/executor/src/adapter/backend/apply.rs core/executor/src/adapter/backend/read_only.rs core/executor/src/lib.rs core/executor/src/system_contract/metadata/handle.rs",
     [("Backend for AxonExecutorApplyAdapter", "core/executor/src/adapter/backend/apply.rs"), ("Backend for AxonExecutorReadOnlyAdapter", "core/executor/src/adapter/backend/read_only.rs")], "h-exec",
     "chains of several hundred blocks with a contract that returns everything it sees, in transactions and in calls on old blocks; distinct by what was seen", "reference-model monitor over a chain history", XB)
prop("P25", "The metadata contract keeps the validator sets and epochs it was given",
     "The metadata contract accepts exactly the well-formed updates from a validator that follow on from the last epoch and refuses the rest without effect. Every block number then has the one epoch whose range it lies in, the metadata of that epoch are those submitted, a validator is known as one in its epochs only, and the configuration, CKB information, propose counts and announced hardforks read back as they were written, on that block and on later ones, after a restart and on other threads. The configured limit on contract size applies to the blocks it was set for.",
     "histories inputs", "all sequences of updates, valid and invalid, interleaved with blocks, calls and restarts", "tests append two epochs and read them back",
     "core/executor/src/system_contract/metadata/mod.rs core/executor/src/system_contract/metadata/store.rs core/executor/src/system_contract/metadata/handle.rs core/executor/src/system_contract/metadata/segment.rs core/executor/src/lib.rs",
     [("MetadataStore", "core/executor/src/system_contract/metadata/store.rs"), ("EpochSegment", "core/executor/src/system_contract/metadata/segment.rs"), ("MetadataHandle", "core/executor/src/system_contract/metadata/handle.rs")], "h-exec",
     "generated histories of metadata updates, configuration changes and hardforks; everything the contract holds is compared after every block; distinct by metadata root", "reference-model monitor after every block", XB)
prop("P26", "CKB headers and cells are kept exactly as submitted",
     "The light client and image cell contracts hold exactly the headers and cells of the accepted updates and rollbacks, in their order: a header or cell reads back as submitted, a consumed cell as consumed, a rolled back or never submitted one as absent. Contracts and CKB scripts see those of their own block, and reading at an old root still gives the old contents, on any thread and after a restart. Malformed submissions are refused without effect.",
     "histories inputs schedules", "all sequences of updates, rollbacks and consumptions and all reads at any root", "tests save one header and a handful of cells",
     "core/executor/src/system_contract/ckb_light_client/mod.rs core/executor/src/system_contract/ckb_light_client/store.rs core/executor/src/system_contract/image_cell/mod.rs core/executor/src/system_contract/image_cell/store.rs core/executor/src/system_contract/mod.rs core/executor/src/precompiles/get_header.rs core/executor/src/precompiles/call_ckb_vm.rs",
     [("CkbLightClientStore", "core/executor/src/system_contract/ckb_light_client/store.rs"), ("ImageCellStore", "core/executor/src/system_contract/image_cell/store.rs"), ("DataProvider", "core/executor/src/system_contract/mod.rs")], "h-exec",
     "generated histories of submissions; the whole header and cell trie is compared after every block, old roots are read again; distinct by root", "reference-model monitor over the trie, the precompiled contracts and the data provider", XB)
SB = "the database is an in-memory stand-in for RocksDB whose writes are atomic per batch and can be made to fail or cut off at any write; RocksDB's own durability is taken as given"
prop("P27", "State tries hold what was written, across caches, crashes and threads",
     "The state trie returns what was last written under every key, and its root is the Merkle root of exactly its contents. A committed root remains readable with all its contents after later commits, after a restart, and after a crash at any database write; a write that fails is reported. Neither the size or contents of the node cache nor concurrent readers change any answer.",
     "histories crash-points schedules", "all write histories, cache sizes, failing writes, crash points and concurrent readers", "tests insert a few keys into a fresh database",
     "core/executor/src/adapter/trie/db.rs core/executor/src/adapter/trie/wrapped.rs",
     [("MPTTrie", "core/executor/src/adapter/trie/wrapped.rs"), ("RocksTrieDB", "core/executor/src/adapter/trie/db.rs")], "h-store",
     "generated write histories with restarts, failing writes, crash images at database writes and concurrent readers; distinct by root", "reference-model monitor with fault injection at database writes", SB)
prop("P28", "What is stored is read back, whole, after crashes and under concurrent reads",
     "Every block, header, transaction, receipt, contract code and proof reads back as it was stored, by every way of looking it up (number, hash, batch, latest), and nothing that was not stored is ever returned. A write that fails or is cut short by a crash is repeated safely and leaves earlier blocks intact; the latest block only ever moves to a block that can be read. Cache sizes, restarts, batch sizes and concurrent readers change no answer, and tables do not see each other's keys.",
     "histories crash-points schedules", "all storing histories, failing writes, crash points, cache sizes, batch sizes and concurrent readers", "tests store one block with ten transactions and read it once",
     "core/storage/src/lib.rs core/storage/src/cache.rs core/storage/src/schema.rs core/db/src/rocks.rs",
     [("ImplStorage", "core/storage/src/lib.rs"), ("RocksAdapter", "core/db/src/rocks.rs")], "h-store",
     "generated storing histories with restarts, failing writes and crash images; everything stored is read back in every way; distinct by contents", "reference-model monitor with fault injection at database writes", SB)
