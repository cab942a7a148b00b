LIB = "trusts the generators (harness/gen) to reach the shapes that matter, the independent oracles in harness/vlib, and debug assertions plus overflow checks of the debug build as undefined-behaviour monitors"

prop("P01", "Consensus encodings round-trip",
     "Every value the node stores or sends (blocks, proposals, proofs, receipts, transactions of every kind, metadata, execution results, interoperation signatures) decodes from its own encoding to an equal value, and equal values have equal encodings. Fields that the encoding leaves out are restored from the chain's constants.",
     "inputs", "all values of every encodable protocol type, including empty, boundary-length and deeply populated ones",
     "the unit tests round-trip one random instance of a few types; they never cross RLP length boundaries, optional fields or every transaction kind",
     "protocol/src/codec/block.rs protocol/src/codec/receipt.rs protocol/src/codec/executor.rs protocol/src/codec/transaction.rs protocol/src/types/primitive.rs",
     [("Encodable/Decodable implementations", "protocol/src/codec/*.rs")], "h-proto",
     "one generated value per case; counted once per distinct encoding", "round-trip monitor over generated values, with panics and overflow checks as sanitizers",
     LIB)
prop("P02", "Decoding hostile bytes never crashes",
     "Decoding arbitrary bytes as any stored or transmitted value returns either a value or an error and never panics, whatever a peer or a client sends. A value obtained this way survives being encoded and decoded again.",
     "inputs", "arbitrary byte strings: random, structurally mutated encodings, truncations, wrong list shapes, oversized lengths",
     "tests decode only what they encoded themselves", "protocol/src/codec/transaction.rs protocol/src/codec/block.rs protocol/src/codec/mod.rs protocol/src/types/primitive.rs",
     [("Decodable implementations", "protocol/src/codec/*.rs"), ("signature and address parsing", "protocol/src/types/transaction.rs, protocol/src/types/primitive.rs")], "h-proto",
     "byte strings made by corrupting valid encodings at byte and at RLP-item level; distinct by content", "panic monitor (debug assertions, overflow checks, bounds checks) under mutation fuzzing", LIB)
prop("P03", "Transactions follow Ethereum's wire format and sign what they show",
     "A transaction's raw form is the one EIP-155/2718/2930/1559 prescribe, its hash is the hash of that form, and the sender recovered from it is the key that signed exactly these fields for this chain. Changing any signed field, the chain id or the signature changes the recovered sender or is refused.",
     "inputs", "all transaction kinds, chain ids, fee fields, access lists and signatures, and all single-field changes",
     "tests recover a handful of fixed mainnet transactions", "protocol/src/codec/transaction.rs protocol/src/types/transaction.rs common/crypto/src/secp256k1_recoverable.rs",
     [("signing payload and hash", "protocol/src/types/transaction.rs"), ("sender recovery", "protocol/src/types/transaction.rs, common/crypto")], "h-proto",
     "transactions generated and signed with an independent encoder and k256; distinct by raw bytes", "differential oracle: independent EIP encoder and signer against the node's codec", LIB)
prop("P04", "A block commits to everything in it",
     "Block and proposal hashes are the hash of all of their fields, and the transaction root, receipt root, gas total and log bloom of a block built from execution results are those of exactly its transactions and receipts, in order. Receipts carry the block, position, sender, gas and logs of their own transaction.",
     "inputs", "all headers, proposals, transaction lists and execution results", "tests hash fixed examples or compare encodings of one random block",
     "protocol/src/types/block.rs protocol/src/types/receipt.rs common/merkle/src/lib.rs", [("Block::new, header hash", "protocol/src/types/block.rs"), ("receipt generation", "protocol/src/types/block.rs")], "h-proto",
     "generated headers, proposals and execution results; distinct by encoding", "differential oracle: hashes, tries and blooms recomputed independently", LIB)
prop("P05", "Merkle roots bind content and order",
     "The ordered root of a list and the root of a key-value trie equal the Ethereum definition of them, depend on every element, and are the same whichever order independent keys are inserted in. Proofs produced for a leaf verify for that leaf and for no other.",
     "inputs", "all lists and key-value sets", "tests check single fixed roots", "common/merkle/src/lib.rs common/hasher/src/lib.rs", [("ordered root and trie merkle", "common/merkle/src/lib.rs")], "h-proto",
     "generated lists and key sets; distinct by root", "differential oracle: independent Merkle-Patricia implementation", LIB)
prop("P06", "The light client accepts only what a weighted quorum signed",
     "The light-client library accepts a block proof exactly when validators holding more than two thirds of the vote weight signed a precommit for this very block at this height and round, on top of this parent state. Any change to the block, the proof, the voter set or the signatures is refused, and a trie proof never yields a value that is not in the trie.",
     "inputs", "all validator sets, weights, voter subsets around the quorum line, and all single changes to block, proof and validator list",
     "tests verify one recorded block with one validator set", "devtools/axon-tools/src/proof.rs devtools/axon-tools/src/rlp_codec.rs devtools/axon-tools/src/types.rs",
     [("verify_proof", "devtools/axon-tools/src/proof.rs"), ("verify_trie_proof", "devtools/axon-tools/src/proof.rs")], "h-proto",
     "validator sets with real BLS keys sign generated blocks; each proof is then changed in one place; distinct by proposal, voters and change", "adversarial workload with an accept/reject oracle and independent BLS signing", LIB + "; blst's own verification is trusted")
prop("P07", "Text forms of bytes, addresses, quantities and keys are exact",
     "Byte strings, addresses, quantities and keys print in one canonical form and are read back to the same value in any letter case the format allows. Anything else, such as a wrong prefix, length, digit or address checksum, is refused without crashing.",
     "inputs", "all values, and well-formed strings with one defect", "tests use two or three literals", "protocol/src/types/primitive.rs protocol/src/codec/mod.rs devtools/axon-tools/src/types.rs devtools/axon-tools/src/hex.rs",
     [("Hex, Address, checksum", "protocol/src/types/primitive.rs"), ("hex and key decoding", "protocol/src/codec/mod.rs")], "h-proto", "generated values and spoiled strings; distinct by value", "round-trip and reject oracle with an independent EIP-55", LIB)
prop("P08", "axon-tools speaks the chain's own format",
     "Blocks, headers, proofs, proposals, validators and metadata have the same encoding and hash in the tool library as on the chain, and what a node prints as JSON is read by the tools as the same value. Malformed or oversized numbers are refused rather than wrapped or crashed on.",
     "inputs", "all values of the shared types, and malformed documents", "tests read one recorded block, proof and metadata file", "devtools/axon-tools/src/types.rs devtools/axon-tools/src/rlp_codec.rs protocol/src/types/block.rs protocol/src/types/primitive.rs",
     [("copied type definitions", "devtools/axon-tools/src/types.rs")], "h-proto", "generated chain values converted field by field; distinct by encoding", "differential oracle: the two implementations against each other and against a field-wise conversion", LIB)
prop("P09", "CKB scripts run exactly as given, and only so far",
     "A script call runs the program stored in exactly the named cell with exactly the given arguments, reports the program's own exit code, and gives the same answer every time and on every thread. Missing or malformed programs and faults are errors, never crashes, and a program stops at its cycle limit.",
     "programs inputs schedules", "all programs, argument lists, cell sets and limits", "no test runs a script offline", "core/interoperation/src/lib.rs protocol/src/types/interoperation.rs",
     [("call_ckb_vm", "core/interoperation/src/lib.rs")], "h-proto", "hand-assembled RISC-V programs with known behaviour, plus corrupted ELF files; distinct by program, arguments and result",
     "execution monitor over hand-assembled programs with known exit codes", LIB + "; ckb-vm itself is third-party")
prop("P10", "Specifications, configurations and hardfork settings mean what they say",
     "A chain specification, node configuration or private key is read into exactly the values written in it, with the documented defaults, and a malformed one is refused. The genesis header is determined by the specification, and a hardfork once announced becomes active at its height and never again inactive.",
     "inputs configurations histories", "all specifications and configurations, and all sequences of hardfork announcements", "tests parse one shipped file", "common/config-parser/src/types/spec.rs common/config-parser/src/types/config.rs common/config-parser/src/lib.rs protocol/src/types/primitive.rs",
     [("ChainSpec, Genesis, HardforkInput", "common/config-parser/src/types/spec.rs"), ("HardforkInfo", "protocol/src/types/primitive.rs")], "h-proto",
     "generated TOML files with known contents, broken variants, and random announcement sequences against a reference history; distinct by text or step", "reference-model monitor over generated files and histories", LIB)
prop("P15", "An inclusion proof shows only what is in the CKB block",
     "The tools accept a proof that transactions (or witnesses) are in a CKB block exactly when each leaf given is at its place in the tree under the root named, and the two roots make up the block's. A payload is written and read, as contract arguments and as RLP, in the one form contracts use.",
     "inputs", "all trees, choices of leaves, both kinds of root, all single changes to a proof, and malformed payloads",
     "no test of the tools verifies such a proof", "devtools/axon-tools/src/precompile.rs", [("verify_proof", "devtools/axon-tools/src/precompile.rs"), ("payload codec", "devtools/axon-tools/src/precompile.rs")], "h-proto",
     "proofs made from generated trees, each also with one change; distinct by tree size, choice and change", "accept/reject oracle with an independent tree, and a differential oracle for the two forms of a payload", LIB)
