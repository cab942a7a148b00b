PB = "the rest of the node is a stand-in where the property is about the pool alone (P40, first part of P42), and the real adapter, executor, storage and interoperation code on an in-memory database where it is about admission (P41, second part of P42)"

prop("P40", "The pool packages what it should, in order, and forgets nothing else",
     "A package holds transactions that are in the pool and no others, each sender's in consecutive nonce order from its account's nonce with no gap, the best-paying sender first, one per nonce (the best paid one), up to the limit and no fewer than are ready, with one system transaction of each kind in front, counted as such. What is committed leaves the pool for good; what expires or is outbid leaves it; everything else stays and can be looked up; the places in use are exactly those of the transactions held. A proposal is accepted only if every transaction in it is known, valid and listed once, those missing are asked for and only those asked for are taken, and afterwards its transactions are given back exactly in its order. Restarting with the transactions of the log gives a pool that packages them.",
     "histories inputs", "all sequences of insertions, proposals, packages, commits, expiries, replacements and restarts", "tests insert a few transactions and count what is packaged",
     "core/mempool/src/lib.rs core/mempool/src/pool.rs core/mempool/src/tx_wrapper.rs",
     [("MemPoolImpl", "core/mempool/src/lib.rs"), ("PriorityPool", "core/mempool/src/pool.rs"), ("PendingQueue", "core/mempool/src/tx_wrapper.rs")], "h-pool",
     "generated histories of pool operations with honest and lying peers; the pool is compared with a model after every step; distinct by what the pool holds", "reference-model monitor after every operation", PB)
prop("P41", "Only valid transactions enter the pool, and each is passed on once",
     "A transaction enters the pool exactly if it is validly signed by its sender for this chain (interoperation signatures: the referenced CKB scripts succeed), not committed, not larger than allowed, with a price and gas limit in their ranges, a nonce that is not used, funds for all it may cost, and, for system contracts, a sender who validates at the next block. What enters is passed on to the other nodes exactly once, marked with where it came from. No peer is blamed for a good transaction. A node asked for transactions it has, in the pool or in the chain, answers with exactly those in the order asked for, and with an error if one is unknown.",
     "inputs histories", "all transactions, valid and invalid in every way, on all chain states", "tests verify a few signatures and sizes with fixed keys",
     "core/mempool/src/adapter/mod.rs core/mempool/src/adapter/message.rs core/mempool/src/lib.rs core/interoperation/src/lib.rs",
     [("DefaultMemPoolAdapter", "core/mempool/src/adapter/mod.rs"), ("NewTxsHandler, PullTxsHandler", "core/mempool/src/adapter/message.rs"), ("verify by ckb-vm", "core/interoperation/src/lib.rs")], "h-pool",
     "generated transactions, each wrong in none or some ways, sent by clients and peers while blocks are committed; distinct by what is wrong, kind, way and answer", "reference-model monitor of every admission, and of all that is sent to the network", PB,
     assume=["two known findings (high-s twins are taken; interoperation signatures are not bound to the transaction) are reported under their own keys"])
prop("P42", "The pool loses and repeats nothing under concurrent callers",
     "However insertions by clients and peers, proposals, packaging, commits and lookups interleave, an accepted transaction is committed exactly once, each sender's in nonce order, and a transaction or nonce already committed is never packaged again, even when a block is committed in the middle of the checks of a transaction. No call waits for ever or panics, and in the end the pool is empty and counts nothing.",
     "schedules", "all interleavings of concurrent callers, and all points at which a commit can fall into a check", "tests insert from several tasks and count the result, with no commit at the same time",
     "core/mempool/src/lib.rs core/mempool/src/pool.rs core/mempool/src/adapter/mod.rs",
     [("insert_tx, ensure_order_txs", "core/mempool/src/lib.rs"), ("flush, flush_lock", "core/mempool/src/pool.rs"), ("addr_nonce cache", "core/mempool/src/adapter/mod.rs")], "h-pool",
     "storms of concurrent callers with delayed answers around a committing loop, and a commit injected at every database read of a check; distinct by the sequence of block sizes", "exactly-once and ordering monitor over concurrent histories with injected delays and injected commits", PB, q=25)
