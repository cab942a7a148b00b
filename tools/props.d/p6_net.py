NB = "the node's whole network code is real and talks over a simulated tentacle service (in-process connections, real frame bytes, handshakes reduced to exchanging the peer ids; virtual time, also for std's Instant by interposing clock_gettime on the thread)"

prop("P60", "A network message reaches exactly the handlers and peers it is for, unchanged",
     "What a node broadcasts or sends to certain peers reaches each connected addressee's handler for exactly that endpoint once, byte for byte and from the true sender, and nobody else's and no other endpoint's, whatever the size, priority and compression; ids and endpoints that name nothing harm nothing. No frame from a peer, whatever its headers, endpoint or bytes, ends the node.",
     "inputs histories", "all messages, sizes, endpoints, headers and addressees, between any number of peers", "one test of the codec's happy path",
     "core/network/src/outbound/gossip.rs core/network/src/reactor.rs core/network/src/message/mod.rs core/network/src/compress.rs core/network/src/endpoint.rs core/network/src/protocols/transmitter/mod.rs",
     [("NetworkGossip", "core/network/src/outbound/gossip.rs"), ("MessageRouter, ReactorHandler", "core/network/src/reactor.rs"), ("LengthDelimitedCodecWithCompress", "core/network/src/compress.rs")], "h-net",
     "meshes of real nodes and hand-made peers exchanging gossip of all sizes over connections of differing speed, with hand-made frames among them; distinct by kind, endpoint and size", "exactly-once delivery checker over the log of every handler and hand-made peer", NB, q=16, t=240)
prop("P61", "Every call to a peer ends once, with that call's answer or an error",
     "A call to a peer returns the answer its handler gave to this very call, or an error: when it refused, is not connected, or has not answered within the time set. Answers of others, to other calls, late, repeated or invented ones are never taken for it and harm nothing; a handler sees each request once, and concurrent calls are not confused.",
     "schedules histories", "all interleavings of calls, answers, refusals, delays and forged answers", "no test calls between nodes",
     "core/network/src/outbound/rpc.rs core/network/src/rpc_map.rs core/network/src/rpc.rs core/network/src/reactor.rs",
     [("NetworkRpc", "core/network/src/outbound/rpc.rs"), ("RpcMap", "core/network/src/rpc_map.rs"), ("RpcResponseHandler", "core/network/src/reactor.rs")], "h-net",
     "concurrent calls among real nodes and hand-made peers that answer, refuse, delay, repeat and forge; distinct by kind, delay and outcome", "matching of every call's result with the log of its handler", NB, q=12, t=200)
prop("P62", "The peer store knows what it was told, and hands out no bad address",
     "At any time the peer store holds exactly the addresses reported and not expired or removed, each once and under its peer; it hands out for dialing and for discovery only addresses that qualify (recently or not yet tried, not banned, reachable when it asks for that) and as many as asked for if it has them; bans of hosts and networks hold until they end; over its capacity it evicts only what may be evicted; what is saved is read back after a restart, and a torn or foreign file only costs what it held.",
     "histories crash-points inputs", "all sequences of discoveries, connections, failures, bans, fetches, restarts and torn files, at any size", "unit tests of single operations",
     "core/network/src/peer_manager/peer_store/peer_store_impl.rs core/network/src/peer_manager/peer_store/addr_manager.rs core/network/src/peer_manager/peer_store/ban_list.rs core/network/src/peer_manager/peer_store/peer_store_db.rs",
     [("PeerStore", "core/network/src/peer_manager/peer_store/peer_store_impl.rs"), ("AddrManager", "core/network/src/peer_manager/peer_store/addr_manager.rs"), ("BanList", "core/network/src/peer_manager/peer_store/ban_list.rs")], "h-net",
     "generated histories over days of virtual time, with crowds over the capacity; distinct by operation and what the store then holds", "reference-model monitor after every operation", NB, q=14, t=200)
prop("P63", "Limits, bans and roles decide who may connect, and free places are filled",
     "A node never has more inbound or outbound connections than configured, bootstraps and validators aside, and lets nobody in during a ban of their host or name; everybody else is let in as long as there is a place, and a place given up is free again. It dials what it knows until its outbound places are taken, each peer once, tests unknown addresses by short connections only, and dials no private address it is told of. A peer that breaks the frame format is cut off and banned.",
     "histories schedules", "all sequences of arrivals, departures, bans, broken frames and validator sets", "no test connects nodes",
     "core/network/src/service.rs core/network/src/peer_manager/mod.rs",
     [("ServiceHandler::handle_event", "core/network/src/service.rs"), ("PeerRegistry::accept_peer", "core/network/src/peer_manager/mod.rs"), ("try_dial_peers", "core/network/src/service.rs")], "h-net",
     "crowds of hand-made peers that arrive, leave, misbehave and get banned over hours of virtual time; distinct by counts of connections and roles", "online monitor of every connection against a model of the limits, bans and roles", NB, q=12, t=200)
prop("P64", "Nodes of a chain find each other and keep apart from strangers and noise",
     "Nodes that know one member of the network become connected with all others, stay so, and dial to verify the addresses at which they are seen. A peer of another chain, one that is not who it should be, does not identify itself in time, breaks the identification, discovery or ping rules, or stops answering pings is disconnected, and no other protocol is opened to it; one that keeps the rules stays. No bytes on any protocol end the node or hinder its other peers.",
     "histories inputs schedules", "all networks, orders of arrival, and behaviours of peers on all protocols", "no test runs these protocols",
     "core/network/src/protocols/identify/mod.rs core/network/src/protocols/discovery/mod.rs core/network/src/protocols/discovery/state.rs core/network/src/protocols/ping.rs core/network/src/protocols/feeler.rs core/network/src/service.rs",
     [("IdentifyProtocol", "core/network/src/protocols/identify/mod.rs"), ("DiscoveryProtocol", "core/network/src/protocols/discovery/mod.rs"), ("PingHandler", "core/network/src/protocols/ping.rs")], "h-net",
     "gathering networks, nodes among strangers, peers that do one of 24 things right or wrong, and random bytes on all protocols; distinct by behaviour and outcome", "online monitor of who is connected and which protocols are open, against what each peer did", NB, q=12, t=200)
