//! A node: what core-run's `start` puts together, on the network of `hub`.
use crate::hub::{Hub, Net};
use common_crypto::{BlsPrivateKey, BlsPublicKey, Secp256k1PrivateKey, PrivateKey, PublicKey, Signature, ToBlsPublicKey, ToPublicKey};
use core_consensus::engine::ConsensusEngine;
use core_consensus::message::{
    ChokeMessageHandler, ProposalMessageHandler, PullBlockRpcHandler, PullProofRpcHandler, PullTxsRpcHandler, QCMessageHandler, RemoteHeightMessageHandler,
    VoteMessageHandler,
};
use core_consensus::status::{CurrentStatus, StatusAgent};
use core_consensus::stop_signal::StopSignal;
use core_consensus::util::OverlordCrypto;
use core_consensus::{ConsensusWal, OverlordConsensus, OverlordConsensusAdapter, OverlordSynchronization, SignedTxsWAL};
use core_executor::{system_contract, AxonExecutorApplyAdapter, AxonExecutorReadOnlyAdapter, MetadataHandle, RocksTrieDB};
use core_interoperation::InteroperationImpl;
use core_mempool::{DefaultMemPoolAdapter, MemPoolImpl, NewTxsHandler, PullTxsHandler};
use overlord::types::{AggregatedSignature, Commit, Proof as OProof, Vote as OVote, VoteType};
use protocol::constants::endpoints::*;
use protocol::traits::{Context, NodeInfo, ReadOnlyStorage, Storage};
use protocol::types::*;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use vlib::oracle::{keccak256, R};
use world::{config_consensus, rt, Genesis, Store, World};

pub type Pool = MemPoolImpl<DefaultMemPoolAdapter<common_crypto::Secp256k1Recoverable, Net, Store, RocksTrieDB, InteroperationImpl>>;
pub type Adp = OverlordConsensusAdapter<Pool, Net, Store, RocksTrieDB>;
pub type Engine = ConsensusEngine<Adp>;
pub const CHAIN: u64 = 1098411886;

#[derive(Clone)]
pub struct Member {
    pub secret: [u8; 32],
    pub bls: [u8; 32],
    pub ext: ValidatorExtend,
}
pub fn member(seed: u64, propose: u32, vote: u32) -> Member {
    let mut secret = keccak256(&[&b"member"[..], &seed.to_be_bytes()].concat());
    secret[0] = 1;
    let mut bls = keccak256(&[&b"bls"[..], &seed.to_be_bytes()].concat());
    bls[0] = 1;
    let k = Secp256k1PrivateKey::try_from(&secret[..]).unwrap();
    let pk = k.pub_key();
    let bpk: BlsPublicKey = BlsPrivateKey::try_from(&bls[..]).unwrap().pub_key(&String::new());
    Member {
        secret,
        bls,
        ext: ValidatorExtend {
            bls_pub_key: Hex::encode(bpk.to_bytes()),
            pub_key: Hex::encode(pk.to_bytes()),
            address: Address::from_pubkey(&pk).0,
            propose_weight: propose,
            vote_weight: vote,
        },
    }
}
impl Member {
    pub fn pk(&self) -> Bytes {
        self.ext.pub_key.as_bytes()
    }
    pub fn sign(&self, hash: &[u8; 32]) -> Vec<u8> {
        let h = common_crypto::HashValue::try_from(&hash[..]).unwrap();
        BlsPrivateKey::try_from(&self.bls[..]).unwrap().sign_message(&h).to_bytes().to_vec()
    }
}
/// order in which a bitmap names them
pub fn ordered(ms: &[Member]) -> Vec<Member> {
    let mut v = ms.to_vec();
    v.sort_by(|a, b| a.pk().cmp(&b.pk()));
    v
}
pub fn vote_hash(height: u64, round: u64, hash: &H256) -> [u8; 32] {
    keccak256(&R::L(vec![R::u(height), R::u(round), R::u(2), R::b(&hash.0)]).enc())
}
pub fn bitmap(n: usize, set: &[usize]) -> Vec<u8> {
    let mut b = vec![0u8; (n + 7) / 8];
    set.iter().for_each(|i| b[i / 8] |= 0x80 >> (i % 8));
    b
}
/// those of `ms` (in bitmap order) at the places of `set` vote for that block
pub fn consent(ms: &[Member], set: &[usize], height: u64, round: u64, hash: &H256) -> Proof {
    let ms = ordered(ms);
    let msg = vote_hash(height, round, hash);
    let sigs: Vec<_> = set
        .iter()
        .map(|i| blst::min_pk::Signature::from_bytes(&ms[*i].sign(&msg)).unwrap())
        .collect();
    let refs: Vec<_> = sigs.iter().collect();
    let signature = if refs.is_empty() {
        Bytes::new()
    } else {
        Bytes::from(blst::min_pk::AggregateSignature::aggregate(&refs, false).unwrap().to_signature().to_bytes().to_vec())
    };
    Proof { number: height, round, block_hash: *hash, signature, bitmap: bitmap(ms.len(), set).into() }
}
pub fn commit_of(p: Proposal, proof: &Proof) -> Commit<Proposal> {
    Commit {
        height: p.number,
        content: p,
        proof: OProof {
            height: proof.number,
            round: proof.round,
            block_hash: Bytes::from(proof.block_hash.0.to_vec()),
            signature: AggregatedSignature { signature: proof.signature.clone(), address_bitmap: proof.bitmap.clone() },
        },
    }
}
#[allow(dead_code)]
pub fn vote(height: u64, round: u64, t: VoteType, hash: &H256) -> OVote {
    OVote { height, round, vote_type: t, block_hash: Bytes::from(hash.0.to_vec()) }
}

pub fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}
pub fn metadata(epoch: u64, start: u64, end: u64, ms: &[Member], consensus: ConsensusConfig) -> Metadata {
    Metadata {
        version: MetadataVersion { start, end },
        epoch,
        verifier_list: ms.iter().map(|m| m.ext.clone()).collect(),
        propose_counter: ms.iter().map(|m| ProposeCount { address: m.ext.address, count: 0 }).collect(),
        consensus_config: consensus,
    }
}
pub fn config() -> ConsensusConfig {
    config_consensus()
}

pub fn genesis(people: &[H160], first: Metadata, second: Metadata) -> Genesis {
    Genesis {
        chain_id: CHAIN,
        base_fee: protocol::constants::BASE_FEE_PER_GAS,
        accounts: people.iter().map(|p| (*p, U256::from(10u64).pow(20.into()))).collect(),
        metadata: [first, second],
        hardfork: HardforkInfoInner { block_number: 0, flags: H256::zero() },
        timestamp: 1_600_000_000,
        coinbase: H160::repeat_byte(9),
    }
}
/// a database with the first block in it, as `init` leaves it
pub fn init(path: &Path, g: &Genesis) -> World {
    let (w, _) = World::genesis(path, 100, g, vec![]);
    let st = Arc::clone(&w.storage);
    world::wait(async move {
        st.update_latest_proof(Context::new(), Proof::default()).await.unwrap();
        st.insert_transactions(Context::new(), 0, vec![]).await.unwrap();
        st.insert_receipts(Context::new(), 0, vec![]).await.unwrap();
    });
    w
}

pub struct Node {
    pub n: usize,
    pub me: Member,
    pub w: World,
    pub pool: Arc<Pool>,
    pub adapter: Arc<Adp>,
    pub crypto: Arc<OverlordCrypto>,
    pub status: StatusAgent,
    pub engine: Arc<Engine>,
    pub sync: Arc<OverlordSynchronization<Adp>>,
    pub consensus: Arc<OverlordConsensus<Adp>>,
    pub info: NodeInfo,
    pub metadata: Metadata,
    pub txs_wal: Arc<SignedTxsWAL>,
    pub dir: PathBuf,
}
pub struct Options {
    pub pool: u64,
    pub chunk: usize,
    /// system contract databases are process-wide: the ones of this world are used
    pub system: Option<Arc<core_db::RocksDB>>,
    pub hardfork: Option<HardforkInfoInner>,
}
impl Default for Options {
    fn default() -> Self {
        Options { pool: 2000, chunk: 3, system: None, hardfork: None }
    }
}

pub fn crypto_of(me: &Member, list: &[ValidatorExtend]) -> Arc<OverlordCrypto> {
    let map: HashMap<Bytes, BlsPublicKey> = list
        .iter()
        .map(|v| (v.pub_key.as_bytes(), BlsPublicKey::try_from(v.bls_pub_key.as_bytes().as_ref()).unwrap()))
        .collect();
    Arc::new(OverlordCrypto::new(BlsPrivateKey::try_from(&me.bls[..]).unwrap(), map, String::new()))
}
impl Node {
    /// on the runtime it is called in
    pub async fn start(w: World, me: &Member, n: usize, dir: &Path, hub: &Arc<Hub>, o: Options) -> Node {
        let (storage, trie) = (Arc::clone(&w.storage), Arc::clone(&w.trie));
        let block = storage.get_latest_block(Context::new()).await.unwrap();
        let head = block.header.clone();
        let net = hub.join(n, me.pk(), tokio::runtime::Handle::current());
        let txs_wal = Arc::new(SignedTxsWAL::new(dir.join("txs")));
        let mut backend =
            AxonExecutorApplyAdapter::from_root(head.state_root, Arc::clone(&trie), Arc::clone(&storage), Proposal::new_without_state_root(&head).into()).unwrap();
        system_contract::init_system_contract_db(o.system.clone().unwrap_or_else(|| Arc::clone(&w.inner)), &mut backend);
        let left = txs_wal.load_by_number(head.number + 1);
        let pool_adapter: DefaultMemPoolAdapter<common_crypto::Secp256k1Recoverable, _, _, _, InteroperationImpl> =
            DefaultMemPoolAdapter::new(net.clone(), Arc::clone(&storage), Arc::clone(&trie), head.chain_id, o.pool as usize, 200, 20);
        let pool = Arc::new(MemPoolImpl::new(o.pool as usize, 20, pool_adapter, left).await);
        // a node never drops its pool: the broadcaster of a dropped one never rests
        std::mem::forget(Arc::clone(&pool));
        let root = AxonExecutorReadOnlyAdapter::from_root(head.state_root, Arc::clone(&trie), Arc::clone(&storage), Proposal::new_without_state_root(&head).into())
            .unwrap()
            .get_metadata_root();
        let handle = MetadataHandle::new(root);
        handle.init_hardfork(head.number).unwrap();
        let metadata = handle.get_metadata_by_block_number(head.number + 1).unwrap();
        use protocol::traits::MemPool;
        pool.set_args(Context::new(), head.state_root, metadata.consensus_config.gas_limit, metadata.consensus_config.max_tx_size);
        let lock = Arc::new(tokio::sync::Mutex::new(()));
        let crypto = crypto_of(me, &metadata.verifier_list);
        let adapter: Arc<Adp> = Arc::new(
            OverlordConsensusAdapter::new(Arc::new(net.clone()), Arc::clone(&pool), Arc::clone(&storage), Arc::clone(&trie), Arc::clone(&crypto)).unwrap(),
        );
        let status = StatusAgent::new(CurrentStatus {
            prev_hash: block.hash(),
            last_number: head.number,
            max_tx_size: metadata.consensus_config.max_tx_size.into(),
            tx_num_limit: metadata.consensus_config.tx_num_limit,
            proof: storage.get_latest_proof(Context::new()).await.unwrap(),
            last_state_root: head.state_root,
        });
        protocol::lazy::CHAIN_ID.swap(Arc::new(head.chain_id));
        let info = NodeInfo::new(head.chain_id, Secp256k1PrivateKey::try_from(&me.secret[..]).unwrap().pub_key(), o.hardfork);
        let wal = Arc::new(ConsensusWal::new(dir.join("consensus")));
        let (stop, rx) = tokio::sync::oneshot::channel();
        std::mem::forget(rx);
        let consensus = Arc::new(
            OverlordConsensus::new(
                status.clone(),
                info.clone(),
                Arc::clone(&crypto),
                Arc::clone(&txs_wal),
                Arc::clone(&adapter),
                Arc::clone(&lock),
                Arc::clone(&wal),
                StopSignal::new(stop),
            )
            .await,
        );
        // the same parts again, to be called directly
        let (stop, rx) = tokio::sync::oneshot::channel();
        std::mem::forget(rx);
        let engine = Arc::new(ConsensusEngine::new(
            status.clone(),
            info.clone(),
            Arc::clone(&txs_wal),
            Arc::clone(&adapter),
            Arc::clone(&crypto),
            Arc::clone(&lock),
            wal,
            StopSignal::new(stop),
        ));
        adapter.set_overlord_handler(consensus.get_overlord_handler());
        let sync = Arc::new(OverlordSynchronization::new(o.chunk, Arc::clone(&adapter), status.clone(), lock));
        let netr = Arc::new(net);
        hub.register(n, END_GOSSIP_NEW_TXS, NewTxsHandler::new(Arc::clone(&pool)));
        hub.register(n, RPC_PULL_TXS, PullTxsHandler::new(Arc::clone(&netr), Arc::clone(&pool)));
        hub.register(n, END_GOSSIP_SIGNED_PROPOSAL, ProposalMessageHandler::new(Arc::clone(&consensus)));
        hub.register(n, END_GOSSIP_AGGREGATED_VOTE, QCMessageHandler::new(Arc::clone(&consensus)));
        hub.register(n, END_GOSSIP_SIGNED_VOTE, VoteMessageHandler::new(Arc::clone(&consensus)));
        hub.register(n, END_GOSSIP_SIGNED_CHOKE, ChokeMessageHandler::new(Arc::clone(&consensus)));
        hub.register(n, BROADCAST_HEIGHT, RemoteHeightMessageHandler::new(Arc::clone(&sync)));
        hub.register(n, RPC_SYNC_PULL_BLOCK, PullBlockRpcHandler::new(Arc::clone(&netr), Arc::clone(&storage)));
        hub.register(n, RPC_SYNC_PULL_PROOF, PullProofRpcHandler::new(Arc::clone(&netr), Arc::clone(&storage)));
        hub.register(n, RPC_SYNC_PULL_TXS, PullTxsRpcHandler::new(netr, Arc::clone(&storage)));
        Node { n, me: me.clone(), w, pool, adapter, crypto, status, engine, sync, consensus, info, metadata, txs_wal, dir: dir.to_owned() }
    }
    /// on the shared runtime, with the process-wide databases this node's
    pub fn begin(w: World, me: &Member, n: usize, dir: &Path, hub: &Arc<Hub>, o: Options) -> Node {
        let _e = rt().enter();
        world::wait(Node::start(w, me, n, dir, hub, o))
    }
    pub fn block(&self, n: u64) -> Option<Block> {
        let st = Arc::clone(&self.w.storage);
        world::wait(async move { st.get_block(Context::new(), n).await }).unwrap()
    }
    pub fn head(&self) -> Block {
        let st = Arc::clone(&self.w.storage);
        world::wait(async move { st.get_latest_block(Context::new()).await }).unwrap()
    }
    pub fn latest_proof(&self) -> Proof {
        let st = Arc::clone(&self.w.storage);
        world::wait(async move { st.get_latest_proof(Context::new()).await }).unwrap()
    }
    /// everything the node stored about a block
    pub fn record(&self, n: u64) -> Option<(Block, Vec<Option<SignedTransaction>>, Vec<Option<Receipt>>)> {
        let b = self.block(n)?;
        let (st, hs) = (Arc::clone(&self.w.storage), b.tx_hashes.clone());
        let (t, r) = world::wait(async move {
            (st.get_transactions(Context::new(), n, &hs).await.unwrap(), st.get_receipts(Context::new(), n, &hs).await.unwrap())
        });
        Some((b, t, r))
    }
    pub fn account(&self, a: &H160) -> Option<Account> {
        let _e = rt().enter();
        let h = self.head().header;
        self.account_at(&h, a)
    }
    pub fn account_at(&self, h: &Header, a: &H160) -> Option<Account> {
        use protocol::codec::ProtocolCodec;
        use protocol::traits::ExecutorReadOnlyAdapter;
        self.w.ro_at(h.state_root, h.into()).get(a.as_bytes()).map(|raw| Account::decode(raw).unwrap())
    }
    pub fn activate(&mut self) {
        self.w.headers = vec![self.head().header];
        self.w.activate();
    }
}
