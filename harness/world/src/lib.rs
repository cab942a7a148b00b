//! A chain state on the real database, storage, trie and executor: genesis, blocks, calls and read-back.
use common_config_parser::types::ConfigRocksDB;
pub use core_db::{RocksAdapter, RocksDB};
pub use core_executor::{
    system_contract, AxonExecutor, AxonExecutorApplyAdapter, AxonExecutorReadOnlyAdapter, MPTTrie, MetadataHandle,
    RocksTrieDB,
};
pub use core_storage::ImplStorage;
use protocol::codec::ProtocolCodec;
use protocol::tokio::runtime::{Builder, Runtime};
use protocol::traits::{Backend, Context, Executor, ReadOnlyStorage, Storage};
use protocol::trie::Trie;
use protocol::types::*;
use std::path::{Path, PathBuf};
use std::sync::{Arc, OnceLock};

pub type Store = ImplStorage<RocksAdapter>;
pub type RoAdapter = AxonExecutorReadOnlyAdapter<Store, RocksTrieDB>;
pub type RwAdapter = AxonExecutorApplyAdapter<Store, RocksTrieDB>;

pub fn rt() -> &'static Runtime {
    static RT: OnceLock<Runtime> = OnceLock::new();
    RT.get_or_init(|| Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap())
}
/// run a future to completion on the shared runtime
pub fn wait<T>(f: impl std::future::Future<Output = T>) -> T {
    rt().block_on(f)
}

#[derive(Clone)]
pub struct Genesis {
    pub chain_id: u64,
    pub base_fee: u64,
    pub accounts: Vec<(H160, U256)>,
    pub metadata: [Metadata; 2],
    pub hardfork: HardforkInfoInner,
    pub timestamp: u64,
    pub coinbase: H160,
}

pub struct World {
    pub path: PathBuf,
    pub cache: usize,
    pub inner: Arc<RocksDB>,
    pub storage: Arc<Store>,
    pub trie: Arc<RocksTrieDB>,
    pub headers: Vec<Header>,
    pub chain_id: u64,
}

pub fn config_consensus() -> ConsensusConfig {
    ConsensusConfig {
        gas_limit: 30_000_000,
        interval: 3000,
        propose_ratio: 15,
        prevote_ratio: 10,
        precommit_ratio: 10,
        brake_ratio: 10,
        tx_num_limit: 20000,
        max_tx_size: 409600,
        max_contract_limit: 0x6000,
    }
}
pub fn validator(address: H160, propose_weight: u32, vote_weight: u32) -> ValidatorExtend {
    ValidatorExtend {
        bls_pub_key: Hex::encode([7u8; 48]),
        pub_key: Hex::encode([2u8; 33]),
        address,
        propose_weight,
        vote_weight,
    }
}
pub fn metadata(epoch: u64, start: u64, end: u64, validators: Vec<ValidatorExtend>) -> Metadata {
    Metadata {
        version: MetadataVersion::new(start, end),
        epoch,
        verifier_list: validators,
        propose_counter: vec![],
        consensus_config: config_consensus(),
    }
}

#[derive(Clone)]
pub struct BlockSpec {
    pub proposer: H160,
    pub timestamp: u64,
    pub gas_limit: u64,
    pub base_fee: u64,
    pub txs: Vec<SignedTransaction>,
    pub validators: Vec<ValidatorExtend>,
    pub extra: Vec<ExtraData>,
}

/// put a transaction in a block without an actual signature (the executor reads only the sender)
pub fn unsigned_from(sender: H160, u: UnsignedTransaction, chain_id: u64) -> SignedTransaction {
    SignedTransaction {
        transaction: UnverifiedTransaction {
            unsigned: u,
            signature: None,
            chain_id: Some(chain_id),
            hash: Default::default(),
        },
        sender,
        public: None,
    }
}

impl World {
    pub fn open(path: &Path, cache: usize, chain_id: u64) -> World {
        std::fs::create_dir_all(path).unwrap();
        let adapter = Arc::new(RocksAdapter::new(path, ConfigRocksDB::default()).unwrap());
        let inner = adapter.inner_db();
        World {
            path: path.to_owned(),
            cache,
            trie: Arc::new(RocksTrieDB::new_evm(Arc::clone(&inner), cache)),
            storage: Arc::new(ImplStorage::new(adapter, cache)),
            inner,
            headers: vec![],
            chain_id,
        }
    }
    /// a second handle on the same database, with caches of its own
    pub fn reopen(&self, cache: usize) -> World {
        let mut w = World::open(&self.path, cache, self.chain_id);
        w.headers = self.headers.clone();
        w
    }
    /// the same steps as core-run's `init`: accounts, system contracts, genesis transactions
    pub fn genesis(path: &Path, cache: usize, g: &Genesis, txs: Vec<SignedTransaction>) -> (World, ExecResp) {
        // the executor keeps the roots it works on per thread, and a new node's are empty
        vlib::fresh(|| Self::genesis_(path, cache, g, txs))
    }
    fn genesis_(path: &Path, cache: usize, g: &Genesis, txs: Vec<SignedTransaction>) -> (World, ExecResp) {
        let _e = rt().enter();
        // a node that creates its chain has seen no hardfork yet
        system_contract::metadata::HARDFORK_INFO.swap(Arc::new(H256::zero()));
        let mut w = World::open(path, cache, g.chain_id);
        let mut trie = MPTTrie::new(Arc::clone(&w.trie));
        for (a, b) in &g.accounts {
            let acc = Account { nonce: U256::zero(), balance: *b, storage_root: RLP_NULL, code_hash: NIL_DATA };
            trie.insert(a.as_bytes().to_vec(), acc.encode().unwrap().to_vec()).unwrap();
        }
        let root = trie.commit().unwrap();
        let mut header = Header {
            prev_hash: H256::zero(),
            proposer: g.coinbase,
            state_root: H256::zero(),
            timestamp: g.timestamp,
            number: 0,
            gas_limit: U64::from(30_000_000u64),
            base_fee_per_gas: U64::from(g.base_fee),
            chain_id: g.chain_id,
            extra_data: vec![ExtraData { inner: g.hardfork.encode().unwrap() }],
            ..Default::default()
        };
        let mut rw = RwAdapter::from_root(root, Arc::clone(&w.trie), Arc::clone(&w.storage), (&header).into()).unwrap();
        system_contract::init(Arc::clone(&w.inner), &mut rw, &g.metadata, g.hardfork.clone()).unwrap();
        let resp = AxonExecutor.exec(&mut rw, &txs, &[]);
        header.state_root = resp.state_root;
        header.receipts_root = resp.receipt_root;
        header.gas_used = resp.gas_used.into();
        w.push(header, &txs);
        w.activate();
        (w, resp)
    }
    fn push(&mut self, header: Header, txs: &[SignedTransaction]) {
        let block = Block { header: header.clone(), tx_hashes: txs.iter().map(|t| t.transaction.hash).collect() };
        let st = Arc::clone(&self.storage);
        wait(async move { st.insert_block(Context::new(), block).await }).unwrap();
        self.headers.push(header);
    }
    pub fn head(&self) -> &Header {
        self.headers.last().unwrap()
    }
    pub fn root(&self) -> H256 {
        self.head().state_root
    }
    /// make this world the one the process-wide system contract databases refer to, as a node start does
    pub fn activate(&self) {
        let _e = rt().enter();
        let mut rw = self.rw(self.head().into());
        system_contract::init_system_contract_db(Arc::clone(&self.inner), &mut rw);
        MetadataHandle::new(rw.get_metadata_root()).init_hardfork(self.head().number).unwrap();
    }
    pub fn ctx_for(&self, b: &BlockSpec) -> ExecutorContext {
        ExecutorContext {
            block_number: (self.head().number + 1).into(),
            block_coinbase: b.proposer,
            block_timestamp: b.timestamp.into(),
            chain_id: self.chain_id.into(),
            origin: b.proposer,
            gas_price: U256::one(),
            block_gas_limit: b.gas_limit.into(),
            block_base_fee_per_gas: b.base_fee.into(),
            extra_data: b.extra.clone(),
        }
    }
    pub fn rw(&self, ctx: ExecutorContext) -> RwAdapter {
        RwAdapter::from_root(self.root(), Arc::clone(&self.trie), Arc::clone(&self.storage), ctx).unwrap()
    }
    pub fn ro_at(&self, root: H256, ctx: ExecutorContext) -> RoAdapter {
        RoAdapter::from_root(root, Arc::clone(&self.trie), Arc::clone(&self.storage), ctx).unwrap()
    }
    pub fn ro(&self) -> RoAdapter {
        self.ro_at(self.root(), self.head().into())
    }
    /// execute without recording the block
    pub fn dry(&self, b: &BlockSpec) -> ExecResp {
        let _e = rt().enter();
        let mut rw = self.rw(self.ctx_for(b));
        AxonExecutor.exec(&mut rw, &b.txs, &b.validators)
    }
    pub fn record(&mut self, b: &BlockSpec, resp: &ExecResp) {
        let header = Header {
            prev_hash: Block { header: self.head().clone(), tx_hashes: vec![] }.hash(),
            proposer: b.proposer,
            state_root: resp.state_root,
            receipts_root: resp.receipt_root,
            timestamp: b.timestamp,
            number: self.head().number + 1,
            gas_used: resp.gas_used.into(),
            gas_limit: b.gas_limit.into(),
            base_fee_per_gas: b.base_fee.into(),
            extra_data: b.extra.clone(),
            chain_id: self.chain_id,
            ..Default::default()
        };
        self.push(header, &b.txs);
    }
    pub fn exec(&mut self, b: &BlockSpec) -> ExecResp {
        let resp = self.dry(b);
        self.record(b, &resp);
        resp
    }
    pub fn call(&self, from: Option<H160>, to: Option<H160>, value: U256, data: Vec<u8>, gas: u64, estimate: bool) -> TxResp {
        let _e = rt().enter();
        let mut ctx: ExecutorContext = self.head().into();
        ctx.origin = from.unwrap_or_default();
        AxonExecutor.call(&self.ro_at(self.root(), ctx), gas, from, to, value, data, estimate)
    }
    pub fn account(&self, a: &H160) -> Option<Account> {
        let _e = rt().enter();
        use protocol::traits::ExecutorReadOnlyAdapter;
        self.ro().get(a.as_bytes()).map(|raw| Account::decode(raw).unwrap())
    }
    pub fn storage_at(&self, a: &H160, k: &H256) -> H256 {
        let _e = rt().enter();
        self.ro().storage(*a, *k)
    }
    pub fn code(&self, a: &H160) -> Vec<u8> {
        let _e = rt().enter();
        self.ro().code(*a)
    }
    pub fn block_hash(&self, n: u64) -> Option<H256> {
        let st = Arc::clone(&self.storage);
        wait(async move { st.get_block(Context::new(), n).await }).unwrap().map(|b| b.hash())
    }
    pub fn metadata_root(&self) -> H256 {
        let _e = rt().enter();
        self.ro().get_metadata_root()
    }
    pub fn cell_root(&self) -> H256 {
        let _e = rt().enter();
        self.ro().get_image_cell_root()
    }
}

/// every (path, value) of a trie, read node by node with an independent decoder
pub fn leaves(db: &RocksTrieDB, root: H256) -> Option<std::collections::BTreeMap<Vec<u8>, Vec<u8>>> {
    use vlib::oracle::R;
    fn node(db: &RocksTrieDB, n: &R, path: &mut Vec<u8>, out: &mut std::collections::BTreeMap<Vec<u8>, Vec<u8>>) -> Option<()> {
        let R::L(items) = n else {
            let R::B(h) = n else { return None };
            if h.is_empty() {
                return Some(());
            }
            let raw = protocol::trie::DB::get(db, h).ok()??;
            return node(db, &R::dec(&raw)?.0, path, out);
        };
        let pack = |p: &[u8]| p.chunks(2).map(|c| c[0] << 4 | c[1]).collect::<Vec<u8>>();
        if items.len() == 17 {
            for (i, x) in items[..16].iter().enumerate() {
                path.push(i as u8);
                node(db, x, path, out)?;
                path.pop();
            }
            if let R::B(v) = &items[16] {
                if !v.is_empty() {
                    out.insert(pack(path), v.clone());
                }
            }
            return Some(());
        }
        let (R::B(p), true) = (items.get(0)?, items.len() == 2) else { return None };
        let mut nib: Vec<u8> = p.iter().flat_map(|b| [b >> 4, b & 15]).collect();
        let leaf = nib[0] & 2 != 0;
        let odd = nib[0] & 1 != 0;
        nib.drain(..if odd { 1 } else { 2 });
        let keep = path.len();
        path.extend(&nib);
        if leaf {
            let R::B(v) = &items[1] else { return None };
            out.insert(pack(path), v.clone());
        } else {
            node(db, &items[1], path, out)?;
        }
        path.truncate(keep);
        Some(())
    }
    let mut out = Default::default();
    if root == RLP_NULL {
        return Some(out);
    }
    node(db, &R::B(root.0.to_vec()), &mut vec![], &mut out)?;
    Some(out)
}
