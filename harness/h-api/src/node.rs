//! A node as its clients see it: chain, pool and the RPC server in front of them; and what the chain really holds.
use crate::net::Net;
use crate::prog::{deploy, runner, P};
use common_config_parser::types::Config;
use common_crypto::Secp256k1Recoverable;
use core_api::DefaultAPIAdapter;
use core_executor::RocksTrieDB;
use core_interoperation::InteroperationImpl;
use core_mempool::{DefaultMemPoolAdapter, MemPoolImpl};
use gen::{key, Key};
use jsonrpsee::sim;
use protocol::codec::ProtocolCodec;
use protocol::traits::{Context, MemPool, Storage};
use protocol::types::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicU16, AtomicU64, Ordering};
use std::sync::Arc;
use tokio::runtime::{Builder, Runtime};
use vlib::oracle::{keccak256, R};
use vlib::{hex, Ctx, Rng};
use world::{metadata, validator, BlockSpec, Genesis, Store, World};

pub type Adapter = DefaultMemPoolAdapter<Secp256k1Recoverable, Net, Store, RocksTrieDB, InteroperationImpl>;
pub type Pool = MemPoolImpl<Adapter>;
pub const CHAIN: u64 = 1098411886;
pub const E18: u64 = 1_000_000_000_000_000_000;
pub const GWEI: u64 = 1_000_000_000;
pub const VERSION: &str = "0.0.1-watched";
pub const GAS_CAP: u64 = 20_000_000;

/// the runtime the servers live on; its clock can be moved on (see `warp`)
pub fn art() -> &'static Runtime {
    static RT: std::sync::OnceLock<Runtime> = std::sync::OnceLock::new();
    RT.get_or_init(|| {
        Builder::new_multi_thread()
            .worker_threads(6)
            .on_thread_start(|| WARPED.with(|w| w.set(true)))
            .enable_all()
            .build()
            .unwrap()
    })
}
thread_local!(static WARPED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
static AHEAD: AtomicU64 = AtomicU64::new(0);
/// The servers' threads see a monotonic clock that the harness can move forward.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, id as libc::c_long, ts) as libc::c_int;
    if id == libc::CLOCK_MONOTONIC && r == 0 {
        let ahead = AHEAD.load(Ordering::Relaxed);
        if ahead > 0 && WARPED.try_with(|w| w.get()).unwrap_or(false) {
            (*ts).tv_sec += ahead as libc::time_t;
        }
    }
    r
}
/// moves the servers' clock forward and has whatever is due happen
pub fn warp(secs: u64) {
    AHEAD.fetch_add(secs, Ordering::Relaxed);
    for _ in 0..3 {
        wait(async { tokio::time::sleep(std::time::Duration::from_millis(2)).await });
    }
}
pub fn wait<T: Send + 'static>(f: impl std::future::Future<Output = T> + Send + 'static) -> T {
    art().block_on(art().spawn(f)).unwrap()
}

#[derive(Clone)]
pub struct Sent {
    pub stx: SignedTransaction,
    pub raw: Vec<u8>,
    pub hash: H256,
    pub sig: (u8, [u8; 32], [u8; 32]),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Acc {
    pub nonce: U256,
    pub balance: U256,
    pub storage: H256,
    pub code: H256,
}
pub struct Rec {
    pub block: Block,
    pub hash: H256,
    pub txs: Vec<Sent>,
    pub resp: Vec<TxResp>,
    /// by the hash of the address
    pub accounts: BTreeMap<[u8; 32], Acc>,
}
impl Rec {
    pub fn acc(&self, a: &H160) -> Acc {
        self.accounts.get(&keccak256(&a.0)).cloned().unwrap_or(Acc { nonce: 0.into(), balance: 0.into(), storage: RLP_NULL, code: NIL_DATA })
    }
    /// index in the block of a transaction's first log
    pub fn first_log(&self, tx: usize) -> usize {
        self.resp[..tx].iter().map(|r| r.logs.len()).sum()
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum Reply {
    Ok(Value),
    Err { code: i64, message: String, data: Value },
    /// the server did not come through: (where, what)
    Broke(String, String),
}
impl Reply {
    pub fn ok(&self) -> Option<&Value> {
        match self {
            Reply::Ok(v) => Some(v),
            _ => None,
        }
    }
    pub fn code(&self) -> Option<i64> {
        match self {
            Reply::Err { code, .. } => Some(*code),
            _ => None,
        }
    }
    pub fn u256(&self) -> Option<U256> {
        uint(self.ok()?)
    }
    pub fn bytes(&self) -> Option<Vec<u8>> {
        bytes(self.ok()?)
    }
}
pub fn uint(v: &Value) -> Option<U256> {
    let s = v.as_str()?.strip_prefix("0x")?;
    // a quantity has no leading zeros
    if s.is_empty() || (s.len() > 1 && s.starts_with('0')) {
        return None;
    }
    U256::from_str_radix(s, 16).ok()
}
pub fn bytes(v: &Value) -> Option<Vec<u8>> {
    let s = v.as_str()?.strip_prefix("0x")?;
    (s.len() % 2 == 0 && s.bytes().all(|b| b.is_ascii_hexdigit())).then(|| vlib::unhex(s))
}
pub fn q(x: impl Into<U256>) -> Value {
    json!(format!("{:#x}", x.into()))
}
pub fn d(b: impl AsRef<[u8]>) -> Value {
    json!(format!("0x{}", hex(b).trim_start_matches("0x")))
}

pub struct Options {
    pub range: u64,
    pub hardfork: H256,
    pub turn: u64,
    pub cache: usize,
}
impl Default for Options {
    fn default() -> Self {
        Options { range: 25000, hardfork: H256::zero(), turn: 1000, cache: 100 }
    }
}
pub struct Node {
    pub w: World,
    pub pool: Arc<Pool>,
    pub http: SocketAddr,
    pub ws: SocketAddr,
    pub chain: Vec<Rec>,
    pub keys: Vec<Key>,
    pub runners: Vec<H160>,
    pub nonces: HashMap<H160, u64>,
    pub codes: HashMap<H256, Vec<u8>>,
    pub opt: Options,
}

pub fn start_pool(w: &World) -> Arc<Pool> {
    let _e = art().enter();
    let a: Adapter = DefaultMemPoolAdapter::new(Net::default(), Arc::clone(&w.storage), Arc::clone(&w.trie), CHAIN, 300_000, 10, 50);
    let pool = Arc::new(art().block_on(MemPoolImpl::new(5000, 1000, a, vec![])));
    std::mem::forget(Arc::clone(&pool));
    pool
}
pub fn config(http: SocketAddr, ws: SocketAddr, range: u64) -> Config {
    toml::from_str(&format!(
        r#"
net_privkey_file = "net.key"
bls_privkey_file = "bls.key"
data_path = "/nowhere"
[rpc]
http_listening_address = "{http}"
ws_listening_address = "{ws}"
maxconn = 1000
max_payload_size = 10485760
[web3]
max_gas_cap = {GAS_CAP}
log_filter_max_block_range = {range}
[network]
listening_address = "/ip4/0.0.0.0/tcp/8001"
rpc_timeout = 10
[synchronization]
sync_txs_chunk_size = 5000
[mempool]
timeout_gap = 20
pool_size = 20000
broadcast_txs_size = 200
broadcast_txs_interval = 200
[executor]
triedb_cache_size = 200
"#
    ))
    .unwrap()
}

impl Node {
    pub fn new(dir: &std::path::Path, opt: Options) -> Node {
        let keys: Vec<Key> = (0..6).map(key).collect();
        let vals = |i: usize| vec![validator(keys[i].addr, 1, 1)];
        let funds = [U256::from(E18), U256::from(E18) * 1000, U256::from(E18) * 50, U256::from(E18), U256::from(E18), U256::from(E18)];
        let g = Genesis {
            chain_id: CHAIN,
            base_fee: 1337,
            accounts: keys.iter().enumerate().map(|(i, k)| (k.addr, funds[i])).collect(),
            metadata: [metadata(0, 1, opt.turn, vals(0)), metadata(1, opt.turn + 1, 1_000_000, vals(1))],
            hardfork: HardforkInfoInner { block_number: 0, flags: opt.hardfork },
            timestamp: 1_600_000_000_000,
            coinbase: H160::repeat_byte(9),
        };
        let (w, _) = World::genesis(dir, opt.cache, &g, vec![]);
        protocol::lazy::CHAIN_ID.swap(Arc::new(CHAIN));
        let st = Arc::clone(&w.storage);
        wait(async move {
            st.update_latest_proof(Context::new(), Proof::default()).await.unwrap();
            st.insert_transactions(Context::new(), 0, vec![]).await.unwrap();
            st.insert_receipts(Context::new(), 0, vec![]).await.unwrap();
        });
        w.activate();
        let header = w.head().clone();
        let pool = start_pool(&w);
        let mut n = Node {
            pool, chain: vec![], keys, runners: vec![], nonces: Default::default(), codes: Default::default(), opt, w,
            http: SocketAddr::from(([127, 0, 0, 1], 0)), ws: SocketAddr::from(([127, 0, 0, 1], 0)),
        };
        n.note(Block { header, tx_hashes: vec![] }, vec![], vec![]);
        n.serve();
        n
    }
    /// a server of its own on fresh addresses
    pub fn serve(&mut self) {
        static PORT: AtomicU16 = AtomicU16::new(10_000);
        sim::unlisten(self.http);
        sim::unlisten(self.ws);
        let at = || SocketAddr::from(([127, 0, 0, 1], PORT.fetch_add(1, Ordering::SeqCst)));
        (self.http, self.ws) = (at(), at());
        let cfg = config(self.http, self.ws, self.opt.range);
        let a = Arc::new(DefaultAPIAdapter::new(
            Arc::clone(&self.pool), Arc::clone(&self.w.storage), Arc::clone(&self.w.trie), Arc::new(Net::default()),
        ));
        let (h, s) = wait(core_api::jsonrpc::run_jsonrpc_server(VERSION.to_owned(), cfg, a)).unwrap();
        assert!(h.is_some() && s.is_some(), "both servers listen");
        std::mem::forget((h, s));
    }
    /// as after a restart: nothing in memory
    pub fn restart(&mut self) {
        self.w = self.w.reopen(self.opt.cache);
        self.w.activate();
        self.pool = start_pool(&self.w);
        self.pool.set_args(Context::new(), self.w.root(), 30_000_000, 500_000);
        self.serve();
    }
    fn note(&mut self, block: Block, txs: Vec<Sent>, resp: Vec<TxResp>) {
        let hash = H256(keccak256(&gen::r_header(&block.header).enc()));
        let mut accounts = BTreeMap::new();
        for (path, raw) in world::leaves(&self.w.trie, block.header.state_root).expect("state is complete") {
            let (Some((R::L(v), _)), Ok(path)) = (R::dec(&raw), <[u8; 32]>::try_from(path)) else { continue };
            let b = |i: usize| match &v[i] {
                R::B(b) => b.clone(),
                _ => panic!("an account"),
            };
            accounts.insert(
                path,
                Acc {
                    nonce: U256::from_big_endian(&b(0)), balance: U256::from_big_endian(&b(1)),
                    storage: H256::from_slice(&b(2)), code: H256::from_slice(&b(3)),
                },
            );
        }
        self.chain.push(Rec { block, hash, txs, resp, accounts });
    }
    /// what an account has stored at a block, by the hash of the slot
    pub fn stored(&self, at: usize, a: &H160) -> BTreeMap<[u8; 32], U256> {
        let root = self.chain[at].acc(a).storage;
        let all = world::leaves(&self.w.trie, root).expect("storage is complete");
        all.into_iter()
            .map(|(k, raw)| match R::dec(&raw) {
                Some((R::B(b), _)) => (k.try_into().unwrap(), U256::from_big_endian(&b)),
                _ => panic!("a stored word"),
            })
            .collect()
    }
    pub fn head(&self) -> &Rec {
        self.chain.last().unwrap()
    }
    pub fn height(&self) -> u64 {
        self.chain.len() as u64 - 1
    }
    pub fn sign(&mut self, who: usize, kind: usize, to: Option<H160>, value: U256, data: Vec<u8>, limit: u64, price: u64, tip: u64) -> Sent {
        let addr = self.keys[who].addr;
        let at = self.head().acc(&addr).nonce.low_u64();
        let n = self.nonces.entry(addr).or_insert(at);
        *n = (*n).max(at);
        let nonce = *n;
        *n += 1;
        sign(&self.keys[who], nonce, kind, to, value, data, limit, price, tip)
    }
    /// the block with these transactions, as the engine stores it
    pub fn commit(&mut self, r: &mut Rng, txs: Vec<Sent>) -> &Rec {
        let extra = if r.chance(1, 4) { vec![ExtraData { inner: r.edge_bytes(40).into() }] } else { vec![] };
        let spec = BlockSpec {
            proposer: H160::repeat_byte(9 + r.below(3) as u8),
            timestamp: 1_600_000_000_000 + self.height() * 3000 + 1 + r.below(2000) as u64,
            gas_limit: *r.pick(&[30_000_000, 29_999_999, 12_345_678]),
            base_fee: *r.pick(&[1337, 1337, 1337, 900]),
            txs: txs.iter().map(|t| t.stx.clone()).collect(),
            validators: vec![validator(H160::repeat_byte(9), 1, 1)],
            extra,
        };
        let w = &self.w;
        // the executor keeps the roots it works on per thread
        let resp = vlib::fresh(|| w.dry(&spec));
        let proposal = Proposal {
            version: BlockVersion::V0,
            prev_hash: self.head().hash,
            proposer: spec.proposer,
            prev_state_root: self.w.root(),
            transactions_root: H256(r.arr()),
            signed_txs_hash: H256(r.arr()),
            timestamp: spec.timestamp,
            number: self.height() + 1,
            gas_limit: spec.gas_limit.into(),
            extra_data: spec.extra.clone(),
            base_fee_per_gas: spec.base_fee.into(),
            proof: gen::proof(r),
            chain_id: CHAIN,
            call_system_script_count: r.below(5) as u32,
            tx_hashes: txs.iter().map(|t| t.hash).collect(),
        };
        let block = Block::new(proposal, resp.clone());
        let (receipts, _) = block.generate_receipts_and_logs(&spec.txs, &resp);
        let (st, b, number) = (Arc::clone(&self.w.storage), block.clone(), block.header.number);
        let stxs = spec.txs.clone();
        wait(async move {
            st.update_latest_proof(Context::new(), b.header.proof.clone()).await.unwrap();
            st.insert_transactions(Context::new(), number, stxs).await.unwrap();
            st.insert_receipts(Context::new(), number, receipts).await.unwrap();
            st.insert_block(Context::new(), b).await.unwrap();
        });
        self.w.headers.push(block.header.clone());
        self.pool.set_args(Context::new(), self.w.root(), 30_000_000, 500_000);
        let (pool, hashes) = (Arc::clone(&self.pool), block.tx_hashes.clone());
        wait(async move { pool.flush(Context::new(), &hashes, number).await }).unwrap();
        self.note(block, txs, resp.tx_resp);
        self.head()
    }
    /// block 1: the runners
    pub fn equip(&mut self, r: &mut Rng, n: usize) {
        let code = runner();
        self.codes.insert(H256(keccak256(&code)), code.clone());
        let txs: Vec<Sent> =
            (0..n).map(|_| self.sign(0, 0, None, 0.into(), deploy(&code), 1_000_000, GWEI, 0)).collect();
        self.runners = txs.iter().map(|t| created(&t.stx.sender, t.stx.transaction.unsigned.nonce().low_u64())).collect();
        self.commit(r, txs);
        for a in &self.runners {
            assert_eq!(self.head().acc(a).code, H256(keccak256(&code)), "a runner stands");
        }
    }
    pub fn run(&mut self, who: usize, kind: usize, on: usize, p: &P, limit: u64) -> Sent {
        let to = self.runners[on];
        self.sign(who, kind, Some(to), 0.into(), p.wrap(), limit, GWEI, 0)
    }
    pub fn raw(&self, text: String) -> Result<Option<String>, (String, String)> {
        post(self.http, text)
    }
    pub fn rpc(&self, method: &str, params: Value) -> Reply {
        reply(self.raw(json!({"jsonrpc": "2.0", "id": 7, "method": method, "params": params}).to_string()))
    }
}
pub fn post(http: SocketAddr, text: String) -> Result<Option<String>, (String, String)> {
    let h = art().spawn(async move { tokio::time::timeout(std::time::Duration::from_secs(20), sim::post(http, &text)).await });
    match art().block_on(h) {
        Err(_) => {
            let p = vlib::PANICS.lock().unwrap();
            let (loc, msg, _) = p.last().cloned().unwrap_or_default();
            Err((vlib::short_loc(&loc), msg))
        }
        Ok(Err(_)) => Err(("no answer".into(), "no answer within 20 s".into())),
        Ok(Ok(Err(e))) => Err(("connection".into(), e.into())),
        Ok(Ok(Ok(t))) => Ok(t),
    }
}
pub fn reply(t: Result<Option<String>, (String, String)>) -> Reply {
    match t {
        Err((at, what)) => Reply::Broke(at, what),
        Ok(None) => Reply::Broke("no body".into(), "no body".into()),
        Ok(Some(t)) => {
            let Ok(v) = serde_json::from_str::<Value>(&t) else { return Reply::Broke("not JSON".into(), t) };
            if let Some(e) = v.get("error") {
                return Reply::Err {
                    code: e["code"].as_i64().unwrap_or(0),
                    message: e["message"].as_str().unwrap_or("").to_owned(),
                    data: e["data"].clone(),
                };
            }
            match v.get("result") {
                Some(r) => Reply::Ok(r.clone()),
                None => Reply::Broke("neither result nor error".into(), t),
            }
        }
    }
}
pub fn sign(k: &Key, nonce: u64, kind: usize, to: Option<H160>, value: U256, data: Vec<u8>, limit: u64, price: u64, tip: u64) -> Sent {
    let action = to.map_or(TransactionAction::Create, TransactionAction::Call);
    let (nonce, gas_limit, gas_price, data) = (nonce.into(), limit.into(), price.into(), Bytes::from(data));
    let access = |a: Option<H160>| {
        a.map(|address| vec![AccessListItem { address, storage_keys: vec![H256::repeat_byte(1)] }]).unwrap_or_default()
    };
    let u = match kind {
        0 => UnsignedTransaction::Legacy(LegacyTransaction { nonce, gas_limit, gas_price, action, value, data }),
        1 => UnsignedTransaction::Eip2930(Eip2930Transaction { nonce, gas_limit, gas_price, action, value, data, access_list: access(to) }),
        _ => UnsignedTransaction::Eip1559(Eip1559Transaction {
            nonce, gas_limit, gas_price, max_priority_fee_per_gas: tip.into(), action, value, data, access_list: access(to),
        }),
    };
    let (raw, hash, sig) = k.sign_raw(&u, Some(CHAIN));
    let stx = SignedTransaction::from_unverified(UnverifiedTransaction::decode(&raw).unwrap()).unwrap();
    Sent { stx, raw, hash: H256(hash), sig }
}
pub fn created(from: &H160, nonce: u64) -> H160 {
    H160::from_slice(&keccak256(&R::L(vec![R::b(from.0), R::u(nonce)]).enc())[12..])
}
/// every panic of the code under test, whichever thread it was on, is the end of a node
pub fn no_panics(c: &mut Ctx, what: &str, detail: Value) {
    let all: Vec<_> = std::mem::take(&mut *vlib::PANICS.lock().unwrap());
    for (loc, msg, _) in all {
        if vlib::in_tree(&loc) {
            c.violate(format!("panic:{}", vlib::short_loc(&loc)), format!("{what}: panic at {}: {msg}", vlib::short_loc(&loc)), detail.clone());
        }
    }
}
/// a workload's mix of blocks
pub const TOPICS: usize = 5;
pub fn topic(i: usize) -> H256 {
    H256(keccak256(&[b"topic", &[i as u8][..]].concat()))
}
pub fn some_logs(r: &mut Rng, p: &mut P, n: usize) {
    for _ in 0..n {
        let t: Vec<H256> = (0..r.below(5)).map(|_| topic(r.below(TOPICS))).collect();
        let l = r.below(70);
        let data = r.bytes(l);
        p.log(&t, &data);
    }
}
impl Node {
    /// a transaction that may log, store, fail, create or pay
    pub fn some_tx(&mut self, r: &mut Rng) -> Sent {
        let who = r.below(5);
        let kind = r.below(3);
        let price = *r.pick(&[GWEI, 2 * GWEI, 1338, 7 * GWEI]);
        let tip = *r.pick(&[0, 1, GWEI, 3 * GWEI]);
        match r.below(10) {
            0 | 1 => {
                let to = if r.bool() { self.keys[r.below(6)].addr } else { H160::repeat_byte(0xa0 + r.below(5) as u8) };
                self.sign(who, kind, Some(to), (r.below(1000) as u64).into(), vec![], 21_000 + 50_000 * r.below(2) as u64, price, tip)
            }
            2 => {
                // a contract of its own, which may log while it is made, or come to nothing
                let mut code = P::new();
                code.op(&[0x60, r.below(200) as u8, 0x50, 0x00]);
                let code = code.0;
                self.codes.insert(H256(keccak256(&code)), code.clone());
                let mut p = P::new();
                let n = r.below(3);
                some_logs(r, &mut p, n);
                match r.below(4) {
                    0 => {
                        p.op(&[0xfe]);
                    }
                    1 => {
                        p.revert(b"no contract");
                    }
                    _ => {
                        p.mem(&code).n(code.len() as u64).n(0).op(&[0xf3]);
                    }
                }
                self.sign(who, kind, None, 0.into(), p.0, 400_000, price, tip)
            }
            _ => {
                let mut p = P::new();
                let n = r.below(4);
                some_logs(r, &mut p, n);
                for _ in 0..r.below(5) {
                    p.sstore(slot(r), if r.chance(1, 4) { 0.into() } else { (1 + r.below(1 << 30) as u64).into() });
                }
                if r.chance(1, 3) {
                    // inner logs, which may be undone
                    let mut q = P::new();
                    some_logs(r, &mut q, 2);
                    if r.chance(1, 3) {
                        q.revert(b"undone");
                    }
                    let to = *r.pick(&self.runners);
                    p.call(&to, &q.wrap());
                    some_logs(r, &mut p, 1);
                }
                match r.below(8) {
                    0 => {
                        let l = r.below(40);
                        let data = r.bytes(l);
                        p.revert(&data);
                    }
                    1 => {
                        p.op(&[0xfe]);
                    }
                    _ => {
                        p.op(&[0x00]);
                    }
                }
                let (to, limit) = (*r.pick(&self.runners), *r.pick(&[600_000, 900_000, 100_000]));
                self.sign(who, kind, Some(to), 0.into(), p.wrap(), limit, price, tip)
            }
        }
    }
    pub fn some_block(&mut self, r: &mut Rng, max: usize) {
        let n = if r.chance(1, 5) { 0 } else { r.below(max + 1) };
        let txs: Vec<Sent> = (0..n).map(|_| self.some_tx(r)).collect();
        self.commit(r, txs);
    }
}
pub fn slot(r: &mut Rng) -> U256 {
    match r.below(6) {
        0 => U256::max_value(),
        1 => U256::one() << 255,
        n => n.into(),
    }
}
