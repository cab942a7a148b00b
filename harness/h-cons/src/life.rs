//! A node on a runtime of its own, which can be stopped at any moment.
use crate::hub::Hub;
use crate::node::*;
use core_consensus::DurationConfig;
use protocol::traits::{CommonConsensusAdapter, Context};
use protocol::types::*;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::runtime::{Builder, Runtime};
use world::World;

pub struct Life {
    pub rt: Option<Runtime>,
    pub node: Node,
    /// time as this runtime lives it: ticks of 10 ms
    pub ticks: Arc<AtomicU64>,
    /// how `run` ended, if it did
    pub ended: Arc<Mutex<Option<String>>>,
}
impl Life {
    pub fn start(w: World, me: &Member, n: usize, dir: &Path, hub: &Arc<Hub>, o: Options) -> Life {
        let rt = Builder::new_multi_thread().worker_threads(2).enable_all().thread_name(format!("node{n}")).build().unwrap();
        let node = rt.block_on(Node::start(w, me, n, dir, hub, o));
        let ticks = Arc::new(AtomicU64::new(0));
        let t = Arc::clone(&ticks);
        rt.spawn(async move {
            loop {
                tokio::time::sleep(Duration::from_millis(10)).await;
                t.fetch_add(1, Ordering::Relaxed);
            }
        });
        let (adapter, status) = (Arc::clone(&node.adapter), node.status.clone());
        rt.spawn(async move {
            loop {
                let n = status.inner().proof.number;
                if n != 0 {
                    let _ = adapter.broadcast_number(Context::new(), n).await;
                }
                tokio::time::sleep(Duration::from_millis(150)).await;
            }
        });
        let ended = Arc::new(Mutex::new(None));
        let m = node.metadata.consensus_config.clone();
        let timer = DurationConfig {
            propose_ratio: m.propose_ratio,
            prevote_ratio: m.prevote_ratio,
            precommit_ratio: m.precommit_ratio,
            brake_ratio: m.brake_ratio,
        };
        let validators: Vec<ConsensusValidator> = node.metadata.verifier_list.iter().map(Into::into).collect();
        let (consensus, end, from) = (Arc::clone(&node.consensus), Arc::clone(&ended), node.status.inner().last_number);
        let run = rt.spawn(async move { consensus.run(from, m.interval, validators, Some(timer)).await.map_err(|e| e.to_string()) });
        rt.spawn(async move {
            let how = match run.await {
                Ok(Ok(())) => "over".to_owned(),
                Ok(Err(e)) => e,
                Err(e) => format!("{e:?}"),
            };
            *end.lock().unwrap() = Some(how);
        });
        Life { rt: Some(rt), node, ticks, ended }
    }
    pub fn height(&self) -> u64 {
        self.node.status.inner().last_number
    }
    pub fn now(&self) -> u64 {
        self.ticks.load(Ordering::Relaxed)
    }
    pub fn insert(&self, t: SignedTransaction) -> Result<(), String> {
        use protocol::traits::MemPool;
        let pool = Arc::clone(&self.node.pool);
        self.rt.as_ref().unwrap().block_on(async move { pool.insert(Context::new(), t).await }).map_err(|e| e.to_string())
    }
    /// everything stops where it is
    pub fn kill(&mut self, hub: &Hub) {
        hub.leave(self.node.n);
        if let Some(rt) = self.rt.take() {
            rt.shutdown_timeout(Duration::from_secs(10));
        }
    }
}
impl Drop for Life {
    fn drop(&mut self) {
        if let Some(rt) = self.rt.take() {
            rt.shutdown_timeout(Duration::from_secs(10));
        }
    }
}
