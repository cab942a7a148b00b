//! P58: a hardfork is announced by those set up for it, and in force from its height, on every node.
use crate::hub::{Hub, Silent};
use crate::node::*;
use crate::prop::quorum;
use core_executor::system_contract::metadata::{MetadataHandle, HARDFORK_INFO};
use overlord::Consensus as _;
use protocol::codec::ProtocolCodec;
use protocol::traits::{Context, ReadOnlyStorage, Storage};
use protocol::types::*;
use std::sync::Arc;
use vlib::{guard, json, Ctx, Rng};

type Fork = HardforkInfoInner;

pub fn p58(c: &mut Ctx) {
    c.stage("upgrades");
    for n in 0..c.scale(40, 2000) {
        if !c.within(0.95) {
            break;
        }
        let mut trail = vec![];
        if let Err(p) = guard(|| history(c, n, &mut trail)) {
            c.violate("panic", format!("{} at {}", p.msg, vlib::short_loc(&p.loc)), json!({"history": n, "trail": trail}));
        }
    }
}
/// what a chain remembers of the announcements in it
struct Known(Vec<Fork>);
impl Known {
    fn hear(&mut self, f: &Fork) {
        let last = self.0.last().unwrap().clone();
        let flags = f.flags | last.flags;
        // nothing new, or older than what is already agreed
        if flags == last.flags || f.block_number < last.block_number {
            return;
        }
        if f.block_number == last.block_number {
            self.0.pop();
        }
        self.0.push(Fork { block_number: f.block_number, flags });
    }
    fn in_force(&self, h: u64) -> H256 {
        self.0.iter().rev().find(|f| f.block_number <= h).map_or(H256::zero(), |f| f.flags)
    }
}
fn fork(r: &mut Rng, h: u64) -> Fork {
    let flags = match r.below(4) {
        0 => H256::from_low_u64_be(3),
        1 => H256(r.arr()),
        2 => H256::from_low_u64_be(2),
        _ => H256::from_low_u64_be(1),
    };
    Fork { block_number: h + r.below(7) as u64, flags }
}
fn setup(w: &world::World, f: &Fork) {
    let (st, f) = (Arc::clone(&w.storage), f.clone());
    world::wait(async move { st.set_hardfork_proposal(Context::new(), f).await }).unwrap();
}
fn stored(w: &world::World) -> Option<Fork> {
    let st = Arc::clone(&w.storage);
    world::wait(async move { st.hardfork_proposal(Context::new()).await }).unwrap()
}
fn history(c: &mut Ctx, n: u64, trail: &mut Vec<String>) {
    let mut r = c.rng.fork();
    let members: Vec<Member> = (0..4).map(|i| member(n * 100 + i, 1, 1)).collect();
    let hub = Hub::new(Silent);
    let cfg = ConsensusConfig { interval: 10, ..config() };
    let turn = r.range(2, 6);
    let g = genesis(&[], metadata(0, 1, turn, &members, cfg.clone()), metadata(1, turn + 1, 1_000_000, &members, cfg));
    let mut known = Known(vec![g.hardfork.clone()]);
    let shared = fork(&mut r, 1);
    let mut own: Vec<Option<Fork>> = (0..3).map(|_| match r.below(5) { 0 => None, 1 => Some(fork(&mut r, 1)), _ => Some(shared.clone()) }).collect();
    let mut nodes = vec![];
    for i in 0..3 {
        let dir = c.scratch.join(format!("f{n}-{i}"));
        let _ = std::fs::remove_dir_all(&dir);
        let w = init(&dir, &g);
        if let Some(f) = &own[i] {
            setup(&w, f);
        }
        let hardfork = stored(&w);
        nodes.push(Node::begin(w, &members[i], i, &dir, &hub, Options { hardfork, ..Default::default() }));
    }
    for h in 1..=r.range(5, 10) {
        if !c.within(0.97) {
            break;
        }
        let lead = r.below(3);
        let det = |trail: &Vec<String>, own: &Vec<Option<Fork>>, known: &Known| json!({"history": n, "height": h, "trail": trail, "set up": format!("{own:?}"), "agreed": format!("{:?}", known.0)});
        // an operator sets up an upgrade and starts the node again
        if r.chance(1, 4) {
            let i = r.below(3);
            let f = if r.bool() { own[r.below(3)].clone() } else { Some(fork(&mut r, h)) };
            let old: &Node = &nodes[i];
            let w = old.w.reopen(100);
            if let (None, Some(f)) = (&own[i], f) {
                setup(&w, &f);
                own[i] = Some(f);
            }
            let hardfork = stored(&w);
            trail.push(format!("height {h}: {i} starts again, set up for {hardfork:?}"));
            c.ensure(hardfork == own[i], "remembered", || (format!("a node set up for {:?} is started with {hardfork:?}", own[i]), det(trail, &own, &known)));
            let dir = old.dir.clone();
            nodes[i] = Node::begin(w, &members[i], i, &dir, &hub, Options { hardfork, ..Default::default() });
            let force = **HARDFORK_INFO.load();
            c.ensure(force == known.in_force(h - 1), "in-force-after-restart", || (format!("{force:?} is in force after block {}, not {:?}", h - 1, known.in_force(h - 1)), det(trail, &own, &known)));
            c.event("restarts");
        }
        nodes[lead].activate();
        let p = match world::wait(nodes[lead].engine.get_block(Context::new(), h)) {
            Ok((p, _)) => p,
            Err(e) => return c.violate("no-proposal", e.to_string(), det(trail, &own, &known)),
        };
        // whose time has come without it being agreed is given up
        if own[lead].as_ref().map_or(false, |f| f.block_number <= h) {
            own[lead] = None;
            c.event("announcements given up");
        }
        let want: Vec<ExtraData> = own[lead].iter().map(|f| ExtraData { inner: f.encode().unwrap() }).collect();
        trail.push(format!("height {h}: {lead} announces {:?}", own[lead]));
        c.seen("announcement", (lead, own[lead].as_ref().map(|f| (f.block_number.wrapping_sub(h), f.flags))));
        if !c.ensure(p.extra_data == want, "announcement", || (format!("a leader set up for {:?} proposes {:?} at height {h}", own[lead], p.extra_data), det(trail, &own, &known))) {
            return;
        }
        for i in 0..3 {
            let (f, said) = (own[i].clone(), own[lead].clone());
            let m = members[lead].ext.address;
            assert_eq!(p.proposer, m);
            nodes[i].activate();
            let hash = |p: &Proposal| Bytes::from(p.hash().0.to_vec());
            let ask = |p: &Proposal| guard(|| world::wait(nodes[i].engine.check_block(Context::new().with_value("peer", lead), h, hash(p), p.clone())).map_err(|e| e.to_string()));
            let got = ask(&p);
            let ok = said.is_none() || said == f;
            c.event(if ok { "announcements to accept" } else { "announcements to refuse" });
            let fits = matches!(&got, Ok(x) if x.is_ok() == ok) || i == lead && matches!(&got, Ok(Ok(())));
            c.ensure(fits, if ok { "refused" } else { "accepted" }, || (format!("a node set up for {f:?} answers {got:?} to a proposal announcing {said:?}"), det(trail, &own, &known)));
            // announcements made up on the way
            let mut forged = p.clone();
            let base = f.clone().or(said.clone()).unwrap_or_else(|| fork(&mut r, h + 1));
            let mut x = base.clone();
            let twice = r.chance(1, 4);
            let inner: Bytes = if twice { base.encode().unwrap() } else { match r.below(5) {
                0 => { x.block_number = x.block_number.wrapping_add(1 + r.below(3) as u64); x.encode().unwrap() }
                1 => { x.flags.0[r.below(32)] ^= 1 << r.below(8); x.encode().unwrap() }
                2 => r.bytes(5).into(),
                3 => Bytes::new(),
                _ => base.encode().unwrap(),
            } };
            forged.extra_data = vec![ExtraData { inner: inner.clone() }; 1 + twice as usize];
            if i != lead && forged != p {
                let got = ask(&forged);
                let ok = !twice && HardforkInfoInner::decode(&inner).ok().map_or(false, |x| Some(x) == f);
                c.event("made up announcements");
                c.ensure(matches!(&got, Ok(x) if x.is_ok() == ok), if ok { "refused" } else { "accepted" }, || (format!("a node set up for {f:?} answers {got:?} to a proposal announcing {:?}", forged.extra_data), det(trail, &own, &known)));
            }
        }
        if let Some(f) = &own[lead] {
            known.hear(f);
            c.event("announcements agreed");
        }
        let proof = consent(&members, &quorum(&mut r, &members, true), h, 0, &p.hash());
        let force = known.in_force(h);
        for i in 0..3 {
            nodes[i].activate();
            let v = &nodes[i];
            match guard(|| world::wait(v.engine.commit(Context::new(), h, commit_of(p.clone(), &proof))).map(|_| ()).map_err(|e| e.to_string())) {
                Ok(Ok(())) => (),
                got => return c.violate("commit", format!("node {i}: {got:?}"), det(trail, &own, &known)),
            }
            // agreed to by the others: nothing left to announce
            let last = known.0.last().unwrap().flags;
            if own[i].as_ref().map_or(false, |f| last & f.flags == f.flags) {
                own[i] = None;
                c.event("announcements fulfilled");
            }
            let now = **HARDFORK_INFO.load();
            c.ensure(now == force, "in-force", || (format!("{now:?} is in force from block {h} on, not {force:?}"), det(trail, &own, &known)));
            if force != H256::zero() {
                c.event("blocks under a hardfork");
            }
            nodes[i].activate();
            let v = &nodes[i];
            let head = v.head().header;
            let list = MetadataHandle::new(v.w.ro_at(head.state_root, (&head).into()).get_metadata_root()).hardfork_infos().map(|x| x.inner).map_err(|e| e.to_string());
            c.ensure(list.as_ref() == Ok(&known.0), "history", || (format!("the chain's hardforks are {list:?}, not {:?}", known.0), det(trail, &own, &known)));
            c.ensure(head.extra_data == p.extra_data, "in-the-block", || (format!("the block carries {:?}", head.extra_data), det(trail, &own, &known)));
            let (kept, mine) = (stored(&v.w), v.info.hardfork_proposals.read().unwrap().clone());
            c.ensure(kept == own[i] && mine == own[i], "given-up", || (format!("node {i} still stands for {mine:?}, and keeps {kept:?}, not {:?}", own[i]), det(trail, &own, &known)));
        }
        c.event("blocks");
    }
    for i in 0..3 {
        let _ = std::fs::remove_dir_all(c.scratch.join(format!("f{n}-{i}")));
    }
}
