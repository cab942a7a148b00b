//! P04: what a block commits to.
use protocol::types::*;
use vlib::oracle::{bloom_add, keccak256, R};
use vlib::{guard, hex, json, Ctx};

pub use gen::{r_header, r_proposal};
fn r_logs(l: &[Log]) -> R {
    R::L(l.iter().map(|l| R::L(vec![R::b(l.address.0), R::L(l.topics.iter().map(|t| R::b(t.0)).collect()), R::b(&l.data)])).collect())
}
pub fn logs_bloom_of<'a>(logs: impl IntoIterator<Item = &'a Log>) -> Bloom {
    let mut b = [0u8; 256];
    for l in logs {
        bloom_add(&mut b, &l.address.0);
        l.topics.iter().for_each(|t| bloom_add(&mut b, &t.0));
    }
    Bloom(b)
}
fn covers(big: &Bloom, small: &Bloom) -> bool {
    big.0.iter().zip(small.0.iter()).all(|(a, b)| a & b == *b)
}

pub fn p04(c: &mut Ctx) {
    c.stage("hashes");
    for _ in 0..c.scale(1500, 60_000) {
        if !c.within(0.4) {
            break;
        }
        let mut r = c.rng.fork();
        let h = gen::header(&mut r);
        let enc = r_header(&h).enc();
        c.seen("header", &enc);
        c.event("headers");
        c.ensure(h.hash().0 == keccak256(&enc), "header-hash", || ("the header hash is not keccak over all of its fields".into(), json!({"rlp": hex(&enc), "hash": format!("{:x}", h.hash())})));
        c.ensure(h.size() == enc.len(), "header-size", || ("the header size is not the length of its encoding".into(), json!({"rlp": hex(&enc)})));
        let b = Block { header: h.clone(), tx_hashes: gen::vec(&mut r, 5, gen::h256) };
        c.ensure(b.hash() == h.hash(), "block-hash", || ("a block's hash is not its header's".into(), json!({})));
        let p = gen::proposal(&mut r, 5, 1);
        let enc = r_proposal(&p).enc();
        c.seen("proposal", &enc);
        c.ensure(p.hash().0 == keccak256(&enc), "proposal-hash", || ("the proposal hash is not keccak over its fields".into(), json!({"rlp": hex(&enc)})));
    }
    c.stage("blocks");
    for i in 0..c.scale(800, 40_000) {
        if !c.within(0.9) {
            break;
        }
        let mut r = c.rng.fork();
        let n = if i < 8 { i as usize } else { r.below(9) };
        let txs: Vec<SignedTransaction> = (0..n).map(|_| gen::signed(&mut r)).collect();
        let mut p = gen::proposal(&mut r, 9, 1);
        p.tx_hashes = txs.iter().map(|t| t.transaction.hash).collect();
        let resp = ExecResp {
            state_root: gen::h256(&mut r), receipt_root: gen::h256(&mut r), gas_used: r.edge_u64(),
            tx_resp: (0..n).map(|_| gen::tx_resp(&mut r)).collect(),
        };
        let out = guard(|| {
            let b = Block::new(p.clone(), resp.clone());
            let rr = b.generate_receipts_and_logs(&txs, &resp);
            (b, rr)
        });
        let Ok((b, (receipts, logs))) = out else {
            c.violate("block/panic", "building a block or its receipts panicked", json!({"panic": format!("{:?}", out.err())}));
            continue;
        };
        c.event("blocks");
        c.seen("block", (n, b.hash().0));
        let h = &b.header;
        let want = Header {
            version: p.version, prev_hash: p.prev_hash, proposer: p.proposer, state_root: resp.state_root, transactions_root: p.transactions_root,
            signed_txs_hash: p.signed_txs_hash, receipts_root: resp.receipt_root, log_bloom: h.log_bloom, timestamp: p.timestamp, number: p.number,
            gas_used: resp.gas_used.into(), gas_limit: p.gas_limit, extra_data: p.extra_data.clone(), base_fee_per_gas: p.base_fee_per_gas,
            proof: p.proof.clone(), call_system_script_count: p.call_system_script_count, chain_id: p.chain_id,
        };
        c.ensure(*h == want && b.tx_hashes == p.tx_hashes, "block-fields", || ("a block does not carry its proposal and execution result over".into(), json!({"got": format!("{h:?}").chars().take(700).collect::<String>(), "want": format!("{want:?}").chars().take(700).collect::<String>()})));
        // a proposal rebuilt from the header is the proposal that was agreed on
        let again = Proposal::new_with_state_root(h, p.prev_state_root, b.tx_hashes.clone());
        c.ensure(again == p && again.hash() == p.hash(), "proposal-from-header", || ("the proposal recovered from a block differs from the one it was made of".into(), json!({"got": format!("{again:?}").chars().take(700).collect::<String>()})));
        let bare = Proposal::new_without_state_root(h);
        c.ensure(bare == Proposal { prev_state_root: H256::zero(), tx_hashes: vec![], ..p.clone() }, "proposal-from-header2", || ("new_without_state_root loses a field".into(), json!({})));
        let all: Vec<&Log> = resp.tx_resp.iter().flat_map(|t| t.logs.iter()).collect();
        c.ensure(covers(&h.log_bloom, &logs_bloom_of(all.iter().copied())), "log-bloom/misses-logs", || {
            ("the block's log bloom does not contain the addresses and topics of its own logs".into(), json!({"bloom": hex(h.log_bloom.0), "logs": all.len()}))
        });
        let mut at = 0u32;
        c.ensure(receipts.len() == n && logs.len() == n, "receipt-count", || (format!("{} receipts for {n} transactions", receipts.len()), json!({})));
        for (i, (rc, (t, x))) in receipts.iter().zip(txs.iter().zip(&resp.tx_resp)).enumerate() {
            let want = Receipt {
                tx_hash: t.transaction.hash, block_number: p.number, block_hash: H256(keccak256(&r_header(h).enc())), tx_index: i as u32,
                state_root: resp.state_root, used_gas: x.gas_used.into(), logs_bloom: logs_bloom_of(&x.logs), logs: x.logs.clone(), log_index: at,
                code_address: x.code_address, sender: t.sender, ret: x.exit_reason.clone(), removed: x.removed,
            };
            at += x.logs.len() as u32;
            c.event("receipts");
            c.ensure(*rc == want, "receipt", || (format!("receipt {i} does not describe its transaction"), json!({"got": format!("{rc:?}").chars().take(700).collect::<String>(), "want": format!("{want:?}").chars().take(700).collect::<String>()})));
            c.ensure(logs[i] == x.logs, "receipt-logs", || (format!("logs of transaction {i} got lost"), json!({})));
            let ok = matches!(x.exit_reason, ExitReason::Succeed(_));
            c.ensure(rc.status() == U64::from(ok as u64), "status", || ("receipt status does not say whether the transaction succeeded".into(), json!({"reason": format!("{:?}", x.exit_reason)})));
            let enc = t.encode_receipt(x, logs_bloom_of(&x.logs));
            let mut want = R::L(vec![R::u(ok as u64), R::u(x.gas_used), R::b(logs_bloom_of(&x.logs).0), r_logs(&x.logs)]).enc();
            let ty = t.type_() as u8;
            if ty > 0 {
                want.insert(0, ty);
            }
            c.ensure(enc[..] == want[..], "receipt-encoding", || ("the receipt's EIP-2718 encoding is wrong".into(), json!({"got": hex(&enc), "want": hex(&want)})));
        }
        let rich = RichBlock { block: b.clone(), txs: txs.clone() };
        c.ensure(rich.generate_receipts_and_logs(&resp) == (receipts, logs), "rich-block", || ("a rich block's receipts differ from its block's".into(), json!({})));
    }
    c.stage("context");
    for _ in 0..c.scale(300, 5000) {
        let mut r = c.rng.fork();
        let (p, h) = (gen::proposal(&mut r, 77, 1), gen::header(&mut r));
        let a = ExecutorContext::from(p.clone());
        let ok = a.block_number == p.number.into() && a.block_coinbase == p.proposer && a.block_timestamp == p.timestamp.into() && a.chain_id == p.chain_id.into()
            && a.block_gas_limit == p.gas_limit && a.block_base_fee_per_gas == p.base_fee_per_gas && a.extra_data == p.extra_data;
        c.ensure(ok, "context-proposal", || ("the execution context does not describe the proposal".into(), json!({"context": format!("{a:?}")})));
        let a = ExecutorContext::from(&h);
        let ok = a.block_number == h.number.into() && a.block_coinbase == h.proposer && a.block_timestamp == h.timestamp.into() && a.chain_id == h.chain_id.into()
            && a.block_gas_limit == h.gas_limit && a.block_base_fee_per_gas == h.base_fee_per_gas && a.extra_data == h.extra_data;
        c.ensure(ok, "context-header", || ("the execution context does not describe the header".into(), json!({"context": format!("{a:?}")})));
    }
}
