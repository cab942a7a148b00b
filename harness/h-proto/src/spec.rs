//! P10: what chain specifications, node configurations and hardfork settings mean.
use clap::builder::{TypedValueParser, ValueParserFactory};
use common_config_parser::types::spec::{ChainSpec, HardforkInput, HardforkName};
use common_config_parser::types::Config;
use common_config_parser::{parse_file, parse_reader};
use protocol::types::*;
use std::path::Path;
use vlib::{guard, hex as hx, json, Ctx, Rng};

fn eip55(a: &H160) -> String {
    protocol::types::checksum(&hx(a.0))
}
struct Spec {
    text: String,
    ts: u64,
    fee: u64,
    chain: u64,
    forks: Vec<HardforkName>,
    accounts: Vec<(H160, U256)>,
    epoch: u64,
    version: (u64, u64),
    cfg: ConsensusConfig,
    limit_given: bool,
    vals: Vec<Validator>,
}
fn spec(r: &mut Rng) -> Spec {
    let i63 = |r: &mut Rng| r.edge_u64() >> 1;
    let (ts, chain, epoch) = (i63(r), i63(r), i63(r));
    let fee = r.edge_u64();
    let forks = match r.below(4) { 0 => vec![HardforkName::None], 1 => vec![HardforkName::Andromeda], 2 => vec![], _ => (0..r.range(2, 5)).map(|_| *r.pick(&[HardforkName::None, HardforkName::Andromeda])).collect() };
    let accounts: Vec<(H160, U256)> = (0..r.below(6)).map(|_| (gen::h160(r), gen::u256(r))).collect();
    let version = (i63(r), i63(r));
    let mut cfg = gen::consensus_config(r);
    for f in [&mut cfg.gas_limit, &mut cfg.interval, &mut cfg.propose_ratio, &mut cfg.prevote_ratio, &mut cfg.precommit_ratio, &mut cfg.brake_ratio, &mut cfg.tx_num_limit, &mut cfg.max_tx_size, &mut cfg.max_contract_limit] {
        *f >>= 1;
    }
    let limit_given = r.bool();
    if !limit_given {
        cfg.max_contract_limit = 0x6000;
    }
    let vals: Vec<Validator> = (0..r.below(5) + 1).map(|_| gen::validator(r)).collect();
    let mut t = format!("[genesis]\ntimestamp = {ts}\nbase_fee_per_gas = \"{fee:#x}\"\nchain_id = {chain}\nhardforks = {:?}\n", forks.iter().map(|f| format!("{f:?}")).collect::<Vec<_>>());
    if accounts.is_empty() {
        t = format!("accounts = []\n{t}");
    }
    for (a, b) in &accounts {
        let bal = match r.below(2) { 0 => format!("{b:#x}"), _ => format!("{b:x}") };
        t += &format!("[[accounts]]\naddress = \"{}\"\nbalance = \"{bal}\"\n", eip55(a));
    }
    t += &format!("[params]\nepoch = {epoch}\n[params.version]\nstart = {}\nend = {}\n[params.consensus_config]\n", version.0, version.1);
    t += &format!("gas_limit = {}\ninterval = {}\npropose_ratio = {}\nprevote_ratio = {}\nprecommit_ratio = {}\nbrake_ratio = {}\ntx_num_limit = {}\nmax_tx_size = {}\n", cfg.gas_limit, cfg.interval, cfg.propose_ratio, cfg.prevote_ratio, cfg.precommit_ratio, cfg.brake_ratio, cfg.tx_num_limit, cfg.max_tx_size);
    if limit_given {
        t += &format!("max_contract_limit = {}\n", cfg.max_contract_limit);
    }
    for v in &vals {
        t += &format!("[[params.verifier_list]]\nbls_pub_key = \"0x{}\"\npub_key = \"0x{}\"\npropose_weight = {}\nvote_weight = {}\n", hx(v.bls_pub_key.as_ref()), hx(v.pub_key.as_ref()), v.propose_weight, v.vote_weight);
    }
    Spec { text: t, ts, fee, chain, forks, accounts, epoch, version, cfg, limit_given, vals }
}
fn flags_of(forks: &[HardforkName]) -> H256 {
    // one bit per hardfork, counted from the first byte of the last eight; none given means all known ones
    let all = 1u8;
    let bits = if forks.is_empty() { all } else { forks.iter().fold(0, |a, f| a | *f as u8) };
    let mut h = [0u8; 32];
    h[24] = bits;
    H256(h)
}
fn parse(t: &str) -> Result<ChainSpec, String> {
    parse_reader::<_, ChainSpec>(&mut t.as_bytes()).map_err(|e| e.to_string())
}
fn via_cli<T: Clone + Send + Sync + 'static, P: TypedValueParser<Value = T>>(p: P, path: &Path) -> Result<T, String> {
    p.parse_ref(&clap::Command::new("x"), None, path.as_os_str()).map_err(|e| e.to_string())
}

pub fn p10(c: &mut Ctx) {
    c.stage("shipped files");
    for e in ["single_node", "multi_nodes", "multi_nodes_short_epoch_len", "alphanet_nodes"] {
        let f = format!("{}/devtools/chain/specs/{e}/chain-spec.toml", c.repo);
        let Ok(text) = std::fs::read_to_string(&f) else { continue };
        let raw: toml::Value = text.parse().unwrap();
        c.event("shipped specs");
        let got = via_cli(ChainSpec::value_parser(), Path::new(&f));
        let ok = c.ensure(got.is_ok(), "spec/shipped", || (format!("{f} does not parse: {got:?}"), json!({})));
        if let (true, Ok(s)) = (ok, got) {
            let n = |p: &[&str]| p.iter().fold(&raw, |v, k| &v[*k]).as_integer().unwrap() as u64;
            c.ensure(s.genesis.timestamp == n(&["genesis", "timestamp"]) && s.genesis.chain_id == n(&["genesis", "chain_id"]) && s.accounts.len() == raw["accounts"].as_array().unwrap().len()
                && s.params.consensus_config.gas_limit == n(&["params", "consensus_config", "gas_limit"]) && s.params.verifier_list.len() == raw["params"]["verifier_list"].as_array().unwrap().len(),
                "spec/shipped-values", || (format!("{f} parses to other values than it contains"), json!({})));
            for v in &s.params.verifier_list {
                let e = guard(|| ValidatorExtend::from(v.clone()));
                c.ensure(e.is_ok(), "spec/shipped-validator", || (format!("{f}: {e:?}"), json!({})));
            }
        }
    }
    for i in 1..=4 {
        let f = format!("{}/devtools/chain/nodes/node_{i}.toml", c.repo);
        if !Path::new(&f).exists() {
            continue;
        }
        c.event("shipped configurations");
        let got = via_cli(Config::value_parser(), Path::new(&f));
        let bls = std::fs::read(format!("{}/devtools/chain/nodes/node_{i}_bls.key", c.repo)).unwrap();
        let net = std::fs::read(format!("{}/devtools/chain/nodes/node_{i}_net.key", c.repo)).unwrap();
        c.ensure(matches!(&got, Ok(g) if g.bls_privkey[..] == bls[..] && g.net_privkey[..] == net[..]), "config/shipped", || (format!("{f}: {:?}", got.as_ref().err()), json!({})));
    }
    c.stage("specs");
    for _ in 0..c.scale(6000, 60_000) {
        if !c.within(0.5) {
            break;
        }
        let mut r = c.rng.fork();
        let s = spec(&mut r);
        c.event("specs");
        c.seen("spec", &s.text);
        let d = json!({"spec": s.text});
        let got = guard(|| parse(&s.text));
        let Ok(Ok(p)) = got else {
            c.ensure(false, "spec/parse", || (format!("a well-formed spec was answered {got:?}"), d));
            continue;
        };
        c.ensure(p.genesis.timestamp == s.ts && p.genesis.chain_id == s.chain && p.genesis.base_fee_per_gas.as_u64() == s.fee && p.genesis.hardforks == s.forks, "spec/genesis", || (format!("{:?}", p.genesis), d.clone()));
        c.ensure(p.accounts.iter().map(|a| (a.address, a.balance)).eq(s.accounts.iter().copied()), "spec/accounts", || (format!("{:?}", p.accounts), d.clone()));
        let m: Metadata = Metadata { verifier_list: vec![], ..SpecMetadata { verifier_list: vec![], ..p.params.clone() }.into() };
        c.ensure(m.epoch == s.epoch && (m.version.start, m.version.end) == s.version && m.consensus_config == s.cfg && m.propose_counter.is_empty() && p.params.verifier_list == s.vals, "spec/params",
            || (format!("{:?} (contract limit given: {})", p.params, s.limit_given), d.clone()));
        let h = p.genesis.build_header();
        let want = Header {
            version: BlockVersion::V0, prev_hash: H256::zero(), proposer: H160::zero(), state_root: H256::zero(),
            transactions_root: H256(vlib::oracle::ordered_root(&[])), signed_txs_hash: H256(vlib::oracle::keccak256(&[0xc0])),
            receipts_root: H256::zero(), log_bloom: Bloom::zero(), timestamp: s.ts, number: 0, gas_used: U64::zero(), gas_limit: U64::zero(),
            extra_data: vec![], base_fee_per_gas: s.fee.into(), proof: Proof::default(), call_system_script_count: 0, chain_id: s.chain,
        };
        c.ensure(h == want, "genesis/header", || (format!("{h:?}"), d.clone()));
        let hf = p.genesis.generate_hardfork_info();
        c.ensure(hf.block_number == 0 && hf.flags == flags_of(&s.forks), "genesis/hardforks", || (format!("{:?} became {:?}", s.forks, hf), d.clone()));
        let n = r.edge_u64();
        let hf: HardforkInfoInner = HardforkInput { block_number: n, hardforks: s.forks.clone() }.into();
        c.ensure(hf.block_number == n && hf.flags == flags_of(&s.forks), "hardfork/input", || (format!("{:?} at {n} became {:?}", s.forks, hf), json!({})));
        // faults
        let bad = match r.below(7) {
            0 => s.text.replacen("chain_id", "chain", 1),
            1 => s.text.replacen("timestamp = ", "timestamp = -1", 1),
            2 if s.accounts.iter().any(|a| format!("{:x}", a.0).chars().any(|c| c.is_ascii_alphabetic())) => {
                // one letter of one checksummed address in the wrong case
                let Some(a) = s.accounts.iter().find(|a| {
                    let t = protocol::types::checksum(&hx(a.0 .0));
                    s.text.contains(&t) && t[2..].chars().any(|c| c.is_ascii_lowercase()) && t[2..].chars().filter(|c| c.is_ascii_uppercase()).count() > 1
                }) else { continue };
                let t = protocol::types::checksum(&hx(a.0 .0));
                let i = t.char_indices().skip(2).find(|(_, c)| c.is_ascii_uppercase()).unwrap().0;
                let mut u = t.clone();
                u.replace_range(i..=i, &t[i..=i].to_lowercase());
                s.text.replace(&t, &u)
            }
            3 => s.text.replacen("[params.version]\nstart", "[params.version]\nbegin", 1),
            4 => s.text.replacen("vote_weight", "weight", 1).replacen("pub_key = \"0x", "pub_key = \"", 1),
            5 => s.text.replacen("hardforks = [", "hardforks = [\"Nowhere\",", 1),
            _ => s.text.replacen("propose_weight = ", "propose_weight = 4294967296", 1),
        };
        let got = guard(|| parse(&bad).is_ok());
        c.event("broken specs");
        c.ensure(matches!(got, Ok(false)), "spec/accepts-broken", || (format!("{got:?}"), json!({"spec": bad})));
    }
    c.stage("hardfork history");
    for _ in 0..c.scale(8000, 100_000) {
        if !c.within(0.75) {
            break;
        }
        let mut r = c.rng.fork();
        let mut info = HardforkInfo::default();
        let mut wrote: Vec<(u64, H256)> = vec![];
        for _ in 0..r.below(7) + 1 {
            let mut f = [0u8; 32];
            f[24] = 1 << r.below(4) | if r.chance(1, 3) { 1 << r.below(4) } else { 0 };
            let n = match (r.below(4), wrote.last()) { (0, Some(l)) => l.0, (1, Some(l)) => l.0.saturating_sub(r.below(3) as u64), _ => r.range(0, 40) };
            let before = info.clone();
            let arg = HardforkInfoInner { block_number: n, flags: H256(f) };
            if let Err(p) = guard(|| info.push(arg.clone())) {
                c.ensure(false, "hardfork/panic", || (format!("{p:?}"), json!({})));
                break;
            }
            wrote.push((n, H256(f)));
            c.event("hardfork announcements");
            c.seen("hardfork", format!("{before:?}{arg:?}"));
            let l = &info.inner;
            let show = || json!({"before": format!("{before:?}"), "push": format!("{arg:?}"), "after": format!("{info:?}")});
            c.ensure(l.windows(2).all(|w| w[0].block_number < w[1].block_number), "hardfork/order", || ("activation heights do not increase".into(), show()));
            c.ensure(l.windows(2).all(|w| w[0].flags | w[1].flags == w[1].flags && w[0].flags != w[1].flags), "hardfork/monotone", || ("a later entry switches an earlier hardfork off".into(), show()));
            // what is active at each height may only grow, and only from the announced height on
            let at = |h: &HardforkInfo, x: u64| h.inner.iter().filter(|i| i.block_number <= x).last().map(|i| i.flags).unwrap_or_default();
            let stale = before.inner.last().map_or(false, |l| n < l.block_number);
            for x in 0..45 {
                let (b, a) = (at(&before, x), at(&info, x));
                let want = if x >= n && !stale { b | H256(f) } else { b };
                c.ensure(a == want, "hardfork/active", || (format!("at height {x} {a:?} is active instead of {want:?}"), show()));
            }
        }
    }
    c.stage("keys");
    for i in 0..c.scale(3000, 40_000) {
        if !c.within(0.8) {
            break;
        }
        key(c, i);
    }
    c.stage("configurations");
    for i in 0..c.scale(1500, 20_000) {
        if !c.within(1.0) {
            break;
        }
        let dir = c.scratch.join(format!("cfg{i}"));
        std::fs::create_dir_all(&dir).unwrap();
        configuration(c, &dir);
        let _ = std::fs::remove_dir_all(&dir);
    }
}

/// The private key given on the command line, as text or as a file.
fn key(c: &mut Ctx, i: u64) {
    use clap::{Args, FromArgMatches};
    let mut r = c.rng.fork();
    let mut k: [u8; 32] = r.arr();
    match r.below(8) {
        0 => k = [0; 32],
        1 => k[..16].fill(0xff), // above the order of the curve
        2 => k[..31].fill(0),
        _ => {}
    }
    let order = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";
    let valid = k != [0; 32] && hx(k).as_str() < order;
    let as_file = r.bool();
    let (mut well, arg) = if as_file {
        let f = c.scratch.join(format!("key{i}"));
        let mut b = k.to_vec();
        let kind = r.below(8);
        match kind {
            0 => b.truncate(r.below(32)),
            1 => b.extend(r.bytes(r.clone().below(40) + 1)),
            2 => b = format!("0x{}", hx(k)).into_bytes(),
            _ => {}
        }
        if kind != 3 {
            std::fs::write(&f, &b).unwrap();
        }
        (b.len() == 32 && kind != 3, f.to_str().unwrap().to_string())
    } else {
        let t = hx(k);
        let mixed: String = t.chars().map(|x| if r.bool() { x.to_ascii_uppercase() } else { x }).collect();
        match r.below(10) {
            0 => (false, t.clone()),
            1 => (false, format!("0x{}", &t[1..])),
            2 => (false, format!("0x{t}0")),
            3 => (false, format!("0x{}g", &t[1..])),
            4 => (false, format!("0x{t} ")),
            5 => (false, format!("0x0x{}", &t[2..])),
            6 => (true, format!("0X{mixed}")),
            _ => (true, format!("0x{mixed}")),
        }
    };
    let name = if as_file { "--key-file" } else { "--key" };
    let both = r.chance(1, 12);
    let mut args = vec!["x".to_string(), name.into(), arg.clone()];
    if both {
        args.extend(if as_file { ["--key".into(), format!("0x{}", hx(k))] } else { ["--key-file".into(), "/dev/null".into()] });
        well = false;
    } else if r.chance(1, 20) {
        args.truncate(1);
        well = false;
    }
    let got = guard(|| {
        let m = common_config_parser::types::spec::PrivateKey::augment_args(clap::Command::new("x")).try_get_matches_from(&args).map_err(|e| e.to_string())?;
        let p = common_config_parser::types::spec::PrivateKey::from_arg_matches(&m).map_err(|e| e.to_string())?;
        let shown = format!("{p:?}");
        p.data().map(|d| (shown, common_crypto::PrivateKey::to_bytes(&d)))
    });
    if as_file {
        let _ = std::fs::remove_file(&arg);
    }
    c.event("keys");
    c.seen("key", (as_file, well, valid, k));
    let d = || json!({"arguments": args, "key": hx(k)});
    match got {
        Ok(Ok((shown, b))) => {
            c.ensure(well && valid, "key/accepts", || ("a malformed or invalid private key was taken".into(), d()));
            c.ensure(!(well && valid) || b[..] == k[..], "key/value", || (format!("the key became {}", hx(&b)), d()));
            c.ensure(!shown.contains(&hx(k)[..16]), "key/shown", || (format!("a key is shown as {shown}"), d()));
        }
        got => {
            c.ensure(!(well && valid) && got.is_ok(), "key/refuses", || (format!("{got:?}"), d()));
        }
    }
}

/// One configuration with every setting there is, each optional one given or not.
fn configuration(c: &mut Ctx, dir: &Path) {
    let mut r = c.rng.fork();
    let (bl, nl) = (if r.chance(1, 12) { r.below(70) } else { 32 }, if r.chance(1, 12) { r.below(70) } else { 32 });
    let (bls, net) = (r.bytes(bl), r.bytes(nl));
    std::fs::create_dir_all(dir.join("keys")).unwrap();
    let missing = r.chance(1, 20);
    let (bf, nf) = (*r.pick(&["b.key", "keys/b", "./keys/../b.key"]), *r.pick(&["n.key", "keys/n"]));
    std::fs::write(dir.join(bf), &bls).unwrap();
    if !missing {
        std::fs::write(dir.join(nf), &net).unwrap();
    }
    let absolute = r.chance(1, 4);
    let shown = |f: &str| if absolute { dir.join(f).to_str().unwrap().to_string() } else { f.to_string() };
    let q = |s: &str| format!("{s:?}");
    let data = format!("{}d{}", r.pick(&["./", "", "/x/"]), r.below(1000));
    let addr = |r: &mut Rng| format!("{}:{}", r.pick(&["127.0.0.1", "0.0.0.0", "[::1]", "10.1.2.3"]), r.below(65_536));
    let n31 = |r: &mut Rng| (r.edge_u64() as u32) as u64;
    let n63 = |r: &mut Rng| r.edge_u64() >> 1;
    let multi = |r: &mut Rng| format!("/ip4/{}.{}.0.{}/tcp/{}", r.below(256), r.below(256), r.below(256), r.below(65_536));
    let w = n31(&mut r);
    // (section, setting, text, given)
    let mut lines: Vec<(&str, &str, String, bool)> = vec![];
    let mut need = |sec: &'static str, key: &'static str, v: String| { lines.push((sec, key, v.clone(), true)); v };
    need("", "net_privkey_file", q(&shown(nf)));
    need("", "bls_privkey_file", q(&shown(bf)));
    need("", "data_path", q(&data));
    let maxconn = need("rpc", "maxconn", w.to_string());
    let payload = need("rpc", "max_payload_size", n31(&mut r).to_string());
    let listen = multi(&mut r);
    need("network", "listening_address", q(&listen));
    let pool = need("mempool", "pool_size", n63(&mut r).to_string());
    let gap = need("mempool", "timeout_gap", n63(&mut r).to_string());
    let cache = need("executor", "triedb_cache_size", n63(&mut r).to_string());
    let required = lines.len();
    let mut opt = |r: &mut Rng, sec: &'static str, key: &'static str, v: String| -> Option<String> {
        let given = r.bool();
        lines.push((sec, key, v.clone(), given));
        given.then_some(v)
    };
    let http = addr(&mut r);
    let http = opt(&mut r, "rpc", "http_listening_address", q(&http));
    let ws = addr(&mut r);
    let ws = opt(&mut r, "rpc", "ws_listening_address", q(&ws));
    let dump = r.bool().to_string();
    let dump = opt(&mut r, "rpc", "enable_dump_profile", dump);
    let mut nums = std::collections::BTreeMap::new();
    for (sec, key, default) in [
        ("web3", "max_gas_cap", Some(25_000_000)), ("web3", "log_filter_max_block_range", Some(10_000u64)), ("mempool", "broadcast_txs_size", Some(200)),
        ("mempool", "broadcast_txs_interval", Some(200)), ("synchronization", "sync_txs_chunk_size", Some(5000)), ("network", "rpc_timeout", None),
        ("network", "max_connected_peers", None), ("network", "inbound_conn_limit", None), ("network", "send_buffer_size", None),
        ("network", "recv_buffer_size", None), ("network", "max_frame_length", None), ("network", "ping_interval", None),
    ] {
        let v = n63(&mut r);
        nums.insert(key, opt(&mut r, sec, key, v.to_string()).map_or(default, |_| Some(v)));
    }
    let only = r.bool().to_string();
    let only = opt(&mut r, "network", "allowlist_only", only);
    let peers: Vec<String> = (0..r.below(4)).map(|_| format!("Qm{}", r.u64())).collect();
    let peers = opt(&mut r, "network", "allowlist", format!("{peers:?}")).map(|_| peers);
    let boots: Vec<String> = (0..r.below(4)).map(|_| multi(&mut r)).collect();
    let boots = opt(&mut r, "network", "bootstraps", format!("[{}]", boots.iter().map(|b| format!("{{ multi_address = {b:?} }}")).collect::<Vec<_>>().join(", "))).map(|_| boots);
    let ibc = gen::h160(&mut r);
    let ibc = opt(&mut r, "", "ibc_contract_address", format!("\"0x{}\"", hx(ibc.0))).map_or(H160::zero(), |_| ibc);
    // sections that are there as a whole or not at all
    let log = r.bool();
    let flags: Vec<bool> = (0..4).map(|_| r.bool()).collect();
    let (filter, path, size) = (r.pick(&["info", "debug", "off", "quo\"ted"]).to_string(), format!("l{}/", r.below(99)), n63(&mut r));
    let level = r.bool().then(|| (format!("m{}", r.below(9)), "warn".to_string()));
    if log {
        for (k, v) in [
            ("filter", q(&filter)), ("log_to_console", flags[0].to_string()), ("console_show_file_and_line", flags[1].to_string()), ("log_to_file", flags[2].to_string()),
            ("metrics", flags[3].to_string()), ("log_path", q(&path)), ("file_size_limit", size.to_string()),
        ] {
            lines.push(("logger", k, v, true));
        }
        if let Some((m, l)) = &level {
            lines.push(("logger", "modules_level", format!("{{ {m:?} = {l:?} }}"), true));
        }
    }
    let rocks = r.bool();
    let (files, block, of) = (r.edge_u64() as i32, r.bool().then(|| n63(&mut r)), r.bool().then(|| *r.pick(&["o.x", "keys/o", "/etc/o"])));
    if rocks {
        lines.push(("rocksdb", "max_open_files", files.to_string(), true));
        lines.extend(block.map(|b| ("rocksdb", "cache_size", b.to_string(), true)));
        lines.extend(of.map(|o| ("rocksdb", "options_file", q(o), true)));
    }
    let (jaeger, prom) = (r.bool(), r.bool());
    let (name, ja, batch) = (r.bool().then(|| format!("s{}", r.below(9))), r.bool().then(|| addr(&mut r)), r.bool().then(|| n63(&mut r)));
    if jaeger {
        lines.extend(name.iter().map(|n| ("jaeger", "service_name", q(n), true)));
        lines.extend(ja.iter().map(|n| ("jaeger", "tracing_address", q(n), true)));
        lines.extend(batch.iter().map(|n| ("jaeger", "tracing_batch_size", n.to_string(), true)));
    }
    let pa = r.bool().then(|| addr(&mut r));
    lines.extend(pa.iter().filter(|_| prom).map(|n| ("prometheus", "listening_address", q(n), true)));

    // what may be wrong with it
    let broken = match r.below(6) {
        0 => {
            lines.remove(r.below(required));
            Some("a required setting is missing")
        }
        1 => {
            let given: Vec<usize> = (0..lines.len()).filter(|i| lines[*i].3).collect();
            let l = &mut lines[*r.pick(&given)];
            l.2 = match (l.2.as_str(), l.2.as_bytes()[0]) {
                ("true" | "false", _) => r.pick(&["\"true\"", "1", "[]"]).to_string(),
                (_, b'"' | b'[' | b'{') => r.pick(&["7", "true", "-1"]).to_string(),
                _ => r.pick(&["\"7\"", "true", "1.5", "[7]", "9223372036854775808"]).to_string(),
            };
            Some("a value of the wrong kind")
        }
        2 => {
            let given: Vec<usize> = (0..lines.len()).filter(|i| lines[*i].3 && lines[*i].1.ends_with("listening_address")).collect();
            lines[*r.pick(&given)].2 = q(*r.pick(&["nowhere", "127.0.0.1:65536", "/ip4/1.2.3.256/tcp/1", "127.0.0.1", "/tcp"]));
            Some("an address that is none")
        }
        3 if r.bool() => {
            lines.iter_mut().find(|l| l.1 == ["maxconn", "max_payload_size"][(w % 2) as usize]).unwrap().2 = r.pick(&["4294967296", "-1"]).to_string();
            Some("a number out of its range")
        }
        _ => None,
    };
    let mut t = String::new();
    let mut secs = vec!["", "rpc", "web3", "network", "synchronization", "mempool", "executor"];
    secs.extend([(log, "logger"), (rocks, "rocksdb"), (jaeger, "jaeger"), (prom, "prometheus")].iter().filter(|s| s.0).map(|s| s.1));
    r.shuffle(&mut secs[1..]);
    for sec in secs {
        if !sec.is_empty() {
            t += &format!("[{sec}]\n");
        }
        let mut own: Vec<_> = lines.iter().filter(|l| l.0 == sec && l.3).collect();
        r.shuffle(&mut own);
        own.iter().for_each(|l| t += &format!("{} = {}\n", l.1, l.2));
    }
    let f = dir.join("c.toml");
    std::fs::write(&f, &t).unwrap();
    c.event("configurations");
    c.seen("config", (lines.iter().map(|l| (l.1, l.3)).collect::<Vec<_>>(), broken));
    let got = guard(|| via_cli(Config::value_parser(), &f));
    let d = json!({"config": t, "key lengths": [bl, nl]});
    if let Some(why) = broken {
        c.event("broken configurations");
        c.ensure(matches!(got, Ok(Err(_))), "config/accepts-broken", || (format!("{why}, and it is taken"), d));
        return;
    }
    if bl != 32 || nl != 32 || missing {
        c.ensure(matches!(got, Ok(Err(_))), "config/key-length", || ("a key file that is missing or of the wrong length was taken".into(), d));
        return;
    }
    let Ok(Ok(g)) = got else {
        c.ensure(false, "config/parse", || (format!("{got:?}"), d));
        return;
    };
    c.ensure(g.bls_privkey[..] == bls[..] && g.net_privkey[..] == net[..], "config/keys", || ("the node would use other keys than its files hold".into(), d.clone()));
    let un = |x: &Option<String>| x.as_ref().map(|x| x.trim_matches('"').parse::<std::net::SocketAddr>().unwrap());
    let num = |k: &str| nums[k];
    let us = |x: Option<usize>| x.map(|x| x as u64);
    let n = &g.network;
    let checks = [
        ("data_path", g.data_path == Path::new(&data)),
        ("ibc_contract_address", g.ibc_contract_address == ibc),
        ("maxconn", g.rpc.maxconn.to_string() == maxconn),
        ("max_payload_size", g.rpc.max_payload_size.to_string() == payload),
        ("http_listening_address", g.rpc.http_listening_address == un(&http)),
        ("ws_listening_address", g.rpc.ws_listening_address == un(&ws)),
        ("enable_dump_profile", g.rpc.enable_dump_profile.map(|x| x.to_string()) == dump),
        ("max_gas_cap", Some(g.web3.max_gas_cap) == num("max_gas_cap")),
        ("log_filter_max_block_range", Some(g.web3.log_filter_max_block_range) == num("log_filter_max_block_range")),
        ("pool_size", g.mempool.pool_size.to_string() == pool),
        ("timeout_gap", g.mempool.timeout_gap.to_string() == gap),
        ("broadcast_txs_size", us(Some(g.mempool.broadcast_txs_size)) == num("broadcast_txs_size")),
        ("broadcast_txs_interval", Some(g.mempool.broadcast_txs_interval) == num("broadcast_txs_interval")),
        ("sync_txs_chunk_size", us(Some(g.sync.sync_txs_chunk_size)) == num("sync_txs_chunk_size")),
        ("triedb_cache_size", g.executor.triedb_cache_size.to_string() == cache),
        ("listening_address", n.listening_address.to_string() == listen),
        ("rpc_timeout", n.rpc_timeout == num("rpc_timeout")),
        ("max_connected_peers", us(n.max_connected_peers) == num("max_connected_peers")),
        ("inbound_conn_limit", us(n.inbound_conn_limit) == num("inbound_conn_limit")),
        ("send_buffer_size", us(n.send_buffer_size) == num("send_buffer_size")),
        ("recv_buffer_size", us(n.recv_buffer_size) == num("recv_buffer_size")),
        ("max_frame_length", us(n.max_frame_length) == num("max_frame_length")),
        ("ping_interval", n.ping_interval == num("ping_interval")),
        ("allowlist_only", n.allowlist_only.map(|x| x.to_string()) == only),
        ("allowlist", n.allowlist == peers),
        ("bootstraps", n.bootstraps.as_ref().map(|b| b.iter().map(|b| b.multi_address.to_string()).collect::<Vec<_>>()) == boots),
        ("logger.filter", g.logger.filter == if log { filter.as_str() } else { "info" }),
        ("logger.log_to_console", g.logger.log_to_console == (!log || flags[0])),
        ("logger.console_show_file_and_line", g.logger.console_show_file_and_line == (log && flags[1])),
        ("logger.log_to_file", g.logger.log_to_file == (!log || flags[2])),
        ("logger.metrics", g.logger.metrics == (!log || flags[3])),
        ("logger.log_path", g.logger.log_path == Path::new(if log { path.as_str() } else { "logs/" })),
        ("logger.file_size_limit", g.logger.file_size_limit == if log { size } else { 1 << 30 }),
        ("logger.modules_level", g.logger.modules_level == level.into_iter().filter(|_| log).collect()),
        ("rocksdb.max_open_files", g.rocksdb.max_open_files == if rocks { files } else { 64 }),
        ("rocksdb.cache_size", g.rocksdb.cache_size as u64 == block.filter(|_| rocks).unwrap_or(100)),
        ("rocksdb.options_file", g.rocksdb.options_file == of.filter(|_| rocks).map(|o| dir.join(o))),
        ("jaeger", g.jaeger.as_ref().map(|j| (j.service_name.clone(), j.tracing_address, us(j.tracing_batch_size))) == jaeger.then(|| (name.clone(), un(&ja), batch))),
        ("prometheus", g.prometheus.as_ref().map(|p| p.listening_address) == prom.then(|| un(&pa))),
    ];
    for (k, ok) in checks {
        c.ensure(ok, &format!("config/{k}"), || (format!("{k} is not what the file says (or, if it says nothing, the default)"), json!({"config": t, "read": format!("{g:?}")})));
    }
    let base = Path::new(&data).to_path_buf();
    let paths = [g.data_path_for_rocksdb(), g.data_path_for_txs_wal(), g.data_path_for_consensus_wal(), g.data_path_for_version()];
    let distinct: std::collections::HashSet<_> = paths.iter().collect();
    c.ensure(paths.iter().all(|p| p.starts_with(&base)) && distinct.len() == 4, "config/paths", || (format!("{paths:?}"), d));
    c.ensure(parse_file::<Config>(&f, true).is_err(), "config/kind", || ("a TOML file was taken as JSON".into(), json!({})));
}
