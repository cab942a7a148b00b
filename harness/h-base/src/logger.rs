//! P11: the real logger, set up by `common_logger::init` in processes of its own, written to from many threads,
//! rolled, reopened and killed; the files and the console it left behind are compared with what was logged.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

use creep::Context;
use rustracing_jaeger::span::{SpanContext, SpanContextStateBuilder, TraceId};
use serde_json::{json, Value};
use vlib::{Ctx, Rng};

const LEVELS: [&str; 5] = ["error", "warn", "info", "debug", "trace"];

// ---- the logging process ----

pub fn child() {
    let plan: Value = serde_json::from_slice(&std::fs::read(std::env::var("V_LOGGER_CHILD").unwrap()).unwrap()).unwrap();
    let cfg = &plan["cfg"];
    let text = |v: &Value| v.as_str().unwrap().to_string();
    common_logger::init(
        text(&cfg["filter"]),
        cfg["console"].as_bool().unwrap(),
        cfg["lines"].as_bool().unwrap(),
        cfg["file"].as_bool().unwrap(),
        cfg["metrics"].as_bool().unwrap(),
        PathBuf::from(text(&cfg["path"])),
        cfg["limit"].as_u64().unwrap(),
        cfg["modules"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), text(v))).collect::<HashMap<_, _>>(),
    );
    let acks = Arc::new(std::fs::OpenOptions::new().append(true).create(true).open(text(&plan["acks"])).unwrap());
    let done = Arc::new(AtomicU64::new(0));
    let die = plan["die"].as_u64();
    let threads: Vec<_> = plan["threads"]
        .as_array()
        .unwrap()
        .iter()
        .enumerate()
        .map(|(i, recs)| {
            let (recs, acks, done) = (recs.clone(), Arc::clone(&acks), Arc::clone(&done));
            std::thread::Builder::new()
                .name(format!("writer-{i}"))
                .spawn(move || {
                    for r in recs.as_array().unwrap() {
                        let pause = r["pause"].as_u64().unwrap();
                        if pause > 0 {
                            std::thread::sleep(Duration::from_micros(pause));
                        }
                        emit(r);
                        (&*acks).write_all(format!("{}\n", r["id"]).as_bytes()).unwrap();
                        if Some(done.fetch_add(1, Ordering::SeqCst) + 1) == die {
                            // as if killed: no destructor, no flush
                            unsafe { libc::_exit(9) }
                        }
                    }
                })
                .unwrap()
        })
        .collect();
    for t in threads {
        t.join().unwrap();
    }
}

fn emit(r: &Value) {
    let target = r["target"].as_str().unwrap();
    let level = log::Level::from_str(r["level"].as_str().unwrap()).unwrap();
    let text = r["text"].as_str().unwrap();
    match r["kind"].as_str().unwrap() {
        "metrics" => common_logger::metrics(
            r["name"].as_str().unwrap(),
            common_logger::object! { "text" => text, "n" => r["n"].as_u64().unwrap() },
        ),
        "event" => {
            let mut ctx = Context::new();
            if let Some(t) = r["trace"].as_array() {
                let n = |i: usize| t[i].as_u64().unwrap();
                let state = SpanContextStateBuilder::new()
                    .trace_id(TraceId { high: n(0), low: n(1) })
                    .span_id(n(2))
                    .finish();
                ctx = ctx.with_value::<Option<SpanContext>>("parent_span_ctx", Some(SpanContext::new(state, vec![])));
            } else if r["none"].as_bool() == Some(true) {
                ctx = ctx.with_value::<Option<SpanContext>>("parent_span_ctx", None);
            }
            use json::JsonValue;
            common_logger::log(
                level,
                target,
                r["name"].as_str().unwrap(),
                &ctx,
                common_logger::json!({"text", text; "n", r["n"].as_u64().unwrap(); "yes", true}),
            )
        }
        _ => log::log!(target: target, level, "{text}"),
    }
}

// ---- the workload ----

const TARGETS: [&str; 12] = [
    "core_network", "core_network::peer", "core_network::peer::score", "core_networkx", "overlord", "overlord::state",
    "axon", "a", "a::b", "a::b::c", "cli", "metrics",
];

fn level_of(s: &str) -> usize {
    // how many levels pass
    match s {
        "off" => 0,
        "error" => 1,
        "warn" => 2,
        "info" => 3,
        "debug" => 4,
        "trace" => 5,
        _ => 3, // "invalid logger.filter, use info"
    }
}

fn is_under(target: &str, module: &str) -> bool {
    target == module || target.strip_prefix(module).map_or(false, |r| r.starts_with("::"))
}

/// what the documentation makes of a record: the files (and console) it belongs to
fn places(cfg: &Value, target: &str, level: &str) -> BTreeSet<&'static str> {
    let mut out = BTreeSet::new();
    let rank = LEVELS.iter().position(|l| *l == level).unwrap();
    if is_under(target, "metrics") {
        if cfg["metrics"].as_bool().unwrap() {
            out.insert("metrics");
        }
        return out;
    }
    if is_under(target, "cli") {
        out.insert("cli");
        out.insert("console");
        return out;
    }
    let modules = cfg["modules"].as_object().unwrap();
    let named = modules.iter().filter(|(m, _)| is_under(target, m)).max_by_key(|(m, _)| m.len());
    let passes = named.map_or_else(|| level_of(cfg["filter"].as_str().unwrap()), |(_, l)| level_of(l.as_str().unwrap()));
    if rank < passes {
        if cfg["console"].as_bool().unwrap() {
            out.insert("console");
        }
        if cfg["file"].as_bool().unwrap() {
            out.insert("axon");
        }
    }
    out
}

fn words(r: &mut Rng, id: u64) -> String {
    let pool = [
        "block 12 committed", "\"quoted\"", "back\\slash", "line\nbreak", "tab\there", "{braces}", "ünïcode ✓", "\u{1}ctl",
        "%d {} {m}{n}", "null", "]] [x] ", "\u{2028}sep", "{\"json\": 1}", "",
    ];
    let mut s = format!("<<{id}>>");
    for _ in 0..r.below(5) {
        s.push(' ');
        let w: &str = *r.pick(&pool[..]);
        s.push_str(w);
    }
    if r.chance(1, 25) {
        let n = r.range(200, 6000) as usize;
        s.push_str(&"long ".repeat(n / 5));
    }
    s
}

struct Round {
    threads: Vec<Value>,
    die: Option<u64>,
}

fn rounds(r: &mut Rng, heavy: u64) -> Vec<Round> {
    let mut id = r.range(1, 1 << 30) << 20;
    let n = r.range(1, 3);
    (0..n)
        .map(|i| {
            let slow = r.chance(1, 6);
            let threads: Vec<Value> = (0..r.range(1, 6))
                .map(|_| {
                    Value::Array(
                        (0..r.range(3, heavy))
                            .map(|_| {
                                id += 1;
                                let kind: &str = *r.pick(&["log", "log", "log", "event", "metrics"][..]);
                                let target: String = if kind == "metrics" { "metrics".into() } else { r.pick(&TARGETS[..]).to_string() };
                                let level: &str = if kind == "metrics" { "trace" } else { *r.pick(&LEVELS[..]) };
                                let trace = if r.chance(1, 2) { Some(vec![r.edge_u64(), r.edge_u64(), r.edge_u64()]) } else { None };
                                json!({
                                    "id": id, "kind": kind, "target": target, "level": level, "text": words(r, id),
                                    "name": r.pick(&["save_block", "netw0001", "é\"", "cons0007"][..]), "n": r.edge_u64(), "trace": trace,
                                    "none": r.bool(), "pause": if slow { r.range(0, 3000) } else { 0 },
                                })
                            })
                            .collect(),
                    )
                })
                .collect();
            let total: u64 = threads.iter().map(|t| t.as_array().unwrap().len() as u64).sum();
            Round { threads, die: if i + 1 < n && r.chance(1, 2) { Some(r.range(1, total)) } else { None } }
        })
        .collect()
}

fn config(r: &mut Rng, dir: &Path) -> Value {
    let any_level = |r: &mut Rng| r.pick(&["off", "error", "warn", "info", "debug", "trace", "verbose"][..]).to_string();
    let mut modules = BTreeMap::new();
    for _ in 0..r.below(5) {
        let m = r.pick(&TARGETS[..10]).to_string();
        let l = any_level(r);
        modules.insert(m, l);
    }
    json!({
        "filter": if r.bool() { "trace".to_string() } else { any_level(r) },
        "console": r.chance(2, 3), "lines": r.bool(), "file": r.chance(4, 5), "metrics": r.chance(3, 4),
        "path": dir.join(r.pick(&["logs", "deep/er/logs"][..])).to_string_lossy(),
        "limit": r.pick(&[0u64, 1, 700, 2000, 20_000, 1 << 30]),
        "modules": modules,
    })
}

/// records of a file: (id, the whole JSON line), plus the lines that are no JSON
fn lines(p: &Path) -> (Vec<Value>, Vec<String>) {
    let raw = std::fs::read(p).unwrap_or_default();
    let mut good = vec![];
    let mut bad = vec![];
    for l in raw.split(|b| *b == b'\n').filter(|l| !l.is_empty()) {
        match serde_json::from_slice::<Value>(l) {
            Ok(mut v) => {
                v["len"] = json!(l.len() + 1);
                good.push(v)
            }
            Err(_) => {
                bad.push(String::from_utf8_lossy(l).chars().take(300).collect());
                // what a killed process left of a line is continued by the next one's first record
                const HEAD: &[u8] = b"{\"time\":\"";
                for i in (1..l.len().saturating_sub(HEAD.len())).filter(|i| l[*i..].starts_with(HEAD)) {
                    if let Ok(mut v) = serde_json::from_slice::<Value>(&l[i..]) {
                        v["len"] = json!(l.len() - i + 1);
                        good.push(v);
                        break;
                    }
                }
            }
        }
    }
    (good, bad)
}

fn id_in(s: &str) -> Option<u64> {
    let a = s.find("<<")?;
    let b = s[a..].find(">>")? + a;
    s[a + 2..b].parse().ok()
}

/// the file a name belongs to: (kind, archived)
fn kind_of(name: &str) -> Option<(&'static str, bool)> {
    for k in ["axon", "metrics", "cli"] {
        if name == format!("{k}.log") {
            return Some((k, false));
        }
    }
    let (date, rest) = name.split_at(name.len().min(10));
    let ok = date.len() == 10 && date.bytes().enumerate().all(|(i, b)| if i == 4 || i == 7 { b == b'-' } else { b.is_ascii_digit() });
    for k in ["axon", "metrics"] {
        if ok && rest.starts_with(&format!(".{k}.")) && rest.ends_with(".log") {
            return Some((k, true));
        }
    }
    None
}

pub fn p11(c: &mut Ctx) {
    c.stage("logger");
    let mut n = 0;
    let heavy = c.scale(60, 250);
    while n < c.scale(150, 100_000) && c.within(0.95) {
        let dir = c.scratch.join(format!("log{n}"));
        std::fs::create_dir_all(&dir).unwrap();
        scenario(c, &dir, heavy);
        let _ = std::fs::remove_dir_all(&dir);
        n += 1;
    }
    c.note(format!("{n} set-ups of the logger"));
}

fn scenario(c: &mut Ctx, dir: &Path, heavy: u64) {
    let mut r = c.rng.fork();
    let cfg = config(&mut r, dir);
    let plan = rounds(&mut r, heavy);
    let path = PathBuf::from(cfg["path"].as_str().unwrap());
    let acks = dir.join("acks");
    let mut console = vec![];
    let mut died = 0u64;
    let mut sent: HashMap<u64, Value> = HashMap::new();
    let mut turn: HashMap<u64, (usize, usize, usize)> = HashMap::new(); // id -> round, thread, position
    let case = json!({"cfg": cfg, "rounds": plan.iter().map(|p| json!({"threads": p.threads.iter().map(|t| t.as_array().unwrap().len()).collect::<Vec<_>>(), "die": p.die})).collect::<Vec<_>>()});
    for (i, p) in plan.iter().enumerate() {
        for (t, recs) in p.threads.iter().enumerate() {
            for (k, rec) in recs.as_array().unwrap().iter().enumerate() {
                let id = rec["id"].as_u64().unwrap();
                turn.insert(id, (i, t, k));
                sent.insert(id, rec.clone());
            }
        }
        let file = dir.join("plan.json");
        std::fs::write(&file, json!({"cfg": cfg, "threads": p.threads, "die": p.die, "acks": acks}).to_string()).unwrap();
        let out = dir.join(format!("console{i}"));
        let err = dir.join(format!("stderr{i}"));
        let mut child = Command::new(std::env::current_exe().unwrap())
            .env("V_LOGGER_CHILD", &file)
            .stdin(Stdio::null())
            .stdout(std::fs::File::create(&out).unwrap())
            .stderr(std::fs::File::create(&err).unwrap())
            .spawn()
            .expect("start the logging process");
        let start = Instant::now();
        let status = loop {
            if let Some(s) = child.try_wait().expect("wait") {
                break Some(s);
            }
            if start.elapsed() > Duration::from_secs(60) {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(2));
        };
        let Some(status) = status else {
            c.note("a logging process was given up after 60 s");
            return;
        };
        let want = if p.die.is_some() { 9 } else { 0 };
        let err = std::fs::read_to_string(&err).unwrap_or_default();
        if p.die.is_some() {
            died += 1;
        }
        if !c.ensure(status.code() == Some(want), "crash", || {
            ("the logging process failed".into(), json!({"case": case, "status": format!("{status:?}"), "stderr": err.chars().take(800).collect::<String>()}))
        }) {
            return;
        }
        c.ensure(err.is_empty(), "errors", || {
            ("the logger complained while writing".into(), json!({"case": case, "stderr": err.chars().take(800).collect::<String>()}))
        });
        console.push(std::fs::read_to_string(&out).unwrap_or_default());
        c.event("logger.processes");
    }
    let acked: BTreeSet<u64> = std::fs::read_to_string(&acks).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect();

    // ---- what is there ----
    let mut found: BTreeMap<(&'static str, u64), u64> = BTreeMap::new();
    let limit = cfg["limit"].as_u64().unwrap();
    let mut names: Vec<String> = std::fs::read_dir(&path)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect())
        .unwrap_or_default();
    names.sort();
    for name in &names {
        let Some((kind, archived)) = kind_of(name) else {
            c.ensure(false, "strange-file", || ("a file of an undocumented name".into(), json!({"case": case, "name": name})));
            continue;
        };
        let p = path.join(name);
        let (good, bad) = lines(&p);
        if archived {
            c.event("logger.rolls");
        }
        c.add("logger.lines", good.len() as u64);
        c.ensure(bad.len() as u64 <= died, "garbled", || {
            ("a line of a log file is not the record that was logged".into(), json!({"case": case, "file": name, "lines": bad.iter().take(3).collect::<Vec<_>>()}))
        });
        let size: u64 = std::fs::metadata(&p).map(|m| m.len()).unwrap_or(0);
        let last = good.last().map_or(0, |v| v["len"].as_u64().unwrap());
        if kind != "cli" && died == 0 {
            let ok = if archived { size > limit && size - last <= limit } else { size <= limit };
            c.ensure(ok, "size", || {
                ("a log file is rolled when it outgrows its limit, not before or after".into(), json!({"case": case, "file": name, "size": size, "last": last, "limit": limit}))
            });
        }
        let mut latest: HashMap<(usize, usize), usize> = HashMap::new();
        for v in good {
            let id = id_in(v["message"].as_str().unwrap_or_default());
            let Some((id, rec)) = id.and_then(|i| sent.get(&i).map(|s| (i, s))) else {
                c.ensure(false, "made-up", || ("a record nobody logged".into(), json!({"case": case, "file": name, "line": v})));
                continue;
            };
            *found.entry((kind, id)).or_default() += 1;
            let (round, t, k) = turn[&id];
            let before = latest.insert((round, t), k);
            c.ensure(before.map_or(true, |b| b < k), "order", || {
                ("a thread's records are in the order it logged them".into(), json!({"case": case, "file": name, "line": v}))
            });
            // the record itself
            let msg = v["message"].as_str().unwrap();
            let same = match rec["kind"].as_str().unwrap() {
                "log" => msg == rec["text"].as_str().unwrap(),
                k => {
                    let mut want = json!({"text": rec["text"], "n": rec["n"]});
                    if k == "metrics" {
                        want["name"] = rec["name"].clone();
                    } else {
                        want["event"] = rec["name"].clone();
                        want["yes"] = json!(true);
                        if let Some(t) = rec["trace"].as_array() {
                            let (h, l) = (t[0].as_u64().unwrap(), t[1].as_u64().unwrap());
                            want["trace_id"] = json!(if h == 0 { format!("{l:x}") } else { format!("{h:x}{l:016x}") });
                            want["span_id"] = t[2].clone();
                            c.event("logger.traced");
                        }
                    }
                    serde_json::from_str::<Value>(msg).map_or(false, |m| m == want)
                }
            };
            c.ensure(same, "content", || {
                ("the record says what was logged".into(), json!({"case": case, "file": name, "record": rec, "line": v}))
            });
            let about = v["level"].as_str().map_or(false, |l| l.eq_ignore_ascii_case(rec["level"].as_str().unwrap()))
                && v["target"] == rec["target"]
                && v["thread"].as_str() == Some(&format!("writer-{t}"))
                && v["time"].as_str().map_or(false, |t| t.len() >= 19 && t.starts_with("20"))
                && v["file"].as_str().map_or(false, |f| f.ends_with(".rs"))
                && v["line"].as_u64().is_some();
            c.ensure(about, "labels", || {
                ("a record carries its time, level, target, thread and place".into(), json!({"case": case, "file": name, "record": rec, "line": v}))
            });
        }
    }
    for text in &console {
        let mut rest = text.as_str();
        while let Some(a) = rest.find("<<") {
            if let Some(id) = id_in(&rest[a..]).filter(|i| sent.contains_key(i)) {
                *found.entry(("console", id)).or_default() += 1;
                let rec = &sent[&id];
                if rec["kind"] == "log" {
                    // the head of the line: [time LEVEL target( file:line)?] message
                    let start = rest[..a].rfind('\n').map_or(0, |p| p + 1);
                    let head = &rest[start..a];
                    let label = format!(" {} {}", rec["level"].as_str().unwrap().to_uppercase(), rec["target"].as_str().unwrap());
                    let tail = head.find(&label).map(|p| &head[p + label.len()..]);
                    let with_line = cfg["lines"].as_bool().unwrap();
                    let ok = head.starts_with("[20")
                        && tail.map_or(false, |t| if with_line { t.ends_with("] ") && t.contains(".rs:") } else { t == "] " });
                    c.ensure(ok, "console-form", || ("a line on the console has the documented form".into(), json!({"case": case, "head": head, "record": rec})));
                }
            }
            rest = &rest[a + 2..];
        }
    }
    // ---- exactly once, where it belongs ----
    let mut wrong: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    for (id, rec) in &sent {
        let (target, level) = (rec["target"].as_str().unwrap(), rec["level"].as_str().unwrap());
        let want = places(&cfg, target, level);
        for place in ["axon", "metrics", "cli", "console"] {
            let got = found.get(&(place, *id)).copied().unwrap_or(0);
            let due = want.contains(place) as u64;
            let ok = if acked.contains(id) { got == due } else { got <= due };
            c.event("oracle.judgements");
            if due == 1 {
                c.event("logger.records");
            }
            if !ok {
                let key = if got < due { "lost" } else if due == 0 { "misplaced" } else { "repeated" };
                let w = wrong.entry(key.to_string()).or_default();
                if w.len() < 3 {
                    w.push(json!({"id": id, "place": place, "found": got, "due": due, "target": target, "level": level, "turn": turn[id]}));
                }
            }
        }
        c.seen("filtered", (target, level, want.len(), cfg["filter"].to_string(), cfg["modules"].to_string()));
    }
    c.add("logger.acknowledged", acked.len() as u64);
    c.add("logger.killed", died);
    for (key, w) in wrong {
        c.ensure(false, &key, || {
            let what = match key.as_str() {
                "lost" => "an enabled record is missing from where it belongs",
                "repeated" => "a record was written more than once",
                _ => "a record was written where its settings do not put it",
            };
            (what.into(), json!({"case": case, "records": w, "files": names}))
        });
    }
    c.seen("setup", cfg.to_string());
    c.ensure(!acked.is_empty(), "silent", || ("nothing was logged".into(), case.clone()));
}
