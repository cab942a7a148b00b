//! A node's directory (configuration, chain specification, keys, data) and the processes run on it.
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

pub const HTTP: &str = "127.0.0.1:8545";

pub struct Dir {
    pub path: PathBuf,
    pub version: String,
}

/// What a command that ended printed.
pub struct Done {
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}
impl Done {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    /// Ended by itself with a message rather than by a panic or a signal.
    pub fn refused(&self) -> bool {
        matches!(self.code, Some(1) | Some(2)) && !self.err.contains("panicked at")
    }
    pub fn brief(&self) -> Value {
        let cut = |s: &str| s.chars().take(600).collect::<String>();
        json!({ "code": self.code, "stdout": cut(&self.out), "stderr": cut(&self.err) })
    }
}

pub fn toml_config(data: &str, log: &str, listen: &str) -> String {
    format!(
        r#"
net_privkey_file = "net.key"
bls_privkey_file = "bls.key"
data_path = "{data}"
[rpc]
http_listening_address = "{HTTP}"
maxconn = 100
max_payload_size = 10485760
[web3]
max_gas_cap = 50000000
log_filter_max_block_range = 25000
[network]
listening_address = "{listen}"
rpc_timeout = 10
[synchronization]
sync_txs_chunk_size = 5000
[mempool]
timeout_gap = 200
pool_size = 20000
[executor]
triedb_cache_size = 200
[logger]
filter = "info"
log_to_console = false
console_show_file_and_line = false
log_path = "{log}"
log_to_file = true
file_size_limit = 1073741824
metrics = false
[rocksdb]
max_open_files = 64
cache_size = 20
"#
    )
}

impl Dir {
    pub fn new(path: PathBuf) -> Dir {
        std::fs::create_dir_all(&path).unwrap();
        let d = Dir { path, version: "0.3.0".into() };
        d.put("config.toml", toml_config(d.file("data").to_str().unwrap(), d.file("logs").to_str().unwrap(), "/ip4/127.0.0.1/tcp/0"));
        d
    }
    pub fn file(&self, n: &str) -> PathBuf {
        self.path.join(n)
    }
    pub fn put(&self, n: &str, b: impl AsRef<[u8]>) {
        std::fs::write(self.file(n), b).unwrap();
    }
    pub fn db(&self) -> PathBuf {
        self.file("data/rocksdb")
    }
    /// Every file below the data directory.
    pub fn image(&self) -> std::collections::BTreeMap<PathBuf, Vec<u8>> {
        let mut out = Default::default();
        fn walk(p: &Path, out: &mut std::collections::BTreeMap<PathBuf, Vec<u8>>) {
            for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() {
                    walk(&p, out)
                } else {
                    out.insert(p.clone(), std::fs::read(&p).unwrap_or_default());
                }
            }
        }
        walk(&self.file("data"), &mut out);
        out
    }
    fn command(&self, args: &[&str]) -> Command {
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.args(args).current_dir(&self.path).env("NODE_CHILD", &self.version).env("ROCKS_FILES", "1").env_remove("VLOG");
        c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        c
    }
    /// Runs a command to its end, or for two minutes.
    pub fn command_to_end(&self, args: &[&str]) -> Option<Done> {
        finish(self.command(args).spawn().expect("spawn"))
    }
    pub fn init(&self) -> Option<Done> {
        self.command_to_end(&["init", "-c", "config.toml", "-s", "spec.toml"])
    }
    pub fn command_with(&self, args: &[&str], env: &[(&str, &str)]) -> Option<Done> {
        finish(self.command(args).envs(env.iter().copied()).spawn().expect("spawn"))
    }
    /// Starts a command and kills it after `d`.
    pub fn command_killed(&self, args: &[&str], d: Duration) -> Option<Done> {
        let c = self.command(args).spawn().expect("spawn");
        std::thread::sleep(d);
        unsafe { libc::kill(c.id() as i32, libc::SIGKILL) };
        finish(c)
    }
    pub fn run(&self, args: &[&str]) -> Node {
        self.run_with(args, &[])
    }
    pub fn run_with(&self, args: &[&str], env: &[(&str, &str)]) -> Node {
        let mut a = vec!["run", "-c", "config.toml"];
        a.extend(args);
        let mut child = self.command(&a).stdin(Stdio::piped()).env("NODE_CTL", "1").envs(env.iter().copied()).spawn().expect("spawn");
        let shared = Arc::new(Shared::default());
        let out = BufReader::new(child.stdout.take().unwrap());
        let s = Arc::clone(&shared);
        std::thread::spawn(move || {
            for line in out.lines().map_while(Result::ok) {
                if let Some(v) = line.strip_prefix("@@").and_then(|l| serde_json::from_str::<Value>(l).ok()) {
                    s.replies.lock().unwrap().0.insert(v["id"].as_u64().unwrap(), v);
                } else {
                    s.text.lock().unwrap().push_str(&(line + "\n"));
                }
                s.bell.notify_all();
            }
            s.replies.lock().unwrap().1 = true;
            s.bell.notify_all();
        });
        let mut err = child.stderr.take().unwrap();
        let s = Arc::clone(&shared);
        std::thread::spawn(move || {
            let mut b = [0; 4096];
            while let Ok(n @ 1..) = err.read(&mut b) {
                s.text.lock().unwrap().push_str(&String::from_utf8_lossy(&b[..n]));
            }
        });
        Node { stdin: child.stdin.take().unwrap(), child, shared, next: 0 }
    }
}

fn finish(mut c: Child) -> Option<Done> {
    let (mut o, mut e) = (c.stdout.take().unwrap(), c.stderr.take().unwrap());
    let a = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = o.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let b = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = e.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let code = end(&mut c, Duration::from_secs(120));
    if code.is_none() {
        let _ = c.kill();
        let _ = c.wait();
    }
    let (out, err) = (a.join().unwrap(), b.join().unwrap());
    code.map(|c| Done { code: c.code(), out, err })
}

fn end(c: &mut Child, d: Duration) -> Option<ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t.elapsed() > d {
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

#[derive(Default)]
struct Shared {
    replies: Mutex<(HashMap<u64, Value>, bool)>,
    text: Mutex<String>,
    bell: Condvar,
}

pub struct Node {
    child: Child,
    stdin: std::process::ChildStdin,
    shared: Arc<Shared>,
    next: u64,
}

#[derive(Debug)]
pub enum NoReply {
    /// the process ended, or its output was closed
    Ended,
    /// nothing listens there (yet)
    Deaf(String),
    Slow,
}

impl Node {
    pub fn rpc(&mut self, method: &str, params: Value) -> Result<Value, NoReply> {
        self.next += 1;
        let id = self.next;
        let text = json!({ "jsonrpc": "2.0", "id": id, "method": method, "params": params }).to_string();
        let line = json!({ "id": id, "to": HTTP, "text": text }).to_string();
        if writeln!(self.stdin, "{line}").and_then(|_| self.stdin.flush()).is_err() {
            return Err(NoReply::Ended);
        }
        let mut g = self.shared.replies.lock().unwrap();
        let t = Instant::now();
        loop {
            if let Some(v) = g.0.remove(&id) {
                return match v["reply"].as_str() {
                    Some(s) => Ok(serde_json::from_str(s).unwrap_or(Value::Null)),
                    None => Err(NoReply::Deaf(v["error"].to_string())),
                };
            }
            if g.1 {
                return Err(NoReply::Ended);
            }
            if t.elapsed() > Duration::from_secs(60) {
                return Err(NoReply::Slow);
            }
            g = self.shared.bell.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
        }
    }
    /// Waits until the node answers; false when it ended or does not come up within a minute.
    pub fn up(&mut self) -> bool {
        let t = Instant::now();
        while t.elapsed() < Duration::from_secs(60) {
            match self.rpc("eth_blockNumber", json!([])) {
                Ok(v) if v.get("result").is_some() => return true,
                Err(NoReply::Ended) => return false,
                _ => std::thread::sleep(Duration::from_millis(5)),
            }
        }
        false
    }
    pub fn signal(&mut self, sig: i32) {
        unsafe { libc::kill(self.child.id() as i32, sig) };
    }
    pub fn ended(&mut self) -> Option<ExitStatus> {
        self.child.try_wait().ok().flatten()
    }
    /// Waits for the end of the process: None when it did not end within `d` (it is killed then).
    pub fn end(mut self, d: Duration) -> Option<(ExitStatus, String)> {
        let s = end(&mut self.child, d);
        if s.is_none() {
            let _ = self.child.kill();
            let _ = self.child.wait();
        }
        std::thread::sleep(Duration::from_millis(2));
        let text = self.shared.text.lock().unwrap().clone();
        s.map(|s| (s, text))
    }
    pub fn text(&self) -> String {
        self.shared.text.lock().unwrap().clone()
    }
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
