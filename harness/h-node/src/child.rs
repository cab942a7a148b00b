//! The process under observation: the repository's own command line, as its main.rs runs it, with one thread more
//! that passes JSON-RPC requests from standard input to the node's (simulated) server and prints the replies.
use std::io::{BufRead, Write};

use common_version::Version;
use core_cli::AxonCli;
use serde_json::{json, Value};

pub fn main(version: String) -> ! {
    // the child never outlives the check
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    if std::env::var_os("NODE_CTL").is_some() {
        std::thread::Builder::new().name("control".into()).spawn(control).unwrap();
    }
    let v = Version::new(&version);
    if let Err(e) = AxonCli::init(v.clone(), v).start() {
        eprintln!("Error {e}");
        std::process::exit(1);
    }
    std::process::exit(0);
}

fn control() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    for line in std::io::stdin().lock().lines().map_while(Result::ok) {
        let Ok(v) = serde_json::from_str::<Value>(&line) else { continue };
        let to = v["to"].as_str().unwrap().parse().unwrap();
        let r = rt.block_on(jsonrpsee::sim::post(to, v["text"].as_str().unwrap()));
        let out = match r {
            Ok(r) => json!({ "id": v["id"], "reply": r }),
            Err(e) => json!({ "id": v["id"], "error": e }),
        };
        println!("@@{out}");
        let _ = std::io::stdout().flush();
    }
}
