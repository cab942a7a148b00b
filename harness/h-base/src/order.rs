//! P14: version numbers against an implementation of the semantic versioning rules of its own.
use std::cmp::Ordering;
use std::str::FromStr;

use common_version::Version;
use serde_json::json;
use vlib::{guard, Ctx, Rng};

#[derive(Clone, PartialEq, Eq, Debug)]
struct Sem {
    core: [u64; 3],
    pre: Vec<String>,
    build: Vec<String>,
}

fn number(s: &str) -> Option<u64> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) || (s.len() > 1 && s.starts_with('0')) {
        return None;
    }
    s.parse().ok()
}

fn idents(s: &str, pre: bool) -> Option<Vec<String>> {
    s.split('.')
        .map(|i| {
            let ok = !i.is_empty() && i.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-');
            let zero = pre && i.len() > 1 && i.starts_with('0') && i.bytes().all(|b| b.is_ascii_digit());
            if ok && !zero {
                Some(i.to_string())
            } else {
                None
            }
        })
        .collect()
}

/// semver.org, 2.0.0
fn parse(s: &str) -> Option<Sem> {
    let (rest, build) = match s.split_once('+') {
        Some((a, b)) => (a, idents(b, false)?),
        None => (s, vec![]),
    };
    let (core, pre) = match rest.split_once('-') {
        Some((a, b)) => (a, idents(b, true)?),
        None => (rest, vec![]),
    };
    let n: Vec<u64> = core.split('.').map(number).collect::<Option<_>>()?;
    Some(Sem { core: <[u64; 3]>::try_from(n).ok()?, pre, build })
}

fn ident_cmp(a: &str, b: &str) -> Ordering {
    let num = |s: &str| s.bytes().all(|c| c.is_ascii_digit());
    match (num(a), num(b)) {
        (true, true) => a.len().cmp(&b.len()).then(a.cmp(b)),
        (true, false) => Ordering::Less,
        (false, true) => Ordering::Greater,
        _ => a.cmp(b),
    }
}

fn precedence(a: &Sem, b: &Sem) -> Ordering {
    a.core.cmp(&b.core).then_with(|| match (a.pre.is_empty(), b.pre.is_empty()) {
        (true, true) => Ordering::Equal,
        (true, false) => Ordering::Greater,
        (false, true) => Ordering::Less,
        _ => {
            for (x, y) in a.pre.iter().zip(&b.pre) {
                let o = ident_cmp(x, y);
                if o != Ordering::Equal {
                    return o;
                }
            }
            a.pre.len().cmp(&b.pre.len())
        }
    })
}

fn print(s: &Sem) -> String {
    let mut o = format!("{}.{}.{}", s.core[0], s.core[1], s.core[2]);
    if !s.pre.is_empty() {
        o += &format!("-{}", s.pre.join("."));
    }
    if !s.build.is_empty() {
        o += &format!("+{}", s.build.join("."));
    }
    o
}

fn some(r: &mut Rng) -> Sem {
    let ids = ["alpha", "beta", "rc", "0", "1", "2", "9", "10", "11", "x", "X", "-", "a-b", "dev", "Beta", "100000000000000000000"];
    let part = |r: &mut Rng, n: usize| -> Vec<String> { (0..n).map(|_| r.pick(&ids[..]).to_string()).collect() };
    let num = |r: &mut Rng| if r.chance(1, 20) { r.edge_u64() } else { r.below(3) as u64 * if r.chance(1, 8) { 7 } else { 1 } };
    let core = [num(r), num(r), num(r)];
    let n = if r.bool() { r.range(1, 3) as usize } else { 0 };
    let pre = part(r, n);
    let n = if r.bool() { r.range(1, 2) as usize } else { 0 };
    let build = part(r, n);
    Sem { core, pre, build }
}

pub fn p14(c: &mut Ctx) {
    c.stage("versions");
    let mut n = 0u64;
    let fixed = ["0.1.0-beta.1", "0.1.0", "0.1.15", "0.2.0", "0.1.0-alpha.9", "0.1.0-beta", "0.1.0-beta.2", "0.1.0-beta.11", "0.1.0-rc.1", "1.0.0"];
    while n < c.scale(400_000, 5_000_000) && (n % 256 != 0 || c.within(0.9)) {
        n += 1;
        let mut r = c.rng.fork();
        let pick = |r: &mut Rng| if r.chance(1, 4) { parse(*r.pick(&fixed[..])).unwrap() } else { some(r) };
        let a = pick(&mut r);
        let b = match r.below(4) {
            0 => {
                let mut b = a.clone();
                b.build = some(&mut r).build;
                b
            }
            1 => {
                let mut b = a.clone();
                b.pre = some(&mut r).pre;
                b
            }
            _ => pick(&mut r),
        };
        let (ta, tb) = (print(&a), print(&b));
        c.seen("pair", (&ta, &tb));
        // as read, and as the node makes them (with a commit id in place of the build metadata)
        let commit: String = r.pick(&["unknown", "abc1234", "ABCDEF0", "dirty-1", "deadBEEF.x"][..]).to_string();
        let res = guard(|| {
            let (x, y) = (Version::from_str(&ta).unwrap(), Version::from_str(&tb).unwrap());
            let (p, q) = (Version::new(&ta), Version::new(&tb));
            let z = Version::new_with_commit_id(&ta, &commit);
            (x.cmp(&y), y.cmp(&x), x == y, x.to_string(), p.cmp(&q), p == q, p.to_string(), z.to_string(), z.commit_id(), p.commit_id(), p.partial_cmp(&q), p < q)
        });
        let case = || json!({"a": ta, "b": tb, "commit": commit, "got": format!("{res:?}")});
        let Ok((xy, yx, eq, shown, pq, peq, pshown, zshown, zid, pid, ppq, plt)) = &res else {
            c.ensure(false, "crash", || ("a valid version number was not read".into(), case()));
            continue;
        };
        let want = precedence(&a, &b);
        let kind = format!("{want:?}");
        c.event(&format!("versions.{}", kind.to_lowercase()));
        c.ensure(want == Ordering::Equal || *xy == want, "order", || ("versions order as semantic versioning says".into(), case()));
        c.ensure(*yx == xy.reverse() && *eq == (*xy == Ordering::Equal) && *eq == (a == b), "total", || ("comparing the other way round gives the opposite".into(), case()));
        c.ensure(*shown == ta, "print", || ("a version prints as it was written".into(), case()));
        // the node's own: the same commit id, so only the precedence counts
        c.ensure(*pq == want && *peq == (want == Ordering::Equal) && *ppq == Some(want) && *plt == (want == Ordering::Less), "node-order", || {
            ("build metadata never makes a release older or newer".into(), case())
        });
        let base = print(&Sem { build: vec![], ..a.clone() });
        c.ensure(*pshown == format!("{base}+unknown") && *zshown == format!("{base}+{commit}"), "node-print", || ("a release prints with its commit id".into(), case()));
        c.ensure(*zid == commit.to_ascii_lowercase() && pid == "unknown", "commit", || ("the commit id is the one given".into(), case()));
        // and what is no version
        if n % 4 == 0 {
            let mut s = ta.clone().into_bytes();
            for _ in 0..r.range(1, 2) {
                let i = r.below(s.len() + 1);
                let ch = *r.pick(b".-+0 v1aZ_~\xc3");
                match r.below(3) {
                    0 if i < s.len() => {
                        s.remove(i);
                    }
                    1 if i < s.len() => s[i] = ch,
                    _ => s.insert(i, ch),
                }
            }
            let s = String::from_utf8_lossy(&s).into_owned();
            let want = parse(&s);
            let got = guard(|| Version::from_str(&s).map(|v| v.to_string()).ok());
            c.event(if want.is_some() { "versions.read" } else { "versions.refused" });
            c.ensure(matches!(&got, Ok(g) if *g == want.as_ref().map(print)), "grammar", || {
                ("only version numbers are read as version numbers".into(), json!({"text": s, "want": want.is_some(), "got": format!("{got:?}")}))
            });
        }
    }
    c.note(format!("{n} pairs of versions"));
}
