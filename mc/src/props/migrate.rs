//! C19: migration.

use std::cmp::Ordering;

use super::*;
use crate::engine::{explore, Cfg, Report};

const NAME: &str = "crates.io:cw-ica-controller";

/// A semantic version 2.0.0: numbers, pre-release identifiers and build metadata.
#[derive(Debug)]
struct Ver {
    n: [u64; 3],
    pre: Vec<String>,
    build: bool,
}

fn number(s: &str) -> Option<u64> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) || (s.len() > 1 && s.starts_with('0')) {
        return None;
    }
    s.parse().ok()
}

fn idents(s: &str, numeric_strict: bool) -> Option<Vec<String>> {
    s.split('.')
        .map(|i| {
            let ok = !i.is_empty() && i.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-');
            let digits = i.bytes().all(|b| b.is_ascii_digit());
            (ok && !(numeric_strict && digits && i.len() > 1 && i.starts_with('0'))).then(|| i.to_string())
        })
        .collect()
}

fn parse(s: &str) -> Option<Ver> {
    let (rest, build) = match s.split_once('+') {
        Some((r, b)) => {
            idents(b, false)?;
            (r, true)
        }
        None => (s, false),
    };
    let (core, pre) = match rest.split_once('-') {
        Some((c, p)) => (c, idents(p, true)?),
        None => (rest, vec![]),
    };
    let v: Vec<u64> = core.split('.').map(number).collect::<Option<_>>()?;
    Some(Ver { n: v.try_into().ok()?, pre, build })
}

/// Precedence as in semver.org, item 11.
fn precedence(a: &Ver, b: &Ver) -> Ordering {
    a.n.cmp(&b.n).then_with(|| match (a.pre.is_empty(), b.pre.is_empty()) {
        (true, true) => Ordering::Equal,
        (true, false) => Ordering::Greater,
        (false, true) => Ordering::Less,
        _ => {
            for (x, y) in a.pre.iter().zip(&b.pre) {
                let o = match (x.parse::<u128>(), y.parse::<u128>()) {
                    (Ok(x), Ok(y)) => x.cmp(&y),
                    (Ok(_), Err(_)) => Ordering::Less,
                    (Err(_), Ok(_)) => Ordering::Greater,
                    _ => x.cmp(y),
                };
                if o != Ordering::Equal {
                    return o;
                }
            }
            a.pre.len().cmp(&b.pre.len())
        }
    })
}

/// The version of the package under test.
fn current() -> Option<String> {
    let mut in_package = false;
    for l in include_str!("/repo/Cargo.toml").lines() {
        let l = l.trim();
        if l.starts_with('[') {
            in_package = l == "[package]";
        } else if in_package {
            if let Some(v) = l.strip_prefix("version").map(str::trim_start).and_then(|l| l.strip_prefix('=')) {
                return Some(v.trim().trim_matches('"').to_string());
            }
        }
    }
    None
}

fn info(st: &Store) -> Json {
    st.0.get(b"contract_info".as_slice()).and_then(|v| serde_json::from_slice(v).ok()).unwrap_or(Json::Null)
}

fn versions(cur: &str) -> Vec<String> {
    let mut v = vec![];
    if let Some(c) = parse(cur) {
        let around = |x: u64| {
            let mut v = vec![0, 1, 2, 3, 9, 10, x.saturating_sub(1), x, x + 1, x * 10, x / 10, 100];
            v.sort_unstable();
            v.dedup();
            v
        };
        for a in around(c.n[0]) {
            for b in around(c.n[1]) {
                for p in around(c.n[2]) {
                    v.push(format!("{a}.{b}.{p}"));
                }
            }
        }
        for base in [cur.to_string(), format!("{}.{}.{}", c.n[0], c.n[1], c.n[2] + 1), format!("{}.{}.{}", c.n[0], c.n[1].saturating_sub(1), 9), "0.0.0".into(), "100.0.0".into()] {
            for pre in ["-alpha", "-alpha.1", "-beta.11", "-rc.1", "-0", "-1.2.3", "--", "-z9", "-99999999999999999999"] {
                v.push(format!("{base}{pre}"));
                v.push(format!("{base}{pre}+build.7"));
            }
            v.push(format!("{base}+build.7"));
            v.push(format!("{base}+0"));
        }
    }
    for s in ["", " ", "0", "0.19", "v0.19.0", "0.19.0 ", " 0.19.0", "0.019.0", "00.1.0", "0.19.0-", "0.19.0-01", "0.19.0+", "0.1.0-a..b", "a.b.c", "0.19.0.0", "0.19.x", "0.-1.0", "18446744073709551616.0.0", "0.18446744073709551616.0", "18446744073709551615.0.0", "0.1.0_1", "latest", "0,1,0"] {
        v.push(s.into());
    }
    v.sort();
    v.dedup();
    v
}

pub fn c19(rep: &mut Report, deep: bool) {
    let w0 = step(&World::new(Params::default()), &inst(opts_a(), None)).0;
    let Some(cur) = current().filter(|c| parse(c).is_some()).or_else(|| info(&w0.store)["version"].as_str().map(String::from)) else { return };
    let vs = versions(&cur);
    rep.bounds.push(format!("current version {cur}: {} stored versions (all boundary combinations around it, pre-releases, build metadata, unparseable ones) and 12 stored names, with protobuf and JSON encoding, in every state of all histories of transactions up to the depth of each exploration; version x name x encoding product", vs.len()));
    let names = [NAME, "", "crates.io:cw-ica-controlle", "crates.io:cw-ica-controllers", "cw-ica-controller", "crates.io:CW-ICA-CONTROLLER", " crates.io:cw-ica-controller", "crates.io:cw20-base", "crates.io:cw-ica-owner", "crates.io:callback-counter", "crates.io", "crates.io:cw_ica_controller"];
    let mon = |w: &World, a: &Act, r: &Rec, n: &World| {
        let Act::MigrateFrom { contract, version, json_encoding } = a else { return Ok(()) };
        let before = before_migration(&w.store, contract, version, *json_encoding);
        let b = World { store: before.clone(), ..w.clone() };
        let rec = info(&before);
        let enc = b.q_state().ok().and_then(|s| s["ica_info"].get("encoding").cloned());
        let enc_ok = enc.as_ref().is_none_or(|e| *e == json!("proto3"));
        let stored = rec["version"].as_str().and_then(parse);
        let lower = stored.as_ref().map(|v| precedence(v, &parse(&cur).unwrap()));
        let head = r.head_ok();
        if rec["contract"] != json!(NAME) {
            chk(!head, || format!("migration from another contract ({}) succeeded", rec["contract"]))?;
        } else if !enc_ok {
            chk(!head, || format!("migration with an open {enc:?} channel succeeded"))?;
        } else {
            match (lower, &stored) {
                (None, _) => chk(!head, || format!("migration from the unparseable version {:?} succeeded", rec["version"]))?,
                (Some(Ordering::Less), _) => chk(head, || format!("migration from {} to {cur} was refused: {}", rec["version"], r.err))?,
                (Some(Ordering::Greater), _) => chk(!head, || format!("downgrade from {} to {cur} succeeded", rec["version"]))?,
                // the order of equal precedence with different build metadata is not prescribed
                (Some(Ordering::Equal), Some(v)) if v.build => {}
                (Some(Ordering::Equal), _) => chk(!head, || format!("migration from {} to itself succeeded", rec["version"]))?,
            }
        }
        if !head {
            return Ok(());
        }
        chk(r.all_msgs().is_empty(), || format!("the migration emits {:?}", r.all_msgs()))?;
        chk(r.accepted, || r.err.clone())?;
        chk(info(&n.store) == json!({"contract": NAME, "version": cur}), || format!("recorded after the migration: {}", info(&n.store)))?;
        for (k, v) in before.0.iter() {
            chk(k == b"contract_info" || n.store.0.get(k) == Some(v), || format!("the migration changed {} from {} to {:?}", String::from_utf8_lossy(k), String::from_utf8_lossy(v), n.store.0.get(k).map(|v| String::from_utf8_lossy(v))))?;
        }
        for k in n.store.0.keys() {
            chk(before.0.contains_key(k), || format!("the migration stored {}", String::from_utf8_lossy(k)))?;
        }
        chk(b.q_channel().ok() == n.q_channel().ok() && b.q_state().ok() == n.q_state().ok() && b.q_owner().ok() == n.q_owner().ok(), || "the migration changed what is reported".into())
    };
    let q = cases::query_id("balance");
    let k = Knobs {
        insts: vec![inst(opts_a(), None), inst(opts_u(), Some(addr("cb1")))],
        creates: vec![None],
        close: true,
        close_confirm: true,
        sends: vec![send(vec![cases::msg_id("bank_send")], vec![q])],
        acks: vec![AckK::Good],
        timeouts: true,
        setcb: vec![None, Some(addr("cb2"))],
        transfers: vec![(addr("heir"), Some(Exp::Height(5000)))],
        accepts: vec![addr("heir")],
        migrate: true,
        max_chans: 2,
        max_inflight: 1,
        max_sends: 2,
        ..Knobs::default()
    };
    let probe = |w: &World| {
        if !w.inst {
            return vec![];
        }
        let mut v = vec![];
        for json_encoding in [false, true] {
            v.push(Act::MigrateFrom { contract: "@".into(), version: "@".into(), json_encoding });
            for s in &vs {
                v.push(Act::MigrateFrom { contract: NAME.into(), version: s.clone(), json_encoding });
            }
            for n in names {
                for s in ["0.1.0", cur.as_str(), "0.19.9", "99.0.0", "junk"] {
                    v.push(Act::MigrateFrom { contract: n.into(), version: s.into(), json_encoding });
                }
            }
        }
        v
    };
    explore(rep, &Cfg { name: "lifecycle".into(), root: World::new(Params::default()), depth: if deep { 8 } else { 6 }, gen: &|w| gen(&k, w), probe: &probe, mon: &mon });
    let few = |w: &World| {
        if !w.inst {
            return vec![];
        }
        [(NAME, "0.1.0", false), (NAME, "0.19.9", true), (NAME, cur.as_str(), false), ("crates.io:cw-ica-owner", "0.1.0", false)].into_iter().map(|(c, v, json_encoding)| Act::MigrateFrom { contract: c.into(), version: v.into(), json_encoding }).collect()
    };
    wide::everything(rep, deep, if deep { 8 } else { 7 }, true, &few, &mon);
}
