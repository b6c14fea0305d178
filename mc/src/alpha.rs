//! Value alphabets, and templates whose leaves are varied one at a time (and in equal pairs).

use std::collections::BTreeMap;

use serde_json::{json, Value as Json};

use crate::pb::{Msg, V};
use crate::world::b64;

/// Strings: every length near a power of two, unusual contents.
pub fn strings() -> Vec<String> {
    let mut v: Vec<String> = [
        "", " ", "  ", " lead", "trail ", "\ttab\n", "\r\n", "UPPER", "MiXed", "a/b", "a/b/", "a//b", "/a", "/", "a.b", ".", "..", "-", "_", "0", "00", "007", "1", "-1", "+1", "1e5", "1.0", "true", "false", "null", "{}", "[]", "{\"a\":1}",
        "[1,2]", "\"", "\"q\"", "\\", "\\n", "\\u0041", "\u{0}", "a\u{0}b", "\u{1}", "\u{1f}", "\u{7f}", "\u{80}", "é", "e\u{301}", "ß", "İ", "🚀", "\u{feff}bom", "\u{200b}", "\u{2028}", "\u{ffff}", "a,b", "a;b", "a b", "%41", "a=b", "&<>'",
        "<script>", "cosmos1ica", "cosmos1qqqq", "cosmos1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqnrql8a", "0xAbCdEf0123456789abcdef0123456789abcdef01", "channel-0", "transfer", "icahost", "uatom", "ibc/ABCDEF", "factory/cosmos1a/sub", "stake", "None", "undefined", "NaN",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for n in lengths() {
        v.push("x".repeat(n));
    }
    v.push("é".repeat(64));
    v.push("ab\"\\".repeat(40));
    v
}

fn lengths() -> Vec<usize> {
    let mut v: Vec<usize> = (2..=8).collect();
    v.extend([10, 15, 16, 17, 19, 20, 21, 28, 30, 31, 32, 33, 39, 40, 41, 42, 43, 44, 45, 46, 50, 57, 58, 59, 60, 62, 63, 64, 65, 70, 72, 80, 90, 96, 99, 100, 101, 120, 126, 127, 128, 129, 130, 150, 180, 200, 254, 255, 256, 257, 258, 300, 400, 500, 511, 512, 513, 600, 800, 1000, 1023, 1024, 1025, 2000, 2048, 4095, 4096, 4097, 8192, 10_000, 16_383, 16_384, 16_385, 40_000, 65_535, 65_536, 70_000]);
    v
}

pub fn blobs() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![
        b"{}".to_vec(),
        b"{ }".to_vec(),
        b"{\"b\":1,\"a\":2}".to_vec(),
        b" {\"a\": null}\n".to_vec(),
        b"{\"a\":1,\"a\":2}".to_vec(),
        b"{\"a\":1.0,\"b\":1e3,\"c\":18446744073709551616}".to_vec(),
        b"{\"a\":\"\\u00e9\"}".to_vec(),
        "\u{feff}{}".as_bytes().to_vec(),
        b"null".to_vec(),
        b"\"\"".to_vec(),
        b"e30=".to_vec(),
        vec![0],
        vec![0, 0],
        vec![0xff],
        vec![0xff, 0xfe],
        vec![0x0a, 0],
        vec![0x0a, 3, b'a', b'b', b'c'],
        vec![0x08, 0x96, 0x01],
        vec![0x1f, 0x8b, 8, 0],
        b"\0asm".to_vec(),
        b"text".to_vec(),
        b" text ".to_vec(),
        (0..=255).collect(),
        (0..=255).rev().collect(),
        vec![],
    ];
    for n in lengths() {
        v.push((0..n).map(|i| (i * 7 + 1) as u8).collect());
        if n <= 64 {
            v.push(vec![0; n]);
            v.push(vec![0xff; n]);
            v.push([vec![1; n - 1], vec![0]].concat());
            v.push([vec![0], vec![1; n - 1]].concat());
        }
    }
    v
}

pub fn u64s() -> Vec<u64> {
    let mut v: Vec<u64> = (0..=20).collect();
    for k in 0..64 {
        let p = 1u64 << k;
        v.extend([p - 1, p, p + 1]);
    }
    let mut t = 1u64;
    while let Some(n) = t.checked_mul(10) {
        t = n;
        v.extend([t - 1, t, t + 1]);
    }
    v.extend([u64::MAX - 1, u64::MAX, 1_700_000_000_123_456_789, i64::MAX as u64]);
    v.sort_unstable();
    v.dedup();
    v
}

pub fn u128s() -> Vec<u128> {
    let mut v: Vec<u128> = (0..=20).collect();
    for k in 0..128 {
        let p = 1u128 << k;
        v.extend([p - 1, p, p + 1]);
    }
    let mut t = 1u128;
    while let Some(n) = t.checked_mul(10) {
        t = n;
        v.extend([t - 1, t, t + 1]);
    }
    v.extend([u128::MAX - 1, u128::MAX]);
    v.sort_unstable();
    v.dedup();
    v
}

/// The leaves of a template, recognised by their values:
/// `"@s…"` string, `b64("@b…")` bytes, number 99xxxx u64, number 97xxxx u32, text `98xxxx` a u64
/// rendered as text in JSON, text `99xxxx` an amount (text on both sides).
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Leaf {
    S(String),
    B(String),
    U(u64),
    U32(u64),
    T(u64),
    A(String),
}

#[derive(Clone, Debug)]
pub enum Val {
    S(String),
    B(Vec<u8>),
    U(u64),
    A(u128),
}

fn leaf_json(v: &Json) -> Option<Leaf> {
    match v {
        Json::String(s) if s.starts_with("@s") => Some(Leaf::S(s.clone())),
        Json::String(s) if s.starts_with("QGI") => (0..10).map(|i| format!("@b{i}")).find(|m| b64(m.as_bytes()) == *s).map(Leaf::B),
        Json::String(s) if s.len() == 6 && s.starts_with("98") => s.parse().ok().map(Leaf::T),
        Json::String(s) if s.len() == 6 && s.starts_with("99") && s.bytes().all(|b| b.is_ascii_digit()) => Some(Leaf::A(s.clone())),
        Json::Number(n) => match n.as_u64()? {
            x @ 990_000..=999_999 => Some(Leaf::U(x)),
            x @ 970_000..=979_999 => Some(Leaf::U32(x)),
            _ => None,
        },
        _ => None,
    }
}

pub fn leaves(v: &Json, out: &mut Vec<Leaf>) {
    if let Some(l) = leaf_json(v) {
        if !out.contains(&l) {
            out.push(l);
        }
    }
    match v {
        Json::Array(a) => a.iter().for_each(|x| leaves(x, out)),
        Json::Object(o) => o.values().for_each(|x| leaves(x, out)),
        _ => {}
    }
}

type Sub = BTreeMap<Leaf, Val>;

fn sub_json(v: &Json, s: &Sub) -> Json {
    if let Some(x) = leaf_json(v).and_then(|l| s.get(&l).map(|x| (l, x))) {
        return match x {
            (Leaf::T(_), Val::U(n)) => json!(n.to_string()),
            (_, Val::S(t)) => json!(t),
            (_, Val::B(b)) => json!(b64(b)),
            (_, Val::U(n)) => json!(n),
            (_, Val::A(n)) => json!(n.to_string()),
        };
    }
    match v {
        Json::Array(a) => a.iter().map(|x| sub_json(x, s)).collect::<Vec<_>>().into(),
        Json::Object(o) => Json::Object(o.iter().map(|(k, x)| (k.clone(), sub_json(x, s))).collect()),
        v => v.clone(),
    }
}

/// Singular scalar fields with their default value are not on the wire.
fn sub_pb(m: &Msg, s: &Sub) -> Msg {
    m.iter()
        .filter_map(|(n, v)| {
            let v = match v {
                V::U(x) => match s.get(&Leaf::U(*x)).or_else(|| s.get(&Leaf::U32(*x))).or_else(|| s.get(&Leaf::T(*x))) {
                    Some(Val::U(0)) => return None,
                    Some(Val::U(y)) => V::U(*y),
                    _ => V::U(*x),
                },
                V::B(x) => {
                    let t = std::str::from_utf8(x).unwrap_or("").to_string();
                    let y = match s.get(&Leaf::S(t.clone())).or_else(|| s.get(&Leaf::B(t.clone()))).or_else(|| s.get(&Leaf::A(t))) {
                        Some(Val::S(y)) => y.as_bytes().to_vec(),
                        Some(Val::B(y)) => y.clone(),
                        Some(Val::A(y)) => y.to_string().into_bytes(),
                        _ => x.clone(),
                    };
                    if y.is_empty() {
                        return None;
                    }
                    V::B(y)
                }
                V::M(x) => V::M(sub_pb(x, s)),
            };
            Some((*n, v))
        })
        .collect()
}

fn values(l: &Leaf) -> Vec<Val> {
    match l {
        Leaf::S(_) => strings().into_iter().map(Val::S).collect(),
        Leaf::B(_) => blobs().into_iter().map(Val::B).collect(),
        Leaf::U(_) | Leaf::T(_) => u64s().into_iter().map(Val::U).collect(),
        Leaf::U32(_) => u64s().into_iter().filter(|x| *x <= u64::from(u32::MAX)).map(Val::U).collect(),
        Leaf::A(_) => u128s().into_iter().map(Val::A).collect(),
    }
}

fn few(l: &Leaf) -> Vec<Val> {
    match l {
        Leaf::S(_) => ["", "same", "cosmos1ica"].iter().map(|s| Val::S(s.to_string())).collect(),
        Leaf::B(_) => [vec![], b"same".to_vec(), b"{}".to_vec()].into_iter().map(Val::B).collect(),
        Leaf::U(_) | Leaf::T(_) | Leaf::U32(_) => [0, 7, 1000].into_iter().map(Val::U).collect(),
        Leaf::A(_) => [0, 7, 1000].into_iter().map(Val::A).collect(),
    }
}

fn same_sort(a: &Leaf, b: &Leaf) -> bool {
    matches!((a, b), (Leaf::S(_), Leaf::S(_)) | (Leaf::B(_), Leaf::B(_)) | (Leaf::U(_) | Leaf::U32(_) | Leaf::T(_), Leaf::U(_) | Leaf::U32(_) | Leaf::T(_)) | (Leaf::A(_), Leaf::A(_)))
}

/// All variations of a template: the template itself, each leaf through its whole alphabet, each
/// two leaves of a sort with equal values, every leaf default at once, every two leaves default.
pub fn variations(json: &Json, pb: &Msg, skip_empty: &[&str]) -> Vec<(Json, Msg)> {
    let mut ls = vec![];
    leaves(json, &mut ls);
    let mut subs: Vec<Sub> = vec![Sub::new()];
    let skip = |l: &Leaf, v: &Val| match (l, v) {
        (Leaf::S(m), Val::S(x)) => x.is_empty() && skip_empty.contains(&m.as_str()),
        (Leaf::B(m), Val::B(x)) => x.is_empty() && skip_empty.contains(&m.as_str()),
        _ => false,
    };
    for l in &ls {
        for x in values(l) {
            if !skip(l, &x) {
                subs.push(Sub::from([(l.clone(), x)]));
            }
        }
    }
    for (i, a) in ls.iter().enumerate() {
        for b in &ls[i + 1..] {
            if same_sort(a, b) {
                for x in few(a) {
                    if !skip(a, &x) && !skip(b, &x) {
                        subs.push(Sub::from([(a.clone(), x.clone()), (b.clone(), x)]));
                    }
                }
            } else {
                let (x, y) = (few(a)[0].clone(), few(b)[0].clone());
                if !skip(a, &x) && !skip(b, &y) {
                    subs.push(Sub::from([(a.clone(), x), (b.clone(), y)]));
                }
            }
        }
    }
    if skip_empty.is_empty() {
        subs.push(ls.iter().map(|l| (l.clone(), few(l)[0].clone())).collect());
    }
    subs.iter().map(|s| (sub_json(json, s), sub_pb(pb, s))).collect()
}

/// All texts one edit away: a character removed, doubled, replaced, changed in case or inserted.
pub fn near(t: &str) -> Vec<String> {
    let c: Vec<char> = t.chars().collect();
    let mut v = vec![];
    for i in 0..=c.len() {
        let (a, b): (String, String) = (c[..i].iter().collect(), c[i..].iter().collect());
        for x in [' ', '0', 'a', '-', '/', '\u{0}'] {
            v.push(format!("{a}{x}{b}"));
        }
        if i < c.len() {
            let rest: String = c[i + 1..].iter().collect();
            v.push(format!("{a}{rest}"));
            v.push(format!("{a}{}{}{rest}", c[i], c[i]));
            v.push(format!("{a}{}{rest}", if c[i] == 'z' { 'y' } else { 'z' }));
            v.push(format!("{a}{}{rest}", c[i].to_uppercase()));
            v.push(format!("{a}{}{rest}", c[i].to_lowercase()));
            v.push(a);
            v.push(b);
        }
    }
    v.push(format!("{t}{t}"));
    v.retain(|x| x != t);
    v.sort();
    v.dedup();
    v
}
