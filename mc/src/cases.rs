//! Input alphabets: messages, queries and query responses, each with its hand-written meaning.

use std::sync::OnceLock;

use serde_json::{json, Value as Json};

use crate::alpha;
use crate::pb::{self, b, m, msg, s, u, Msg, V};
use crate::world::b64;

pub const SIGNER: &[u8] = b"\x01<<the interchain account>>\x01";

pub enum Expect {
    Any { type_url: String, msg: Msg },
    Raw { type_url: String, value: Vec<u8> },
    Unsupported,
}

pub struct MsgCase {
    pub kind: &'static str,
    pub json: Json,
    pub expect: Expect,
    /// member of the small alphabet used for sequences
    pub core: bool,
}

fn signer(n: u32) -> Option<(u32, V)> {
    Some((n, V::B(SIGNER.to_vec())))
}

/// Replaces the signer placeholder.
pub fn with_signer(m: &Msg, a: &str) -> Msg {
    m.iter()
        .filter_map(|(n, v)| {
            Some((
                *n,
                match v {
                    V::B(x) if x == SIGNER => {
                        if a.is_empty() {
                            return None;
                        }
                        V::B(a.as_bytes().to_vec())
                    }
                    V::M(x) => V::M(with_signer(x, a)),
                    v => v.clone(),
                },
            ))
        })
        .collect()
}

#[derive(Clone)]
pub struct C(pub String, pub String);
impl C {
    fn pb(&self) -> Msg {
        msg([s(1, &self.0), s(2, &self.1)])
    }
    pub fn json(&self) -> Json {
        json!({"denom": self.0, "amount": self.1})
    }
}
fn cjson(c: &[C]) -> Json {
    c.iter().map(C::json).collect::<Vec<_>>().into()
}
fn cpb(n: u32, c: &[C]) -> Vec<Option<(u32, V)>> {
    c.iter().map(|c| m(n, c.pb())).collect()
}

pub fn strs() -> Vec<String> {
    vec!["cosmos1qqqq".into(), String::new(), "a".into(), "Ünïcødé→\"\\/\n".into(), "x".repeat(200)]
}
fn u64s() -> Vec<u64> {
    vec![1, 0, 127, 128, 300, u64::from(u32::MAX), 1 << 32, (1 << 53) + 1, u64::MAX]
}
fn amounts() -> Vec<String> {
    vec!["100".into(), "0".into(), "1".into(), u64::MAX.to_string(), "18446744073709551616".into(), u128::MAX.to_string()]
}
fn denoms() -> Vec<String> {
    vec!["stake".into(), "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2".into(), String::new()]
}
fn coins() -> Vec<C> {
    let mut v = vec![];
    for d in denoms() {
        for a in amounts() {
            v.push(C(d.clone(), a));
        }
    }
    v
}
fn coin_lists() -> Vec<Vec<C>> {
    let c = |d: &str, a: &str| C(d.into(), a.into());
    let mut v: Vec<Vec<C>> = coins().into_iter().map(|c| vec![c]).collect();
    v.push(vec![]);
    v.push(vec![c("a", "1"), c("b", "2")]);
    v.push(vec![c("b", "2"), c("a", "1")]);
    v.push(vec![c("a", "1"), c("a", "1")]);
    v.push(vec![c("a", "1"), c("a", "2"), c("c", "0")]);
    v.push((0..17).map(|i| c(&format!("d{i}"), &i.to_string())).collect());
    v
}
fn blobs() -> Vec<Vec<u8>> {
    vec![br#"{"do":{"it":1}}"#.to_vec(), vec![], vec![0], (0..=255).collect(), vec![7; 300], b"{}".to_vec()]
}

fn build_msgs() -> Vec<MsgCase> {
    let mut out = vec![];
    let mut more = vec![];
    let mut kind = "";
    let mut push = |k: &'static str, json: Json, expect: Expect| {
        let core = k != kind;
        kind = k;
        out.push(MsgCase { kind: k, json, expect, core });
    };
    let any = |t: &str, msg: Msg| Expect::Any { type_url: t.into(), msg };

    for to in strs() {
        for c in coin_lists() {
            let mut f = vec![signer(1), s(2, &to)];
            f.extend(cpb(3, &c));
            push("bank_send", json!({"bank": {"send": {"to_address": to, "amount": cjson(&c)}}}), any("/cosmos.bank.v1beta1.MsgSend", msg(f)));
        }
    }
    // ibc transfer
    let timeouts: Vec<(Option<(u64, u64)>, Option<u64>)> = vec![
        (None, Some(1_700_000_600_000_000_000)),
        (Some((1, 1000)), None),
        (Some((7, u64::MAX)), Some(5)),
        (None, Some(u64::MAX)),
        (Some((0, 9)), Some(1)),
        (None, Some(0)),
        (None, None),
    ];
    for ch in ["channel-0", "channel-141", ""] {
        for to in strs() {
            for (bl, ts) in &timeouts {
                for memo in [None, Some(""), Some("{\"wasm\":{}}"), Some("mémo")] {
                    for c in [C("stake".into(), "100".into()), C("ibc/AB".into(), u128::MAX.to_string()), C("x".into(), "0".into())] {
                        let mut v = json!({"channel_id": ch, "to_address": to, "amount": c.json(), "timeout": {
                            "block": bl.map(|(r, h)| json!({"revision": r, "height": h})), "timestamp": ts.map(|t| t.to_string())}});
                        if let Some(x) = memo {
                            v["memo"] = json!(x);
                        } else if ch.is_empty() {
                            v["memo"] = Json::Null;
                        }
                        push(
                            "ibc_transfer",
                            json!({"ibc": {"transfer": v}}),
                            any(
                                "/ibc.applications.transfer.v1.MsgTransfer",
                                msg([
                                    s(1, "transfer"),
                                    s(2, ch),
                                    m(3, c.pb()),
                                    signer(4),
                                    s(5, &to),
                                    bl.and_then(|(r, h)| m(6, msg([u(1, r), u(2, h)]))),
                                    u(7, ts.unwrap_or(0)),
                                    s(8, memo.unwrap_or("")),
                                ]),
                            ),
                        );
                    }
                }
            }
        }
    }
    // wasm
    let few_coins: Vec<Vec<C>> = coin_lists().into_iter().skip(3).collect();
    for a in strs() {
        for p in blobs() {
            for c in &few_coins {
                let mut f = vec![signer(1), s(2, &a), b(3, &p)];
                f.extend(cpb(5, c));
                push("wasm_execute", json!({"wasm": {"execute": {"contract_addr": a, "msg": b64(&p), "funds": cjson(c)}}}), any("/cosmwasm.wasm.v1.MsgExecuteContract", msg(f)));
            }
        }
    }
    let small_coins: Vec<Vec<C>> = vec![vec![C("stake".into(), "5".into())], vec![], vec![C("b".into(), u128::MAX.to_string()), C("a".into(), "1".into())]];
    for admin in [None, Some("cosmos1admin"), Some("")] {
        for label in ["my label", "", "ü"] {
            for code in u64s() {
                for p in blobs() {
                    for c in &small_coins {
                        let base = || {
                            let mut f = vec![signer(1), s(2, admin.unwrap_or("")), u(3, code), s(4, label), b(5, &p)];
                            f.extend(cpb(6, c));
                            f
                        };
                        push(
                            "wasm_instantiate",
                            json!({"wasm": {"instantiate": {"admin": admin, "code_id": code, "msg": b64(&p), "funds": cjson(c), "label": label}}}),
                            any("/cosmwasm.wasm.v1.MsgInstantiateContract", msg(base())),
                        );
                    }
                }
            }
        }
    }
    for admin in [None, Some("cosmos1admin")] {
        for label in ["my label", ""] {
            for code in [1, 0, u64::MAX] {
                for p in blobs() {
                    for c in &small_coins {
                        for salt in blobs() {
                            let mut f = vec![signer(1), s(2, admin.unwrap_or("")), u(3, code), s(4, label), b(5, &p)];
                            f.extend(cpb(6, c));
                            f.push(b(7, &salt));
                            push(
                                "wasm_instantiate2",
                                json!({"wasm": {"instantiate2": {"admin": admin, "code_id": code, "label": label, "msg": b64(&p), "funds": cjson(c), "salt": b64(&salt)}}}),
                                any("/cosmwasm.wasm.v1.MsgInstantiateContract2", msg(f)),
                            );
                        }
                    }
                }
            }
        }
    }
    for a in strs() {
        for code in u64s() {
            for p in blobs() {
                push(
                    "wasm_migrate",
                    json!({"wasm": {"migrate": {"contract_addr": a, "new_code_id": code, "msg": b64(&p)}}}),
                    any("/cosmwasm.wasm.v1.MsgMigrateContract", msg([signer(1), s(2, &a), u(3, code), b(4, &p)])),
                );
            }
        }
    }
    for a in strs() {
        for n in ["cosmos1newadmin".to_string()].into_iter().chain(strs()) {
            push(
                "wasm_update_admin",
                json!({"wasm": {"update_admin": {"contract_addr": a, "admin": n}}}),
                any("/cosmwasm.wasm.v1.MsgUpdateAdmin", msg([signer(1), s(2, &n), s(3, &a)])),
            );
        }
    }
    for a in strs() {
        push("wasm_clear_admin", json!({"wasm": {"clear_admin": {"contract_addr": a}}}), any("/cosmwasm.wasm.v1.MsgClearAdmin", msg([signer(1), s(3, &a)])));
    }
    let vopts = [("yes", 1), ("abstain", 2), ("no", 3), ("no_with_veto", 4)];
    for id in u64s() {
        for (n, v) in vopts {
            push(
                "gov_vote",
                json!({"gov": {"vote": {"proposal_id": id, "option": n}}}),
                any("/cosmos.gov.v1beta1.MsgVote", msg([u(1, id), signer(2), u(3, v)])),
            );
        }
    }
    let weights = ["0.5", "1", "0", "0.333333333333333333", "0.000000000000000001", "340282366920938463463.374607431768211455"];
    let mut lists: Vec<Vec<(usize, &str)>> = vec![vec![(0, "0.7"), (2, "0.3")], vec![], vec![(2, "0.3"), (0, "0.7")], vec![(0, "0.1"), (1, "0.2"), (2, "0.3"), (3, "0.4")], vec![(1, "1"), (1, "1")]];
    for o in 0..4 {
        for w in weights {
            lists.push(vec![(o, w)]);
        }
    }
    for id in u64s() {
        for l in &lists {
            let mut f = vec![u(1, id), signer(2)];
            f.extend(l.iter().map(|(o, w)| m(3, msg([u(1, vopts[*o].1), s(2, w)]))));
            let o: Vec<Json> = l.iter().map(|(o, w)| json!({"option": vopts[*o].0, "weight": w})).collect();
            push("gov_vote_weighted", json!({"gov": {"vote_weighted": {"proposal_id": id, "options": o}}}), any("/cosmos.gov.v1.MsgVoteWeighted", msg(f)));
        }
    }
    for (k, t, n) in [("staking_delegate", "MsgDelegate", "delegate"), ("staking_undelegate", "MsgUndelegate", "undelegate")] {
        for v in strs() {
            for c in coins() {
                push(k, json!({"staking": {n: {"validator": v, "amount": c.json()}}}), any(&format!("/cosmos.staking.v1beta1.{t}"), msg([signer(1), s(2, &v), m(3, c.pb())])));
            }
        }
    }
    for v in strs() {
        for d in ["cosmosvaloper1dst".to_string()].into_iter().chain(strs()) {
            for c in coins() {
                push(
                    "staking_redelegate",
                    json!({"staking": {"redelegate": {"src_validator": v, "dst_validator": d, "amount": c.json()}}}),
                    any("/cosmos.staking.v1beta1.MsgBeginRedelegate", msg([signer(1), s(2, &v), s(3, &d), m(4, c.pb())])),
                );
            }
        }
    }
    for v in strs() {
        push(
            "distribution_withdraw",
            json!({"distribution": {"withdraw_delegator_reward": {"validator": v}}}),
            any("/cosmos.distribution.v1beta1.MsgWithdrawDelegatorReward", msg([signer(1), s(2, &v)])),
        );
    }
    for v in strs() {
        push(
            "distribution_set_withdraw",
            json!({"distribution": {"set_withdraw_address": {"address": v}}}),
            any("/cosmos.distribution.v1beta1.MsgSetWithdrawAddress", msg([signer(1), s(2, &v)])),
        );
    }
    for c in coin_lists() {
        let mut f = cpb(1, &c);
        f.push(signer(2));
        push("distribution_fund", json!({"distribution": {"fund_community_pool": {"amount": cjson(&c)}}}), any("/cosmos.distribution.v1beta1.MsgFundCommunityPool", msg(f)));
    }
    for t in ["/cosmos.gov.v1.MsgVote", "", "no-slash", "/cosmos.bank.v1beta1.MsgSend", "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafe"] {
        for v in blobs() {
            push("stargate", json!({"stargate": {"type_url": t, "value": b64(&v)}}), Expect::Raw { type_url: t.into(), value: v });
        }
    }
    // every leaf through its whole alphabet
    for (k, j, t, p) in msg_templates() {
        for (j, p) in alpha::variations(&j, &p, &[]) {
            more.push(MsgCase { kind: k, json: j, expect: any(t, p), core: false });
        }
    }
    for (t, v) in alpha::strings().into_iter().map(|t| (t, b"raw".to_vec())).chain(alpha::blobs().into_iter().map(|v| ("/x.Msg".to_string(), v))) {
        more.push(MsgCase { kind: "stargate", json: json!({"stargate": {"type_url": t, "value": b64(&v)}}), expect: Expect::Raw { type_url: t, value: v }, core: false });
    }
    // lists of every length
    for n in list_lengths() {
        let c: Vec<C> = (0..n).map(|i| C(format!("d{}", i % 7), (i * i).to_string())).collect();
        let mut f = vec![signer(1), s(2, "to")];
        f.extend(cpb(3, &c));
        more.push(MsgCase { kind: "bank_send", json: json!({"bank": {"send": {"to_address": "to", "amount": cjson(&c)}}}), expect: any("/cosmos.bank.v1beta1.MsgSend", msg(f)), core: false });
        let mut f = vec![signer(1), s(2, "a"), b(3, b"{}")];
        f.extend(cpb(5, &c));
        more.push(MsgCase { kind: "wasm_execute", json: json!({"wasm": {"execute": {"contract_addr": "a", "msg": b64(b"{}"), "funds": cjson(&c)}}}), expect: any("/cosmwasm.wasm.v1.MsgExecuteContract", msg(f)), core: false });
        let mut f = vec![signer(1), u(3, 4), s(4, "l"), b(5, b"{}")];
        f.extend(cpb(6, &c));
        more.push(MsgCase { kind: "wasm_instantiate", json: json!({"wasm": {"instantiate": {"admin": null, "code_id": 4, "msg": b64(b"{}"), "funds": cjson(&c), "label": "l"}}}), expect: any("/cosmwasm.wasm.v1.MsgInstantiateContract", msg(f.clone())), core: false });
        f.push(b(7, b"salt"));
        more.push(MsgCase { kind: "wasm_instantiate2", json: json!({"wasm": {"instantiate2": {"admin": null, "code_id": 4, "msg": b64(b"{}"), "funds": cjson(&c), "label": "l", "salt": b64(b"salt")}}}), expect: any("/cosmwasm.wasm.v1.MsgInstantiateContract2", msg(f)), core: false });
        let mut f = cpb(1, &c);
        f.push(signer(2));
        more.push(MsgCase { kind: "distribution_fund", json: json!({"distribution": {"fund_community_pool": {"amount": cjson(&c)}}}), expect: any("/cosmos.distribution.v1beta1.MsgFundCommunityPool", msg(f)), core: false });
        let vo = ["yes", "abstain", "no", "no_with_veto"];
        let mut f = vec![u(1, 3), signer(2)];
        f.extend((0..n).map(|i| m(3, msg([u(1, i as u64 % 4 + 1), s(2, &format!("0.{:02}1", i % 100))]))));
        let o: Vec<Json> = (0..n).map(|i| json!({"option": vo[i % 4], "weight": format!("0.{:02}1", i % 100)})).collect();
        more.push(MsgCase { kind: "gov_vote_weighted", json: json!({"gov": {"vote_weighted": {"proposal_id": 3, "options": o}}}), expect: any("/cosmos.gov.v1.MsgVoteWeighted", msg(f)), core: false });
    }
    // every weight with one to eighteen decimals
    for k in 1..=18usize {
        for d in ["1", "5", "9"] {
            let w = format!("0.{}{d}", "0".repeat(k - 1));
            more.push(MsgCase {
                kind: "gov_vote_weighted",
                json: json!({"gov": {"vote_weighted": {"proposal_id": 3, "options": [{"option": "no", "weight": w}]}}}),
                expect: any("/cosmos.gov.v1.MsgVoteWeighted", msg([u(1, 3), signer(2), m(3, msg([u(1, 3), s(2, &w)]))])),
                core: false,
            });
        }
    }
    // unsupported kinds
    push("x_burn", json!({"bank": {"burn": {"amount": [{"denom": "stake", "amount": "1"}]}}}), Expect::Unsupported);
    push("x_burn0", json!({"bank": {"burn": {"amount": []}}}), Expect::Unsupported);
    push("x_ibc_close", json!({"ibc": {"close_channel": {"channel_id": "channel-0"}}}), Expect::Unsupported);
    push(
        "x_ibc_send",
        json!({"ibc": {"send_packet": {"channel_id": "channel-0", "data": "e30=", "timeout": {"block": null, "timestamp": "1700000600000000000"}}}}),
        Expect::Unsupported,
    );
    push("x_custom", json!({"custom": {}}), Expect::Unsupported);
    out.extend(more);
    out
}

pub fn list_lengths() -> Vec<usize> {
    (0..=34).chain([48, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257]).collect()
}

type MsgTemplate = (&'static str, Json, &'static str, Msg);

/// One template per message kind; see `alpha`.
fn msg_templates() -> Vec<MsgTemplate> {
    let c1 = || json!({"denom": "@s8", "amount": "990008"});
    let c2 = || json!({"denom": "@s9", "amount": "990009"});
    let p1 = || msg([s(1, "@s8"), s(2, "990008")]);
    let p2 = || msg([s(1, "@s9"), s(2, "990009")]);
    let bm = b64(b"@b1");
    let bs = b64(b"@b2");
    vec![
        ("bank_send", json!({"bank": {"send": {"to_address": "@s1", "amount": [c1(), c2()]}}}), "/cosmos.bank.v1beta1.MsgSend", msg([signer(1), s(2, "@s1"), m(3, p1()), m(3, p2())])),
        (
            "ibc_transfer",
            json!({"ibc": {"transfer": {"channel_id": "@s1", "to_address": "@s2", "amount": c1(), "timeout": {"block": {"revision": 990001, "height": 990002}, "timestamp": "980001"}, "memo": "@s3"}}}),
            "/ibc.applications.transfer.v1.MsgTransfer",
            msg([s(1, "transfer"), s(2, "@s1"), m(3, p1()), signer(4), s(5, "@s2"), m(6, msg([u(1, 990001), u(2, 990002)])), u(7, 980001), s(8, "@s3")]),
        ),
        ("wasm_execute", json!({"wasm": {"execute": {"contract_addr": "@s1", "msg": bm, "funds": [c1(), c2()]}}}), "/cosmwasm.wasm.v1.MsgExecuteContract", msg([signer(1), s(2, "@s1"), b(3, b"@b1"), m(5, p1()), m(5, p2())])),
        (
            "wasm_instantiate",
            json!({"wasm": {"instantiate": {"admin": "@s1", "code_id": 990001, "msg": bm, "funds": [c1(), c2()], "label": "@s2"}}}),
            "/cosmwasm.wasm.v1.MsgInstantiateContract",
            msg([signer(1), s(2, "@s1"), u(3, 990001), s(4, "@s2"), b(5, b"@b1"), m(6, p1()), m(6, p2())]),
        ),
        (
            "wasm_instantiate2",
            json!({"wasm": {"instantiate2": {"admin": "@s1", "code_id": 990001, "label": "@s2", "msg": bm, "funds": [c1(), c2()], "salt": bs}}}),
            "/cosmwasm.wasm.v1.MsgInstantiateContract2",
            msg([signer(1), s(2, "@s1"), u(3, 990001), s(4, "@s2"), b(5, b"@b1"), m(6, p1()), m(6, p2()), b(7, b"@b2")]),
        ),
        ("wasm_migrate", json!({"wasm": {"migrate": {"contract_addr": "@s1", "new_code_id": 990001, "msg": bm}}}), "/cosmwasm.wasm.v1.MsgMigrateContract", msg([signer(1), s(2, "@s1"), u(3, 990001), b(4, b"@b1")])),
        ("wasm_update_admin", json!({"wasm": {"update_admin": {"contract_addr": "@s1", "admin": "@s2"}}}), "/cosmwasm.wasm.v1.MsgUpdateAdmin", msg([signer(1), s(2, "@s2"), s(3, "@s1")])),
        ("wasm_clear_admin", json!({"wasm": {"clear_admin": {"contract_addr": "@s1"}}}), "/cosmwasm.wasm.v1.MsgClearAdmin", msg([signer(1), s(3, "@s1")])),
        ("gov_vote", json!({"gov": {"vote": {"proposal_id": 990001, "option": "no"}}}), "/cosmos.gov.v1beta1.MsgVote", msg([u(1, 990001), signer(2), u(3, 3)])),
        (
            "gov_vote_weighted",
            json!({"gov": {"vote_weighted": {"proposal_id": 990001, "options": [{"option": "no_with_veto", "weight": "0.25"}, {"option": "yes", "weight": "0.75"}]}}}),
            "/cosmos.gov.v1.MsgVoteWeighted",
            msg([u(1, 990001), signer(2), m(3, msg([u(1, 4), s(2, "0.25")])), m(3, msg([u(1, 1), s(2, "0.75")]))]),
        ),
        ("staking_delegate", json!({"staking": {"delegate": {"validator": "@s1", "amount": c1()}}}), "/cosmos.staking.v1beta1.MsgDelegate", msg([signer(1), s(2, "@s1"), m(3, p1())])),
        ("staking_undelegate", json!({"staking": {"undelegate": {"validator": "@s1", "amount": c1()}}}), "/cosmos.staking.v1beta1.MsgUndelegate", msg([signer(1), s(2, "@s1"), m(3, p1())])),
        (
            "staking_redelegate",
            json!({"staking": {"redelegate": {"src_validator": "@s1", "dst_validator": "@s2", "amount": c1()}}}),
            "/cosmos.staking.v1beta1.MsgBeginRedelegate",
            msg([signer(1), s(2, "@s1"), s(3, "@s2"), m(4, p1())]),
        ),
        ("distribution_withdraw", json!({"distribution": {"withdraw_delegator_reward": {"validator": "@s1"}}}), "/cosmos.distribution.v1beta1.MsgWithdrawDelegatorReward", msg([signer(1), s(2, "@s1")])),
        ("distribution_set_withdraw", json!({"distribution": {"set_withdraw_address": {"address": "@s1"}}}), "/cosmos.distribution.v1beta1.MsgSetWithdrawAddress", msg([signer(1), s(2, "@s1")])),
        ("distribution_fund", json!({"distribution": {"fund_community_pool": {"amount": [c1(), c2()]}}}), "/cosmos.distribution.v1beta1.MsgFundCommunityPool", msg([m(1, p1()), m(1, p2()), signer(2)])),
    ]
}

pub fn msgs() -> &'static Vec<MsgCase> {
    static T: OnceLock<Vec<MsgCase>> = OnceLock::new();
    T.get_or_init(build_msgs)
}
pub fn msg_id(kind: &str) -> u32 {
    msgs().iter().position(|c| c.kind == kind).unwrap_or_else(|| panic!("no msg case {kind}")) as u32
}

// ---------------------------------------------------------------------------------------------

pub struct QueryCase {
    pub kind: &'static str,
    pub json: Json,
    /// path and request; None = unsupported
    pub expect: Option<(String, Result<Msg, Vec<u8>>)>,
    pub core: bool,
}

fn build_queries() -> Vec<QueryCase> {
    let mut out: Vec<QueryCase> = vec![];
    let mut kind = "";
    let mut push = |k: &'static str, json: Json, expect: Option<(&str, Result<Msg, Vec<u8>>)>| {
        let core = k != kind;
        kind = k;
        out.push(QueryCase { kind: k, json, expect: expect.map(|(p, m)| (p.to_string(), m)), core });
    };
    for a in strs() {
        for d in denoms() {
            push("balance", json!({"bank": {"balance": {"address": a, "denom": d}}}), Some(("/cosmos.bank.v1beta1.Query/Balance", Ok(msg([s(1, &a), s(2, &d)])))));
        }
    }
    for a in strs() {
        push("all_balances", json!({"bank": {"all_balances": {"address": a}}}), Some(("/cosmos.bank.v1beta1.Query/AllBalances", Ok(msg([s(1, &a)])))));
    }
    for d in denoms() {
        push("supply", json!({"bank": {"supply": {"denom": d}}}), Some(("/cosmos.bank.v1beta1.Query/SupplyOf", Ok(msg([s(1, &d)])))));
    }
    for d in denoms() {
        push("denom_metadata", json!({"bank": {"denom_metadata": {"denom": d}}}), Some(("/cosmos.bank.v1beta1.Query/DenomMetadata", Ok(msg([s(1, &d)])))));
    }
    push("all_denom_metadata", json!({"bank": {"all_denom_metadata": {"pagination": null}}}), Some(("/cosmos.bank.v1beta1.Query/DenomsMetadata", Ok(vec![]))));
    for k in [None, Some(vec![]), Some(vec![1u8, 0, 255]), Some(b"stake".to_vec())] {
        for l in [0u32, 1, 100, u32::MAX] {
            for r in [false, true] {
                let kb = k.clone().unwrap_or_default();
                push(
                    "all_denom_metadata",
                    json!({"bank": {"all_denom_metadata": {"pagination": {"key": k.as_ref().map(|k| b64(k)), "limit": l, "reverse": r}}}}),
                    Some(("/cosmos.bank.v1beta1.Query/DenomsMetadata", Ok(msg([m(1, msg([b(1, &kb), u(3, u64::from(l)), u(5, u64::from(r))]))])))),
                );
            }
        }
    }
    for a in strs() {
        for d in blobs() {
            push("wasm_smart", json!({"wasm": {"smart": {"contract_addr": a, "msg": b64(&d)}}}), Some(("/cosmwasm.wasm.v1.Query/SmartContractState", Ok(msg([s(1, &a), b(2, &d)])))));
        }
    }
    for a in strs() {
        for d in blobs() {
            push("wasm_raw", json!({"wasm": {"raw": {"contract_addr": a, "key": b64(&d)}}}), Some(("/cosmwasm.wasm.v1.Query/RawContractState", Ok(msg([s(1, &a), b(2, &d)])))));
        }
    }
    for a in strs() {
        push("wasm_info", json!({"wasm": {"contract_info": {"contract_addr": a}}}), Some(("/cosmwasm.wasm.v1.Query/ContractInfo", Ok(msg([s(1, &a)])))));
    }
    push("bonded_denom", json!({"staking": {"bonded_denom": {}}}), Some(("/cosmos.staking.v1beta1.Query/Params", Ok(vec![]))));
    for a in strs() {
        push("all_delegations", json!({"staking": {"all_delegations": {"delegator": a}}}), Some(("/cosmos.staking.v1beta1.Query/DelegatorDelegations", Ok(msg([s(1, &a)])))));
    }
    for a in strs() {
        for v in ["cosmosvaloper1v".to_string()].into_iter().chain(strs()) {
            push("delegation", json!({"staking": {"delegation": {"delegator": a, "validator": v}}}), Some(("/cosmos.staking.v1beta1.Query/Delegation", Ok(msg([s(1, &a), s(2, &v)])))));
        }
    }
    push("all_validators", json!({"staking": {"all_validators": {}}}), Some(("/cosmos.staking.v1beta1.Query/Validators", Ok(vec![]))));
    for a in strs() {
        push("validator", json!({"staking": {"validator": {"address": a}}}), Some(("/cosmos.staking.v1beta1.Query/Validator", Ok(msg([s(1, &a)])))));
    }
    for p in ["/my.module.v1.Query/Thing", "/cosmos.bank.v1beta1.Query/Balance", "/cosmwasm.wasm.v1.Query/SmartContractState", "/cosmos.staking.v1beta1.Query/Params", "", "no/slash"] {
        for d in blobs() {
            push("stargate", json!({"stargate": {"path": p, "data": b64(&d)}}), Some((p, Err(d))));
        }
    }
    push("x_code_info", json!({"wasm": {"code_info": {"code_id": 1}}}), None);
    push("x_ibc_port", json!({"ibc": {"port_id": {}}}), None);
    push("x_ibc_list", json!({"ibc": {"list_channels": {"port_id": null}}}), None);
    push("x_ibc_chan", json!({"ibc": {"channel": {"channel_id": "channel-0", "port_id": null}}}), None);
    push("x_custom", json!({"custom": {}}), None);
    push("x_distr", json!({"distribution": {"delegator_withdraw_address": {"delegator_address": "cosmos1a"}}}), None);
    push("x_distr2", json!({"distribution": {"delegation_rewards": {"delegator_address": "cosmos1a", "validator_address": "v"}}}), None);
    push("x_distr3", json!({"distribution": {"delegation_total_rewards": {"delegator_address": "cosmos1a"}}}), None);
    push("x_distr4", json!({"distribution": {"delegator_validators": {"delegator_address": "cosmos1a"}}}), None);
    // every leaf through its whole alphabet
    let bk = b64(b"@b1");
    let templates: Vec<(&'static str, Json, &str, Msg)> = vec![
        ("balance", json!({"bank": {"balance": {"address": "@s1", "denom": "@s2"}}}), "/cosmos.bank.v1beta1.Query/Balance", msg([s(1, "@s1"), s(2, "@s2")])),
        ("all_balances", json!({"bank": {"all_balances": {"address": "@s1"}}}), "/cosmos.bank.v1beta1.Query/AllBalances", msg([s(1, "@s1")])),
        ("supply", json!({"bank": {"supply": {"denom": "@s1"}}}), "/cosmos.bank.v1beta1.Query/SupplyOf", msg([s(1, "@s1")])),
        ("denom_metadata", json!({"bank": {"denom_metadata": {"denom": "@s1"}}}), "/cosmos.bank.v1beta1.Query/DenomMetadata", msg([s(1, "@s1")])),
        (
            "all_denom_metadata",
            json!({"bank": {"all_denom_metadata": {"pagination": {"key": bk, "limit": 970001, "reverse": true}}}}),
            "/cosmos.bank.v1beta1.Query/DenomsMetadata",
            msg([m(1, msg([b(1, b"@b1"), u(3, 970001), u(5, 1)]))]),
        ),
        (
            "all_denom_metadata",
            json!({"bank": {"all_denom_metadata": {"pagination": {"key": null, "limit": 970001, "reverse": false}}}}),
            "/cosmos.bank.v1beta1.Query/DenomsMetadata",
            msg([m(1, msg([u(3, 970001)]))]),
        ),
        ("wasm_smart", json!({"wasm": {"smart": {"contract_addr": "@s1", "msg": bk}}}), "/cosmwasm.wasm.v1.Query/SmartContractState", msg([s(1, "@s1"), b(2, b"@b1")])),
        ("wasm_raw", json!({"wasm": {"raw": {"contract_addr": "@s1", "key": bk}}}), "/cosmwasm.wasm.v1.Query/RawContractState", msg([s(1, "@s1"), b(2, b"@b1")])),
        ("wasm_info", json!({"wasm": {"contract_info": {"contract_addr": "@s1"}}}), "/cosmwasm.wasm.v1.Query/ContractInfo", msg([s(1, "@s1")])),
        ("all_delegations", json!({"staking": {"all_delegations": {"delegator": "@s1"}}}), "/cosmos.staking.v1beta1.Query/DelegatorDelegations", msg([s(1, "@s1")])),
        ("delegation", json!({"staking": {"delegation": {"delegator": "@s1", "validator": "@s2"}}}), "/cosmos.staking.v1beta1.Query/Delegation", msg([s(1, "@s1"), s(2, "@s2")])),
        ("validator", json!({"staking": {"validator": {"address": "@s1"}}}), "/cosmos.staking.v1beta1.Query/Validator", msg([s(1, "@s1")])),
    ];
    for (k, j, path, p) in templates {
        for (j, p) in alpha::variations(&j, &p, &[]) {
            out.push(QueryCase { kind: k, json: j, expect: Some((path.into(), Ok(p))), core: false });
        }
    }
    for (p, d) in alpha::strings().into_iter().map(|t| (t, b"raw".to_vec())).chain(alpha::blobs().into_iter().map(|v| ("/x.Query/Y".to_string(), v))) {
        out.push(QueryCase { kind: "stargate", json: json!({"stargate": {"path": p, "data": b64(&d)}}), expect: Some((p, Err(d))), core: false });
    }
    out
}

pub fn queries() -> &'static Vec<QueryCase> {
    static T: OnceLock<Vec<QueryCase>> = OnceLock::new();
    T.get_or_init(build_queries)
}
pub fn query_id(kind: &str) -> u32 {
    queries().iter().position(|c| c.kind == kind).unwrap_or_else(|| panic!("no query case {kind}")) as u32
}
/// The stargate query case with the given path.
pub fn stargate_id(path: &str) -> u32 {
    queries().iter().position(|c| c.kind == "stargate" && c.expect.as_ref().unwrap().0 == path).unwrap() as u32
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone)]
pub enum Want {
    Json(Json),
    /// must not be reported as a success
    Error,
    /// either of: this value, or an error
    JsonOrError(Json),
}

pub struct RespCase {
    pub kind: &'static str,
    pub bytes: Vec<u8>,
    pub want: Want,
    pub core: bool,
}

fn coin_pb(c: &C) -> Msg {
    c.pb()
}

/// (wire, json) of denom metadata
fn metadatas() -> Vec<(Msg, Json)> {
    let mut v = vec![];
    let units: Vec<Vec<(&str, u32, Vec<&str>)>> = vec![
        vec![("uatom", 0, vec!["microatom"]), ("matom", 3, vec![]), ("atom", 6, vec!["ATOM", "Atom"])],
        vec![],
        vec![("", 0, vec![""])],
        vec![("x", u32::MAX, vec!["a", "a"])],
    ];
    for un in units {
        for f in [
            ["the desc", "uatom", "atom", "Cosmos Atom", "ATOM", "https://x", "abcd"],
            ["", "", "", "", "", "", ""],
            ["", "b", "", "n", "", "u", ""],
            ["d", "", "D", "", "s", "", "h"],
        ] {
            let mut pbm = vec![s(1, f[0])];
            for (d, e, al) in &un {
                let mut x = vec![s(1, d), u(2, u64::from(*e))];
                x.extend(al.iter().map(|a| Some((3, V::B(a.as_bytes().to_vec())))));
                pbm.push(m(2, msg(x)));
            }
            pbm.extend([s(3, f[1]), s(4, f[2]), s(5, f[3]), s(6, f[4]), s(7, f[5]), s(8, f[6])]);
            let un_j: Vec<Json> = un.iter().map(|(d, e, a)| json!({"denom": d, "exponent": e, "aliases": a})).collect();
            v.push((
                msg(pbm),
                json!({"description": f[0], "denom_units": un_j, "base": f[1], "display": f[2], "name": f[3], "symbol": f[4], "uri": f[5], "uri_hash": f[6]}),
            ));
        }
    }
    v
}

fn delegations() -> Vec<(Msg, Json)> {
    let mut v = vec![];
    for d in ["cosmos1del", "", "ü"] {
        for va in ["cosmosvaloper1val", ""] {
            for c in [C("stake".into(), "100".into()), C("stake".into(), "0".into()), C("x".into(), u128::MAX.to_string()), C("s".into(), "18446744073709551616".into())] {
                v.push((
                    msg([m(1, msg([s(1, d), s(2, va), s(3, "77000000000000000000")])), m(2, coin_pb(&c))]),
                    json!({"delegator": d, "validator": va, "amount": c.json()}),
                ));
            }
        }
    }
    v
}

fn validators() -> Vec<(Msg, Json)> {
    let mut v = vec![];
    for a in ["cosmosvaloper1aaa", "", "b"] {
        for r in [
            ["100000000000000000", "200000000000000000", "10000000000000000"],
            ["0", "1000000000000000000", "1"],
            ["0.1", "0.25", "0.000000000000000001"],
            ["5", "4", "3"],
        ] {
            v.push((
                msg([
                    s(1, a),
                    m(2, msg([s(1, "/cosmos.crypto.ed25519.PubKey"), b(2, &[10, 2, 1, 2])])),
                    u(3, 1),
                    u(4, 3),
                    s(5, "123"),
                    s(6, "123000000000000000000"),
                    m(7, msg([s(1, "moniker")])),
                    m(10, msg([m(1, msg([s(1, r[0]), s(2, r[1]), s(3, r[2])])), m(2, msg([u(1, 5)]))])),
                    s(11, "1"),
                ]),
                json!({"address": a, "commission": r[0], "max_commission": r[1], "max_change_rate": r[2]}),
            ));
        }
    }
    v
}

fn bad_amounts() -> Vec<&'static str> {
    vec!["", "-1", "1.5", "abc", " 1", "340282366920938463463374607431768211456", "0x10", "1 "]
}

fn build_resps() -> Vec<RespCase> {
    let mut out: Vec<RespCase> = vec![];
    let mut kind = "";
    let mut push = |k: &'static str, bytes: Vec<u8>, want: Want| {
        let core = k != kind;
        kind = k;
        out.push(RespCase { kind: k, bytes, want, core });
    };
    let ok = |p: &str, k: &str, v: Json| Want::Json(json!({p: {k: v}}));
    let def = json!({"denom": "", "amount": "0"});
    let junk: Vec<Vec<u8>> = vec![vec![0xff], vec![0x0a, 0x05, 1], vec![0x0a], vec![0x07], vec![0, 0], vec![0x08, 0x80], vec![0x0a, 0x01, 0xff, 0x0a]];

    for (k, jk) in [("balance", "balance"), ("supply", "supply")] {
        for c in coins() {
            push(k, pb::enc(&msg([m(1, coin_pb(&c))])), ok("bank", jk, json!({"amount": c.json()})));
        }
        push(k, vec![], Want::JsonOrError(json!({"bank": {jk: {"amount": def}}})));
        for a in bad_amounts() {
            push(k, pb::enc(&msg([m(1, msg([s(1, "stake"), s(2, a)]))])), Want::Error);
        }
        for j in &junk {
            push(k, j.clone(), Want::Error);
        }
        push(k, pb::enc(&msg([m(1, vec![(1, V::B(vec![0xff, 0xfe])), (2, V::B(b"1".to_vec()))])])), Want::Error);
        push(k, pb::enc(&msg([u(1, 5)])), Want::Error);
    }
    for c in coin_lists() {
        for page in [None, Some(msg([u(2, c.len() as u64)])), Some(msg([b(1, b"next"), u(2, 99)]))] {
            let mut f = cpb(1, &c);
            f.push(page.and_then(|p| m(2, p)));
            push("all_balances", pb::enc(&msg(f)), ok("bank", "all_balances", json!({"amount": cjson(&c)})));
        }
    }
    for a in bad_amounts() {
        push("all_balances", pb::enc(&msg([m(1, msg([s(1, "ok"), s(2, "1")])), m(1, msg([s(1, "stake"), s(2, a)]))])), Want::Error);
    }
    for (p, j) in metadatas() {
        push("denom_metadata", pb::enc(&msg([m(1, p)])), ok("bank", "denom_metadata", json!({"metadata": j})));
    }
    push(
        "denom_metadata",
        vec![],
        Want::JsonOrError(json!({"bank": {"denom_metadata": {"metadata": {"description": "", "denom_units": [], "base": "", "display": "", "name": "", "symbol": "", "uri": "", "uri_hash": ""}}}})),
    );
    let md = metadatas();
    let sets: Vec<Vec<usize>> = vec![vec![0], vec![], vec![0, 5], vec![5, 0], vec![3, 3, 1], (0..md.len()).collect()];
    for st in &sets {
        for (page, nk) in [
            (None, None),
            (Some(msg([u(2, 3)])), None),
            (Some(vec![]), None),
            (Some(msg([b(1, b"\x00\xffkey")])), Some(b"\x00\xffkey".to_vec())),
            (Some(msg([b(1, &[0]), u(2, 7)])), Some(vec![0])),
        ] {
            let mut f: Vec<_> = st.iter().map(|i| m(1, md[*i].0.clone())).collect();
            f.push(page.and_then(|p| m(2, p)));
            let js: Vec<Json> = st.iter().map(|i| md[*i].1.clone()).collect();
            push("all_denom_metadata", pb::enc(&msg(f)), ok("bank", "all_denom_metadata", json!({"metadata": js, "next_key": nk.map(|k| b64(&k))})));
        }
    }
    for d in blobs() {
        push("wasm_smart", pb::enc(&msg([b(1, &d)])), ok("wasm", "smart_contract_state", json!(b64(&d))));
    }
    for d in blobs() {
        push("wasm_raw", pb::enc(&msg([b(1, &d)])), ok("wasm", "raw_contract_state", if d.is_empty() { Json::Null } else { json!(b64(&d)) }));
    }
    for code in u64s() {
        for cr in ["cosmos1creator", ""] {
            for ad in ["cosmos1admin", ""] {
                for ip in ["wasm.cosmos1xx", ""] {
                    let info = msg([u(1, code), s(2, cr), s(3, ad), s(4, "label"), m(5, msg([u(1, 7), u(2, 8)])), s(6, ip)]);
                    let opt = |x: &str| if x.is_empty() { Json::Null } else { json!(x) };
                    push(
                        "wasm_info",
                        pb::enc(&msg([s(1, "cosmos1contract"), m(2, info)])),
                        ok("wasm", "contract_info", json!({"code_id": code, "creator": cr, "admin": opt(ad), "pinned": false, "ibc_port": opt(ip)})),
                    );
                }
            }
        }
    }
    push("wasm_info", pb::enc(&msg([s(1, "cosmos1contract")])), ok("wasm", "contract_info", Json::Null));
    push("wasm_info", vec![], ok("wasm", "contract_info", Json::Null));
    for d in ["uatom", "stake", "ü"] {
        push(
            "bonded_denom",
            pb::enc(&msg([m(1, msg([m(1, msg([u(1, 1814400)])), u(2, 100), u(3, 7), u(4, 10000), s(5, d), s(6, "0.0")]))])),
            ok("staking", "bonded_denom", json!({"denom": d})),
        );
    }
    push("bonded_denom", vec![], Want::Error);
    let dl = delegations();
    for (p, j) in &dl {
        push("delegation", pb::enc(&msg([m(1, p.clone())])), ok("staking", "delegation", json!({"delegation": j})));
    }
    push("delegation", vec![], ok("staking", "delegation", json!({"delegation": null})));
    for a in bad_amounts() {
        push("delegation", pb::enc(&msg([m(1, msg([m(1, msg([s(1, "d"), s(2, "v")])), m(2, msg([s(1, "stake"), s(2, a)]))]))])), Want::Error);
    }
    for st in [vec![0usize], vec![], vec![0, 7], vec![7, 0], vec![2, 2, 5], (0..dl.len()).collect()] {
        for page in [None, Some(msg([u(2, 3)]))] {
            let mut f: Vec<_> = st.iter().map(|i| m(1, dl[*i].0.clone())).collect();
            f.push(page.and_then(|p| m(2, p)));
            let js: Vec<Json> = st.iter().map(|i| dl[*i].1.clone()).collect();
            push("all_delegations", pb::enc(&msg(f)), ok("staking", "all_delegations", json!({"delegations": js})));
        }
    }
    for a in bad_amounts() {
        push(
            "all_delegations",
            pb::enc(&msg([m(1, dl[0].0.clone()), m(1, msg([m(1, msg([s(1, "d"), s(2, "v")])), m(2, msg([s(1, "stake"), s(2, a)]))]))])),
            Want::Error,
        );
    }
    // a delegation whose balance is missing is never left out
    let nb = || msg([m(1, msg([s(1, "d"), s(2, "v"), s(3, "5")]))]);
    let nb_j = || json!({"delegator": "d", "validator": "v", "amount": def.clone()});
    push("delegation", pb::enc(&msg([m(1, nb())])), Want::JsonOrError(json!({"staking": {"delegation": {"delegation": nb_j()}}})));
    for l in [vec![None], vec![Some(0), None], vec![None, Some(0)], vec![Some(1), None, Some(0)], vec![None, None]] {
        let f = l.iter().map(|x| m(1, x.map_or_else(nb, |i: usize| dl[i].0.clone())));
        let js: Vec<Json> = l.iter().map(|x| x.map_or_else(nb_j, |i| dl[i].1.clone())).collect();
        push("all_delegations", pb::enc(&msg(f)), Want::JsonOrError(json!({"staking": {"all_delegations": {"delegations": js}}})));
    }
    let vl = validators();
    for (p, j) in &vl {
        push("validator", pb::enc(&msg([m(1, p.clone())])), ok("staking", "validator", json!({"validator": j})));
    }
    push("validator", vec![], ok("staking", "validator", json!({"validator": null})));
    for r in ["x", "1.2.3", "0.1234567890123456789", "-0.1"] {
        for pos in 0..3u32 {
            let rates = msg((1..=3).map(|i| s(i, if i == pos + 1 { r } else { "0" })));
            push("validator", pb::enc(&msg([m(1, msg([s(1, "v"), m(10, msg([m(1, rates)]))]))])), Want::Error);
        }
    }
    for st in [vec![0usize], vec![], vec![0, 4], vec![4, 0], vec![2, 2, 5], (0..vl.len()).collect()] {
        for page in [None, Some(msg([u(2, 3)]))] {
            let mut f: Vec<_> = st.iter().map(|i| m(1, vl[*i].0.clone())).collect();
            f.push(page.and_then(|p| m(2, p)));
            let js: Vec<Json> = st.iter().map(|i| vl[*i].1.clone()).collect();
            push("all_validators", pb::enc(&msg(f)), ok("staking", "all_validators", json!({"validators": js})));
        }
    }
    // every leaf through its whole alphabet
    let c1 = || json!({"denom": "@s8", "amount": "990008"});
    let c2 = || json!({"denom": "@s9", "amount": "990009"});
    let p1 = || msg([s(1, "@s8"), s(2, "990008")]);
    let p2 = || msg([s(1, "@s9"), s(2, "990009")]);
    let md_p = || {
        let unit = |d: &str, e: u64, al: &[&str]| msg([s(1, d), u(2, e)].into_iter().chain(al.iter().map(|a| s(3, a))));
        msg([s(1, "@s1"), m(2, unit("@sd", 970001, &["@sx", "@sy"])), m(2, unit("@se", 970002, &[])), s(3, "@s2"), s(4, "@s3"), s(5, "@s4"), s(6, "@s5"), s(7, "@s6"), s(8, "@s7")])
    };
    let md_j = || {
        json!({"description": "@s1", "denom_units": [{"denom": "@sd", "exponent": 970001, "aliases": ["@sx", "@sy"]}, {"denom": "@se", "exponent": 970002, "aliases": []}],
               "base": "@s2", "display": "@s3", "name": "@s4", "symbol": "@s5", "uri": "@s6", "uri_hash": "@s7"})
    };
    let del_p = |d: &str, v: &str, c: Msg| msg([m(1, msg([s(1, d), s(2, v), s(3, "77000000000000000000")])), m(2, c)]);
    let val_p = |a: &str| msg([s(1, a), m(2, msg([s(1, "/t"), b(2, &[1])])), u(4, 3), s(5, "9"), m(10, msg([m(1, msg([s(1, "0.1"), s(2, "0.2"), s(3, "0.01")]))]))]);
    let val_j = |a: &str| json!({"address": a, "commission": "0.1", "max_commission": "0.2", "max_change_rate": "0.01"});
    let bk = b64(b"@b1");
    #[allow(clippy::type_complexity)]
    let templates: Vec<(&'static str, Json, Msg, &[&str])> = vec![
        ("balance", json!({"bank": {"balance": {"amount": c1()}}}), msg([m(1, p1())]), &[]),
        ("supply", json!({"bank": {"supply": {"amount": c1()}}}), msg([m(1, p1())]), &[]),
        ("all_balances", json!({"bank": {"all_balances": {"amount": [c1(), c2()]}}}), msg([m(1, p1()), m(1, p2()), m(2, msg([u(2, 2)]))]), &[]),
        ("denom_metadata", json!({"bank": {"denom_metadata": {"metadata": md_j()}}}), msg([m(1, md_p())]), &["@sx", "@sy"]),
        ("all_denom_metadata", json!({"bank": {"all_denom_metadata": {"metadata": [md_j()], "next_key": bk}}}), msg([m(1, md_p()), m(2, msg([b(1, b"@b1"), u(2, 7)]))]), &["@sx", "@sy", "@b1"]),
        ("wasm_smart", json!({"wasm": {"smart_contract_state": bk}}), msg([b(1, b"@b1")]), &[]),
        ("wasm_raw", json!({"wasm": {"raw_contract_state": bk}}), msg([b(1, b"@b1")]), &["@b1"]),
        (
            "wasm_info",
            json!({"wasm": {"contract_info": {"code_id": 990001, "creator": "@s1", "admin": "@s2", "pinned": false, "ibc_port": "@s3"}}}),
            msg([s(1, "cosmos1contract"), m(2, msg([u(1, 990001), s(2, "@s1"), s(3, "@s2"), s(4, "label"), m(5, msg([u(1, 7), u(2, 8)])), s(6, "@s3")]))]),
            &["@s2", "@s3"],
        ),
        ("bonded_denom", json!({"staking": {"bonded_denom": {"denom": "@s1"}}}), msg([m(1, msg([u(2, 100), s(5, "@s1")]))]), &["@s1"]),
        ("delegation", json!({"staking": {"delegation": {"delegation": {"delegator": "@s1", "validator": "@s2", "amount": c1()}}}}), msg([m(1, del_p("@s1", "@s2", p1()))]), &[]),
        (
            "all_delegations",
            json!({"staking": {"all_delegations": {"delegations": [{"delegator": "@s1", "validator": "@s2", "amount": c1()}, {"delegator": "@s3", "validator": "@s4", "amount": c2()}]}}}),
            msg([m(1, del_p("@s1", "@s2", p1())), m(1, del_p("@s3", "@s4", p2()))]),
            &[],
        ),
        ("validator", json!({"staking": {"validator": {"validator": val_j("@s1")}}}), msg([m(1, val_p("@s1"))]), &[]),
        ("all_validators", json!({"staking": {"all_validators": {"validators": [val_j("@s1"), val_j("@s2")]}}}), msg([m(1, val_p("@s1")), m(1, val_p("@s2"))]), &[]),
    ];
    for (k, j, p, skip) in templates {
        for (j, p) in alpha::variations(&j, &p, skip) {
            push(k, pb::enc(&p), Want::Json(j));
        }
    }
    // lists of every length
    for n in list_lengths() {
        let c: Vec<C> = (0..n).map(|i| C(format!("d{}", i % 7), (i * i).to_string())).collect();
        push("all_balances", pb::enc(&msg(cpb(1, &c))), ok("bank", "all_balances", json!({"amount": cjson(&c)})));
        let f = c.iter().enumerate().map(|(i, c)| m(1, del_p(&format!("d{i}"), "v", c.pb())));
        let js: Vec<Json> = c.iter().enumerate().map(|(i, c)| json!({"delegator": format!("d{i}"), "validator": "v", "amount": c.json()})).collect();
        push("all_delegations", pb::enc(&msg(f)), ok("staking", "all_delegations", json!({"delegations": js})));
        let f = (0..n).map(|i| m(1, val_p(&format!("v{i}"))));
        let js: Vec<Json> = (0..n).map(|i| val_j(&format!("v{i}"))).collect();
        push("all_validators", pb::enc(&msg(f)), ok("staking", "all_validators", json!({"validators": js})));
        let f = (0..n).map(|i| m(1, md[i % md.len()].0.clone()));
        let js: Vec<Json> = (0..n).map(|i| md[i % md.len()].1.clone()).collect();
        push("all_denom_metadata", pb::enc(&msg(f)), ok("bank", "all_denom_metadata", json!({"metadata": js, "next_key": null})));
    }
    for k in ["all_balances", "denom_metadata", "all_denom_metadata", "wasm_smart", "wasm_raw", "wasm_info", "bonded_denom", "delegation", "all_delegations", "validator", "all_validators"] {
        for j in &junk {
            push(k, j.clone(), Want::Error);
        }
    }
    out
}

pub fn resps() -> &'static Vec<RespCase> {
    static T: OnceLock<Vec<RespCase>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = build_resps();
        // `core` = first of its kind overall
        let mut seen = std::collections::BTreeSet::new();
        for c in &mut v {
            c.core = seen.insert(c.kind);
        }
        v
    })
}
