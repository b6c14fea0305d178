//! C20: helper types for integrators.

use std::sync::Mutex;

use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{from_json, Addr, Api, BlockInfo, CanonicalAddr, ContractInfo, ContractResult, Empty, Env, Querier, QuerierResult, QuerierWrapper, SystemResult, Timestamp};
use sha2::{Digest, Sha256};

use cw_ica_controller::helpers::{CwIcaControllerCode, CwIcaControllerContract};
use cw_ica_controller::types::msg::{ExecuteMsg, InstantiateMsg, MigrateMsg};

use super::*;
use crate::alpha;
use crate::engine::{enumerate, Report};
use crate::props::packets::{opened, reopened};

/// Answers what it is told and records what it was asked.
struct Spy {
    answer: Option<Vec<u8>>,
    asked: Mutex<Vec<Json>>,
}
impl Querier for Spy {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        self.asked.lock().unwrap().push(serde_json::from_slice(bin).unwrap_or(Json::Null));
        SystemResult::Ok(match &self.answer {
            Some(a) => ContractResult::Ok(a.clone().into()),
            None => ContractResult::Err("no".into()),
        })
    }
}
fn spy(answer: Option<Vec<u8>>) -> Spy {
    Spy { answer, asked: Mutex::new(vec![]) }
}

fn env_of(a: &str) -> Env {
    Env { block: BlockInfo { height: 7, time: Timestamp::from_nanos(9), chain_id: "x-1".into() }, transaction: None, contract: ContractInfo { address: Addr::unchecked(a) } }
}

/// The address the chain gives to a predictable instantiation (wasmd, without fixed message).
fn predicted(checksum: &[u8], creator: &[u8], salt: &[u8]) -> Vec<u8> {
    let mut key = b"wasm\0".to_vec();
    for part in [checksum, creator, salt, &[]] {
        key.extend_from_slice(&(part.len() as u64).to_be_bytes());
        key.extend_from_slice(part);
    }
    let m = Sha256::digest(b"module");
    Sha256::digest([m.as_slice(), &key].concat()).to_vec()
}

fn json_of(m: &CosmosMsg) -> Json {
    serde_json::to_value(m).unwrap_or(Json::Null)
}

fn unwrap_msg(v: &mut Json) -> Result<Json, String> {
    // the payload is base64 in JSON
    let s = v.take();
    let b: cosmwasm_std::Binary = serde_json::from_value(s).map_err(|e| e.to_string())?;
    serde_json::from_slice(&b).map_err(|e| format!("payload: {e}"))
}

pub fn strip(v: &Json) -> Json {
    match v {
        Json::Object(o) => Json::Object(o.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), strip(v))).collect()),
        Json::Array(a) => a.iter().map(strip).collect::<Vec<_>>().into(),
        v => v.clone(),
    }
}

pub fn requests() -> Vec<Req> {
    let q = cases::query_id("balance");
    let m = cases::msg_id("bank_send");
    let mut v = vec![
        Req::Create(None),
        Req::Create(Some(opts_a())),
        Req::Create(Some(opts_b())),
        Req::Create(Some(opts_c())),
        Req::Close,
        Req::SetCb(None),
        Req::SetCb(Some(addr("cb1"))),
        Req::SetCb(Some(String::new())),
        Req::SetCb(Some("  ".into())),
        Req::SetCb(Some("null".into())),
        Req::SetCb(Some(addr("cb1").to_uppercase())),
        Req::Transfer { to: String::new(), exp: None },
        Req::Transfer { to: addr("heir").to_uppercase(), exp: None },
        Req::Transfer { to: addr("heir"), exp: None },
        Req::Transfer { to: addr("heir"), exp: Some(Exp::Never) },
        Req::Transfer { to: addr("heir"), exp: Some(Exp::Height(77)) },
        Req::Transfer { to: addr("heir"), exp: Some(Exp::Time(1_700_000_001_000_000_000)) },
        Req::Accept,
        Req::Renounce,
    ];
    for memo in [None, Some(""), Some("m\"emo")] {
        for timeout in [None, Some(0), Some(60), Some(u64::MAX)] {
            for (ms, qs) in [(vec![], vec![]), (vec![m], vec![]), (vec![m, m], vec![q]), (vec![], vec![q, q])] {
                v.push(Req::Send { msgs: ms, queries: qs, memo: memo.map(Into::into), timeout });
            }
        }
    }
    for (i, c) in cases::msgs().iter().enumerate() {
        if c.core {
            v.push(send(vec![i as u32], vec![]));
        }
    }
    for (i, c) in cases::queries().iter().enumerate() {
        if c.core {
            v.push(send(vec![], vec![i as u32]));
        }
    }
    v
}

pub fn insts() -> Vec<Json> {
    let mut v = vec![];
    for o in [None, Some(addr("owner"))] {
        for cb in [None, Some(addr("cb1"))] {
            for op in [opts_a(), opts_u(), opts_b(), opts_c()] {
                v.push(json!({"owner": o, "channel_open_init_options": op.json(), "send_callbacks_to": cb}));
            }
        }
    }
    v
}

/// The value with one of its texts replaced, each in turn (enumerated values are left alone).
pub fn texts_replaced(v: &Json, t: &str) -> Vec<Json> {
    fn walk(v: &Json, at: &str, out: &mut Vec<String>) {
        match v {
            Json::Object(o) => o.iter().for_each(|(k, v)| walk(v, &format!("{at}/{k}"), out)),
            Json::Array(a) => a.iter().enumerate().for_each(|(i, v)| walk(v, &format!("{at}/{i}"), out)),
            Json::String(_) if !["/order", "/channel_status", "/encoding", "/channel_ordering", "/at_time", "/amount"].iter().any(|e| at.ends_with(e)) => out.push(at.to_string()),
            _ => {}
        }
    }
    let mut ps = vec![];
    walk(v, "", &mut ps);
    ps.iter()
        .map(|p| {
            let mut x = v.clone();
            *x.pointer_mut(p).unwrap() = json!(t);
            x
        })
        .collect()
}

/// Every argument of every helper through its whole alphabet, one at a time.
fn one_at_a_time(rep: &mut Report, ims: &[Json]) {
    let ts: Vec<String> = alpha::strings();
    let im = |j: &Json| from_json::<InstantiateMsg>(j.to_string().as_bytes()).map_err(|e| format!("{j}: {e}"));
    let api = MockApi::default();
    let inst2 = |code: u64, sum: &[u8], creator: &str, label: &str, admin: Option<String>, salt: &str, imj: &Json| -> Result<(), String> {
        let hex: String = sum.iter().map(|b| format!("{b:02x}")).collect();
        let s = spy(Some(json!({"code_id": code, "creator": addr("uploader"), "checksum": hex}).to_string().into_bytes()));
        let q = QuerierWrapper::<Empty>::new(&s);
        let m = im(imj)?;
        let r = crate::world::guard(|| CwIcaControllerCode::new(code).instantiate2(&api, &q, &env_of(creator), m, label, admin.clone(), salt));
        if salt.is_empty() || salt.len() > 64 {
            return chk(r.is_err(), || format!("a salt of {} bytes was accepted", salt.len()));
        }
        let (msg, got) = r.map_err(|e| format!("instantiate2: {e}"))?;
        let mut v = json_of(&msg);
        let p = unwrap_msg(&mut v["wasm"]["instantiate2"]["msg"])?;
        chk(v == json!({"wasm": {"instantiate2": {"admin": admin, "code_id": code, "label": label, "msg": null, "funds": [], "salt": b64(salt.as_bytes())}}}), || format!("instantiate2 builds {v}"))?;
        chk(strip(&p) == strip(imj), || format!("payload {p}, expected {imj}"))?;
        let canon = api.addr_canonicalize(creator).map_err(|e| e.to_string())?;
        let want = api.addr_humanize(&CanonicalAddr::from(predicted(sum, canon.as_slice(), salt.as_bytes()))).map_err(|e| e.to_string())?;
        chk(got == want, || format!("address {got}, the chain derives {want}"))
    };
    let inst1 = |code: u64, label: &str, admin: Option<String>, imj: &Json| -> Result<(), String> {
        let mut v = json_of(&CwIcaControllerCode::new(code).instantiate(im(imj)?, label, admin.clone()).map_err(|e| format!("instantiate: {e}"))?);
        let p = unwrap_msg(&mut v["wasm"]["instantiate"]["msg"])?;
        chk(v == json!({"wasm": {"instantiate": {"admin": admin, "code_id": code, "msg": null, "funds": [], "label": label}}}), || format!("instantiate builds {v}"))?;
        chk(strip(&p) == strip(imj), || format!("payload {p}, expected {imj}"))
    };
    let sum: Vec<u8> = (0..32).collect();
    let me = addr("creator");
    let i0 = &ims[0];
    enumerate(rep, "texts", ts.len(), |i| {
        let t = ts[i].as_str();
        let mut n = 0;
        let mut run = || -> Result<(), String> {
            inst1(7, t, None, i0)?;
            inst1(7, t, Some(addr("admin")), i0)?;
            inst1(7, "label", Some(t.into()), i0)?;
            inst2(7, &sum, &me, t, None, "salt", i0)?;
            inst2(7, &sum, &me, "label", Some(t.into()), "salt", i0)?;
            inst2(7, &sum, &me, "label", None, t, i0)?;
            n += 6;
            for imj in ims.iter().flat_map(|m| texts_replaced(m, t)) {
                inst1(7, "label", None, &imj)?;
                inst2(7, &sum, &me, "label", None, "salt", &imj)?;
                n += 2;
            }
            let c = CwIcaControllerContract::new(Addr::unchecked(t));
            let o = CwIcaControllerContract::new(Addr::unchecked("contract"));
            chk(c.addr().as_str() == t, || "addr()".into())?;
            let v = json_of(&c.update_admin("a"));
            chk(v == json!({"wasm": {"update_admin": {"contract_addr": t, "admin": "a"}}}), || format!("update_admin builds {v}"))?;
            let v = json_of(&o.update_admin(t));
            chk(v == json!({"wasm": {"update_admin": {"contract_addr": "contract", "admin": t}}}), || format!("update_admin builds {v}"))?;
            let v = json_of(&c.clear_admin());
            chk(v == json!({"wasm": {"clear_admin": {"contract_addr": t}}}), || format!("clear_admin builds {v}"))?;
            let v = json_of(&c.migrate(MigrateMsg {}, 5).map_err(|e| e.to_string())?);
            chk(v == json!({"wasm": {"migrate": {"contract_addr": t, "new_code_id": 5, "msg": b64(b"{}")}}}), || format!("migrate builds {v}"))?;
            n += 5;
            let reqs = [
                json!({"create_channel": {"channel_open_init_options": opts_b().json()}}),
                json!({"update_callback_address": {"callback_address": "x"}}),
                json!({"update_ownership": {"transfer_ownership": {"new_owner": "x", "expiry": null}}}),
                json!({"send_cosmos_msgs": {"messages": [], "packet_memo": "x", "timeout_seconds": 5}}),
                json!({"send_cosmos_msgs": {"messages": [{"bank": {"send": {"to_address": "a", "amount": [{"denom": "d", "amount": "1"}]}}}], "queries": [{"bank": {"balance": {"address": "b", "denom": "e"}}}], "packet_memo": "x"}}),
            ];
            for r in reqs.iter().flat_map(|r| texts_replaced(r, t)) {
                // not a message
                let Ok(m) = from_json::<ExecuteMsg>(r.to_string().as_bytes()) else { continue };
                for (c, a) in [(&c, t), (&o, "contract")] {
                    let mut v = json_of(&c.execute(m.clone()).map_err(|e| format!("execute: {e}"))?);
                    let p = unwrap_msg(&mut v["wasm"]["execute"]["msg"])?;
                    chk(v == json!({"wasm": {"execute": {"contract_addr": a, "msg": null, "funds": []}}}), || format!("execute builds {v}"))?;
                    let mut p = strip(&p);
                    let mut want = strip(&r);
                    for x in [&mut p, &mut want] {
                        if let Some(o) = x.get_mut("send_cosmos_msgs").and_then(Json::as_object_mut) {
                            o.retain(|k, v| k != "queries" || *v != json!([]));
                        }
                    }
                    chk(p == want, || format!("payload {p}, expected {want}"))?;
                    n += 1;
                }
            }
            // answers
            let ep = |c: &str| json!({"port_id": "p", "channel_id": c});
            let answers = [
                json!({"channel": {"endpoint": ep("channel-0"), "counterparty_endpoint": ep("channel-9"), "order": "ORDER_UNORDERED", "version": "v", "connection_id": "c"}, "channel_status": "STATE_OPEN"}),
                json!({"ica_info": {"ica_address": "a", "channel_id": "channel-0", "encoding": "proto3"}, "callback_address": "cb"}),
                json!({"owner": "o", "pending_owner": "p", "pending_expiry": {"at_time": "5"}}),
                json!({"owner": null, "pending_owner": "p", "pending_expiry": {"at_height": 5}}),
                json!({"owner": "o", "pending_owner": "p", "pending_expiry": null}),
            ];
            for (k, a) in answers.iter().enumerate() {
                for x in texts_replaced(a, t) {
                    let s = spy(Some(x.to_string().into_bytes()));
                    let q = QuerierWrapper::<Empty>::new(&s);
                    let h = c.query(&q);
                    let r = match k {
                        0 => h.get_channel().map(serde_json::to_value),
                        1 => h.get_contract_state().map(serde_json::to_value),
                        _ => h.ownership().map(serde_json::to_value),
                    };
                    let r = r.map_err(|e| format!("{x}: {e}"))?.map_err(|e| e.to_string())?;
                    chk(strip(&x) == strip(&r), || format!("the answer {x} is returned as {r}"))?;
                    for a in s.asked.lock().unwrap().iter() {
                        chk(a["wasm"]["smart"]["contract_addr"] == json!(t), || format!("asked {a}"))?;
                    }
                    n += 1;
                }
            }
            Ok(())
        };
        run().map_err(|e| (e, json!({"text": t})))?;
        Ok(n)
    });
    let codes = alpha::u64s();
    enumerate(rep, "code ids", codes.len(), |i| {
        let c = codes[i];
        let run = || -> Result<(), String> {
            chk(CwIcaControllerCode::new(c).code_id() == c, || "code_id()".into())?;
            inst1(c, "label", None, i0)?;
            inst2(c, &sum, &me, "label", None, "salt", i0)?;
            let v = json_of(&CwIcaControllerContract::new(Addr::unchecked("x")).migrate(MigrateMsg {}, c).map_err(|e| e.to_string())?);
            chk(v == json!({"wasm": {"migrate": {"contract_addr": "x", "new_code_id": c, "msg": b64(b"{}")}}}), || format!("migrate builds {v}"))
        };
        run().map_err(|e| (e, json!({"code": c})))?;
        Ok(4)
    });
    // checksums with one byte set, creators, salts of one byte repeated
    enumerate(rep, "checksums, creators, salts", 32 * 8 + 256 + 128, |i| {
        let run = || -> Result<(), String> {
            if i < 256 {
                let mut s = vec![0u8; 32];
                s[i / 8] = 1 << (i % 8);
                inst2(7, &s, &me, "label", None, "salt", i0)?;
                return inst2(7, &s.iter().map(|b| !b).collect::<Vec<_>>(), &me, "label", Some(addr("admin")), "salt", i0);
            }
            if i < 512 {
                return inst2(7, &sum, MockApi::default().addr_make(&format!("creator{i}")).as_str(), "label", None, "salt", i0);
            }
            let c = char::from((i - 512) as u8).to_string();
            for n in [1, 2, 63, 64, 65] {
                inst2(7, &sum, &me, "label", None, &c.repeat(n), i0)?;
            }
            inst2(7, &sum, &me, "label", None, &format!("salt{c}"), i0)?;
            inst2(7, &sum, &me, "label", None, &format!("{c}salt"), i0)
        };
        run().map_err(|e| (e, json!({"case": i})))?;
        Ok(2)
    });
}

pub fn c20(rep: &mut Report, deep: bool) {
    let addrs = [addr("controller"), addr("other"), "osmo1x".to_string(), String::new(), "WASM1UPPER".to_string()];
    let reqs = requests();
    let codes = [0u64, 1, 42, (1 << 53) + 1, u64::MAX];
    let labels = ["", "ica", "lab\"el é", &"l".repeat(200)];
    let admins = [None, Some(String::new()), Some(addr("admin")), Some("x".to_string())];
    let ims = insts();
    rep.bounds.push(format!("{} requests x {} addresses; {} instantiation messages x 5 code ids x 4 labels x 4 admins; predictable addresses over 5 code ids x 4 checksums x 4 creators x 71 salts (all lengths 0..=66 and non-ASCII ones) x 4 admins; query helpers in 6 contract states x 5 addresses, with good, failing and malformed answers; each argument, payload text and answer text one at a time through an alphabet of texts, all code ids of the number alphabet, 512 checksums, 256 creators, 900 salts", reqs.len(), addrs.len(), ims.len()));
    let worlds: Vec<World> = [
        Some(step(&World::new(Params::default()), &inst(opts_a(), None)).0),
        opened(opts_a(), "cosmos1ica", None),
        opened(opts_u(), "cosmos1ica", Some(addr("cb1"))),
        reopened(opts_b(), "juno1newaccount"),
        opened(opts_a(), "cosmos1ica", None).map(|w| step(&w, &Act::CloseConfirm { ch: 0 }).0),
        opened(opts_a(), "cosmos1ica", None).map(|w| step(&w, &exec(&w.ghost.owner, Req::Transfer { to: addr("heir"), exp: Some(Exp::Height(2000)) })).0),
    ]
    .into_iter()
    .flatten()
    .collect();

    for i in [0, reqs.len() / 2, reqs.len() - 1] {
        rep.samples.push(json!({"config": "execute", "contract": addrs[i % addrs.len()], "request": reqs[i].json()}));
    }
    rep.samples.push(json!({"config": "instantiate", "message": ims[3], "code": codes[2], "label": labels[2], "admin": admins[2]}));
    // execute, update_admin, clear_admin, migrate
    enumerate(rep, "execute", reqs.len() * addrs.len(), |i| {
        let (req, to) = (&reqs[i % reqs.len()], &addrs[i / reqs.len()]);
        let case = || json!({"request": req.json(), "contract": to});
        let Ok(m) = from_json::<ExecuteMsg>(req.json().to_string().as_bytes()) else { return Ok(0) };
        let c = CwIcaControllerContract::new(Addr::unchecked(to));
        let run = || -> Result<(), String> {
            chk(c.addr().as_str() == to, || "addr()".into())?;
            let mut v = json_of(&c.execute(m.clone()).map_err(|e| format!("execute: {e}"))?);
            let p = unwrap_msg(&mut v["wasm"]["execute"]["msg"])?;
            chk(v == json!({"wasm": {"execute": {"contract_addr": to, "msg": null, "funds": []}}}), || format!("execute builds {v}"))?;
            let back: ExecuteMsg = from_json(p.to_string().as_bytes()).map_err(|e| format!("payload {p}: {e}"))?;
            chk(back == m, || format!("the payload is {p}"))?;
            // the payload has the effect of the request
            for w in &worlds {
                for from in [&w.ghost.owner, &addr("heir")] {
                    let (a, ra) = step(w, &exec(from, req.clone()));
                    let (b, rb) = step(w, &exec(from, Req::Raw(p.to_string())));
                    chk(ra.accepted == rb.accepted && a.store == b.store && format!("{:?}", ra.all_msgs()) == format!("{:?}", rb.all_msgs()), || format!("the payload {p} has another effect than the request: {} / {}", ra.err, rb.err))?;
                }
            }
            Ok(())
        };
        run().map_err(|e| (e, case()))?;
        Ok(1 + 4 * worlds.len() as u64)
    });
    enumerate(rep, "admin and migrate", addrs.len() * codes.len() * 4, |i| {
        let (to, code, admin) = (&addrs[i % addrs.len()], codes[i / addrs.len() % codes.len()], ["", "cosmos1admin", "A", "é"][i / addrs.len() / codes.len()]);
        let c = CwIcaControllerContract::new(Addr::unchecked(to));
        let run = || -> Result<(), String> {
            let v = json_of(&c.update_admin(admin));
            chk(v == json!({"wasm": {"update_admin": {"contract_addr": to, "admin": admin}}}), || format!("update_admin builds {v}"))?;
            let v = json_of(&c.clear_admin());
            chk(v == json!({"wasm": {"clear_admin": {"contract_addr": to}}}), || format!("clear_admin builds {v}"))?;
            let m: MigrateMsg = from_json(b"{}").map_err(|e| e.to_string())?;
            let mut v = json_of(&c.migrate(m, code).map_err(|e| format!("migrate: {e}"))?);
            let p = unwrap_msg(&mut v["wasm"]["migrate"]["msg"])?;
            chk(p == json!({}), || format!("migrate payload {p}"))?;
            chk(v == json!({"wasm": {"migrate": {"contract_addr": to, "new_code_id": code, "msg": null}}}), || format!("migrate builds {v}"))
        };
        run().map_err(|e| (e, json!({"contract": to, "code": code, "admin": admin})))?;
        Ok(3)
    });
    // instantiate
    enumerate(rep, "instantiate", ims.len() * codes.len() * labels.len() * admins.len(), |i| {
        let (im, i) = (&ims[i % ims.len()], i / ims.len());
        let (code, i) = (codes[i % codes.len()], i / codes.len());
        let (label, admin) = (labels[i % labels.len()], &admins[i / labels.len()]);
        let Ok(m) = from_json::<InstantiateMsg>(im.to_string().as_bytes()) else { return Ok(0) };
        let c = CwIcaControllerCode::new(code);
        let run = || -> Result<(), String> {
            chk(c.code_id() == code, || "code_id()".into())?;
            let mut v = json_of(&c.instantiate(m.clone(), label, admin.clone()).map_err(|e| format!("instantiate: {e}"))?);
            let p = unwrap_msg(&mut v["wasm"]["instantiate"]["msg"])?;
            chk(v == json!({"wasm": {"instantiate": {"admin": admin, "code_id": code, "msg": null, "funds": [], "label": label}}}), || format!("instantiate builds {v}"))?;
            chk(strip(&p) == strip(im), || format!("payload {p}, expected {im}"))
        };
        run().map_err(|e| (e, json!({"message": im, "code": code, "label": label, "admin": admin})))?;
        Ok(1)
    });
    // predictable addresses
    let mut salts: Vec<String> = (0..=66).map(|n| "s".repeat(n)).collect();
    salts.extend(["é".into(), "🚀".into(), " ".into(), "0".to_string()]);
    let creators = ["creator", "owner", "controller", "x"].map(addr);
    let sums: Vec<Vec<u8>> = vec![vec![0; 32], vec![0xff; 32], (0..32).collect(), Sha256::digest(b"code").to_vec()];
    let im = if deep { ims.clone() } else { vec![ims[0].clone(), ims[ims.len() - 1].clone()] };
    enumerate(rep, "predictable addresses", salts.len() * creators.len() * sums.len(), |i| {
        let (salt, creator, sum) = (&salts[i % salts.len()], &creators[i / salts.len() % creators.len()], &sums[i / salts.len() / creators.len()]);
        let hex: String = sum.iter().map(|b| format!("{b:02x}")).collect();
        let api = MockApi::default();
        let mut calls = 0;
        for code in codes {
            for (k, admin) in admins.iter().enumerate() {
                let im = &im[k % im.len()];
                let label = labels[k % labels.len()];
                let Ok(m) = from_json::<InstantiateMsg>(im.to_string().as_bytes()) else { continue };
                let run = || -> Result<(), String> {
                    let s = spy(Some(json!({"code_id": code, "creator": addr("uploader"), "checksum": hex}).to_string().into_bytes()));
                    let q = QuerierWrapper::<Empty>::new(&s);
                    let env = env_of(creator);
                    let r = crate::world::guard(|| CwIcaControllerCode::new(code).instantiate2(&api, &q, &env, m.clone(), label, admin.clone(), salt.as_str()));
                    if salt.is_empty() || salt.len() > 64 {
                        return chk(r.is_err(), || format!("a salt of {} bytes was accepted", salt.len()));
                    }
                    let (msg, got) = r.map_err(|e| format!("instantiate2: {e}"))?;
                    for a in s.asked.lock().unwrap().iter() {
                        chk(*a == json!({"wasm": {"code_info": {"code_id": code}}}), || format!("instantiate2 asks {a}"))?;
                    }
                    let mut v = json_of(&msg);
                    let p = unwrap_msg(&mut v["wasm"]["instantiate2"]["msg"])?;
                    chk(v == json!({"wasm": {"instantiate2": {"admin": admin, "code_id": code, "label": label, "msg": null, "funds": [], "salt": b64(salt.as_bytes())}}}), || format!("instantiate2 builds {v}"))?;
                    chk(strip(&p) == strip(im), || format!("payload {p}, expected {im}"))?;
                    let canon = api.addr_canonicalize(creator).map_err(|e| e.to_string())?;
                    let want = api.addr_humanize(&CanonicalAddr::from(predicted(sum, canon.as_slice(), salt.as_bytes()))).map_err(|e| e.to_string())?;
                    chk(got == want, || format!("address {got}, the chain derives {want}"))
                };
                run().map_err(|e| (e, json!({"salt": salt, "creator": creator, "checksum": hex, "code": code, "admin": admin})))?;
                calls += 1;
            }
        }
        // the code does not exist
        let s = spy(None);
        let q = QuerierWrapper::<Empty>::new(&s);
        if let Ok(m) = from_json::<InstantiateMsg>(ims[0].to_string().as_bytes()) {
            let r = CwIcaControllerCode::new(9).instantiate2(&api, &q, &env_of(creator), m, "l", None::<String>, salt.as_str());
            if r.is_ok() {
                return Err(("an address was predicted for a code that does not exist".into(), json!({"salt": salt})));
            }
        }
        Ok(calls + 1)
    });
    one_at_a_time(rep, &ims);
    // query helpers
    enumerate(rep, "queries", worlds.len() * addrs.len() * 3, |i| {
        let (w, to, kind) = (&worlds[i % worlds.len()], &addrs[i / worlds.len() % addrs.len()], i / worlds.len() / addrs.len());
        let (name, truth) = [("get_channel", w.q_channel()), ("get_contract_state", w.q_state()), ("ownership", w.q_owner())][kind].clone();
        let c = CwIcaControllerContract::new(Addr::unchecked(to));
        let ask = |s: &Spy| -> Result<Json, String> {
            let q = QuerierWrapper::<Empty>::new(s);
            let h = c.query(&q);
            let r = match kind {
                0 => h.get_channel().map(|x| serde_json::to_value(x)),
                1 => h.get_contract_state().map(|x| serde_json::to_value(x)),
                _ => h.ownership().map(|x| serde_json::to_value(x)),
            };
            r.map_err(|e| e.to_string())?.map_err(|e| e.to_string())
        };
        let run = || -> Result<(), String> {
            let s = spy(truth.clone().ok().map(|t| t.to_string().into_bytes()));
            let r = ask(&s);
            let mut asked = s.asked.lock().unwrap().clone();
            chk(asked.len() == 1, || format!("{} queries", asked.len()))?;
            let p = unwrap_msg(&mut asked[0]["wasm"]["smart"]["msg"])?;
            chk(asked[0] == json!({"wasm": {"smart": {"contract_addr": to, "msg": null}}}), || format!("{name} asks {}", asked[0]))?;
            let mut want = json!({});
            want[name] = json!({});
            chk(p == want, || format!("{name} asks {p}"))?;
            match (&truth, r) {
                (Ok(t), Ok(r)) => chk(strip(t) == strip(&r), || format!("{name} returns {r}, the contract answered {t}"))?,
                (Ok(t), Err(e)) => return Err(format!("{name} fails on {t}: {e}")),
                (Err(_), Ok(r)) => return Err(format!("{name} returns {r}, the contract failed")),
                (Err(_), Err(_)) => {}
            }
            chk(ask(&spy(None)).is_err(), || format!("{name} succeeds although the query failed"))?;
            chk(ask(&spy(Some(b"{".to_vec()))).is_err(), || format!("{name} succeeds on a malformed answer"))
        };
        run().map_err(|e| (e, json!({"contract": to, "query": name})))?;
        Ok(3)
    });
}
