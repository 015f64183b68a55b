//! C20: every paginated list, at sizes around and beyond the page maxima, for every page size of
//! interest and every starting point.
use super::access::deploy;
use super::create::meta_change;
use super::outpost::{callback, derived};
use super::poll::{gov_chain, Gc};
use crate::ensure;
use crate::explore::*;
use crate::sim::Chain;
use crate::world::*;
use serde_json::{json, Value};

type Page = Box<dyn Fn(&mut Chain, &Option<Value>, Option<u64>) -> Result<Vec<Value>, String> + Sync + Send>;
struct List {
    c: Chain,
    /// keys of all entries, in order
    keys: Vec<Value>,
    /// largest page
    max: usize,
    page: Page,
}

fn arr(v: &Value, list: &str, key: &[&str]) -> Vec<Value> {
    v[list]
        .as_array()
        .unwrap_or_else(|| panic!("no {list} in {v}"))
        .iter()
        .map(|x| key.iter().fold(x.clone(), |a, k| a[*k].clone()))
        .collect()
}
/// a list answered by `addr` to `{msg: {extra.., start_after, limit}}`
fn simple(c: Chain, keys: Vec<Value>, max: usize, addr: &str, msg: &'static str, extra: Value, list: &'static str, key: &'static [&'static str]) -> List {
    let addr = addr.to_string();
    List {
        c,
        keys,
        max,
        page: Box::new(move |c, sa, l| {
            let mut q = extra.clone();
            q["start_after"] = sa.clone().unwrap_or(Value::Null);
            q["limit"] = json!(l);
            Ok(arr(&c.q(&addr, &json!({ msg: q }))?, list, key))
        }),
    }
}

/// distinct names whose order differs from their creation order
fn name(k: usize) -> String {
    format!("m{:03}x", (k * 37) % 401)
}
fn names(n: usize) -> Vec<String> {
    (0..n).map(name).collect()
}
fn sorted(mut v: Vec<String>) -> Vec<Value> {
    v.sort();
    v.into_iter().map(Value::String).collect()
}

fn members(kind: Kind, n: usize) -> List {
    let mut cfg = Cfg::new(kind);
    cfg.members = vec![("m000x".into(), 1)];
    let mut w = World::new(&cfg);
    let us = names(n);
    match kind {
        Kind::Multisig => {
            let l: Vec<(&str, u128)> = us.iter().enumerate().map(|(i, u)| (u.as_str(), 1 + i as u128)).collect();
            w.set_members(&l).unwrap();
        }
        Kind::Denom => {
            for (i, u) in us.iter().enumerate() {
                w.stake_for(ADMIN, u, 1 + i as u128).unwrap();
            }
        }
        Kind::Token => {
            let t = w.token.clone();
            w.ex(ADMIN, &t, json!({"mint":{"recipient":ADMIN,"amount":"100000"}}), &[]).unwrap();
            for (i, u) in us.iter().enumerate() {
                w.stake_for(ADMIN, u, 1 + i as u128).unwrap();
            }
        }
        Kind::Nft => {
            let nft = w.nft.clone();
            for u in &us {
                let id = format!("n{u}");
                w.ex(ADMIN, &nft, json!({"mint":{"token_id":id,"owner":ADMIN,"token_uri":null,"extension":null}}), &[]).unwrap();
                w.stake_nft(ADMIN, u, &id).unwrap();
            }
        }
    }
    let m = w.d.membership.clone();
    simple(w.c, sorted(us), 100, &m, "members", json!({}), "members", &["user"])
}

fn nft_stakes(own: bool, n: usize) -> List {
    let mut w = World::new(&Cfg::new(Kind::Nft));
    let (m, nft) = (w.d.membership.clone(), w.nft.clone());
    let ids = names(n);
    for (i, id) in ids.iter().enumerate() {
        w.ex(ADMIN, &nft, json!({"mint":{"token_id":id,"owner":ADMIN,"token_uri":null,"extension":null}}), &[]).unwrap();
        // in the user's list, others' stakes lie in between
        let u = if own || i % 3 != 2 { "usera" } else { "userb" };
        w.stake_nft(ADMIN, u, id).unwrap();
        if own {
            let o = format!("o{id}");
            w.ex(ADMIN, &nft, json!({"mint":{"token_id":o,"owner":ADMIN,"token_uri":null,"extension":null}}), &[]).unwrap();
            w.stake_nft(ADMIN, if i % 2 == 0 { "user" } else { "usera1" }, &o).unwrap();
        }
    }
    if own {
        simple(w.c, sorted(ids), 100, &m, "user_stake", json!({"user":"usera"}), "tokens", &[])
    } else {
        simple(w.c, sorted(ids), 100, &m, "staked_nfts", json!({}), "nfts", &[])
    }
}

fn whitelist(n: usize) -> List {
    let mut w = World::new(&Cfg::new(Kind::Multisig));
    let (t, g) = (w.d.treasury.clone(), w.d.controller.clone());
    let us = names(n);
    let (mut a, mut b) = (vec![], vec![]);
    for (i, u) in us.iter().enumerate() {
        match i % 4 {
            0 | 3 => a.push(u.clone()),
            _ => b.push(u.clone()),
        }
    }
    let add: Vec<Value> = a
        .iter()
        .map(|x| native(x))
        .chain(b.iter().map(|x| cw20(x)))
        .rev()
        .collect();
    w.ex(&g, &t, json!({"update_asset_whitelist":{"add":add,"remove":[]}}), &[]).unwrap();
    a.sort();
    b.sort();
    let keys = a
        .iter()
        .map(|x| native(x))
        .chain(b.iter().map(|x| cw20(x)))
        .collect();
    simple(w.c, keys, 100, &t, "asset_whitelist", json!({}), "assets", &[])
}
fn nft_whitelist(n: usize) -> List {
    let mut w = World::new(&Cfg::new(Kind::Multisig));
    let (t, g) = (w.d.treasury.clone(), w.d.controller.clone());
    let us = names(n);
    w.ex(&g, &t, json!({"update_nft_whitelist":{"add":us,"remove":[]}}), &[]).unwrap();
    simple(w.c, sorted(us), 100, &t, "nft_whitelist", json!({}), "nfts", &[])
}

fn versions(n: usize) -> List {
    let mut w = World::base(&[]);
    // all combinations of small and two-digit numbers; 1.0.0 is registered already
    let mut vs: Vec<(u64, u64, u64)> = vec![(1, 0, 0)];
    let d = [0u64, 1, 2, 9, 10, 11, 255, 256];
    'o: for k in 0..512 {
        if vs.len() >= n {
            break 'o;
        }
        let k = (k * 211) % 512;
        let v = (d[k % 8], d[k / 8 % 8], d[k / 64]);
        if !vs.contains(&v) {
            vs.push(v);
            let a = w.versioning.clone();
            w.ex(ADMIN, &a, json!({"add_version":{"version":version_info(v,2)}}), &[]).unwrap();
        }
    }
    vs.sort();
    let keys = vs.iter().map(|v| json!({"major":v.0,"minor":v.1,"patch":v.2})).collect();
    let a = w.versioning.clone();
    simple(w.c, keys, 50, &a, "versions", json!({}), "versions", &["version"])
}

fn daos(n: usize) -> List {
    let mut w = World::base(&[]);
    let mut cfg = Cfg::new(Kind::Multisig);
    cfg.members = vec![("usera".into(), 1)];
    for _ in 0..n {
        w.create(&cfg).unwrap();
    }
    let keys = (1..=n).map(|i| json!(i.to_string())).collect();
    let f = w.factory.clone();
    simple(w.c, keys, 100, &f, "all_daos", json!({}), "daos", &["dao_id"])
}
/// Earlier releases recorded the enterprise code ids they used; the list stays in the factory's
/// state, so it is put there the way they left it.
fn code_ids(n: usize) -> List {
    let mut w = World::base(&[]);
    let mut ids: Vec<u64> = (0..n as u64).map(|k| 1 + (k * 37) % 401).collect();
    let f = w.factory.clone();
    for id in &ids {
        let mut k = vec![0, 19];
        k.extend(b"enterprise_code_ids");
        k.extend(id.to_be_bytes());
        w.c.put(&f, k, b"null".to_vec());
    }
    ids.sort();
    let keys = ids.iter().map(|i| json!(i.to_string())).collect();
    simple(w.c, keys, 100, &f, "enterprise_code_ids", json!({}), "code_ids", &[])
}

fn chains(n: usize) -> List {
    let mut w = World::new(&Cfg::new(Kind::Multisig));
    let (g, o) = (w.d.controller.clone(), w.d.outposts.clone());
    let us = names(n);
    let mut id = 0;
    for u in &us {
        w.ex(&g, &o, deploy(u), &[]).unwrap();
        for a in ["proxy", "treasury"] {
            id += 1;
            w.ex(&derived("channel-1", &format!("gproxy{u}")), &o, callback(id, &format!("{a}{u}")), &[]).unwrap();
        }
    }
    simple(w.c, sorted(us), 100, &o, "cross_chain_treasuries", json!({}), "treasuries", &["chain_id"])
}

/// proposals of both types in all three states, ids interleaved
fn proposals(filter: Option<&'static str>, n: usize) -> List {
    let mut cfg = Cfg::new(Kind::Multisig);
    cfg.members = vec![("usera".into(), 3), ("userb".into(), 1)];
    cfg.gov.early = true;
    cfg.council = Some(Council::new(&["usera", "userb"], "0.3", "0.5", Some(&["update_metadata"])));
    let mut w = World::new(&cfg);
    let mut keys: Vec<Value> = vec![];
    let mut k = 0;
    while keys.len() < n {
        // every combination of type and fate, in a fixed shuffled order
        let council = k % 5 == 1 || k % 7 == 2;
        let fate = (k / 2 + k % 3 + k / 6) % 3;
        let a = vec![meta_change("name", json!(format!("n{k}")))];
        let id = if council { w.propose_council("usera", a) } else { w.propose("usera", a) }.unwrap();
        if fate > 0 {
            let o = if fate == 1 { "yes" } else { "no" };
            for u in ["usera", "userb"] {
                if council { w.council_vote(u, id, o) } else { w.vote(u, id, o) }.unwrap();
            }
            w.execute("mallory", id).unwrap();
        }
        if filter.map_or(true, |f| ["in_progress", "passed", "rejected"][fate] == f) {
            keys.push(json!(id));
        }
        k += 1;
    }
    let g = w.d.controller.clone();
    simple(w.c, keys, 100, &g, "proposals", json!({ "filter": filter }), "proposals", &["proposal", "id"])
}

fn proposal_votes(n: usize) -> List {
    let mut cfg = Cfg::new(Kind::Multisig);
    let us = names(n.max(1));
    cfg.members = us.iter().map(|u| (u.clone(), 2)).collect();
    let mut w = World::new(&cfg);
    let mut p = 0;
    for k in 0..3 {
        let id = w.propose(&us[0], vec![]).unwrap();
        if k == 1 {
            p = id;
        }
    }
    for (i, u) in us.iter().enumerate() {
        // the neighbouring proposals have votes of their own
        for q in [p - 1, p, p + 1] {
            if q == p && i < n || i % 2 == 0 && q != p {
                w.vote(u, q, OUTCOMES[i % 4]).unwrap();
            }
        }
    }
    let keys = sorted(us.into_iter().take(n).collect());
    let g = w.d.controller.clone();
    simple(w.c, keys, 100, &g, "proposal_votes", json!({ "proposal_id": p }), "votes", &["voter"])
}

fn drive(i: &List, limits: &[Option<u64>], all_starts: bool) -> Chk {
    let mut c = i.c.clone();
    let n = i.keys.len();
    let eff = |l: Option<u64>| l.map_or(i.max, |x| (x as usize).min(i.max));
    for l in limits {
        let mut sa: Option<Value> = None;
        let mut seen: Vec<Value> = vec![];
        loop {
            let p = match (i.page)(&mut c, &sa, *l) {
                Ok(p) => p,
                Err(e) => return viol("error", format!("listing after {sa:?} with limit {l:?} fails: {e}")),
            };
            ensure!(p.len() <= eff(*l), "page-too-long", "{} entries for limit {l:?} (maximum {})", p.len(), i.max);
            if p.is_empty() {
                break;
            }
            if l.is_some() {
                ensure!(
                    p.len() == eff(*l).min(n.saturating_sub(seen.len())),
                    "short-page",
                    "page of {} after {sa:?} with limit {l:?}, {} entries seen of {n}",
                    p.len(),
                    seen.len()
                );
            }
            sa = p.last().cloned();
            seen.extend(p);
            ensure!(seen.len() <= n + 1, "repeated", "more entries than exist ({n}) with limit {l:?}: {seen:?}");
        }
        if seen != i.keys {
            let missing: Vec<&Value> = i.keys.iter().filter(|k| !seen.contains(k)).collect();
            let extra: Vec<&Value> = seen.iter().filter(|k| !i.keys.contains(k)).collect();
            return viol("wrong-entries", format!("paging with limit {l:?} over {n} entries: missing {missing:?}, unexpected {extra:?}, seen {}", seen.len()));
        }
    }
    // from every entry (and from between entries where keys are strings)
    if all_starts {
        for (k, key) in i.keys.iter().enumerate() {
            for l in [1u64, 2, 1000] {
                let p = (i.page)(&mut c, &Some(key.clone()), Some(l)).map_err(|e| Violation { sig: "error".into(), msg: e })?;
                let e: Vec<Value> = i.keys[k + 1..].iter().take(eff(Some(l))).cloned().collect();
                ensure!(p == e, "wrong-page", "page of {l} after {key}: {p:?}, expected {e:?}");
            }
        }
    }
    Ok(())
}

const LISTS: [(&str, fn(usize) -> List); 18] = [
    ("token members", |n| members(Kind::Token, n)),
    ("denom members", |n| members(Kind::Denom, n)),
    ("nft members", |n| members(Kind::Nft, n)),
    ("multisig members", |n| members(Kind::Multisig, n)),
    ("user's staked nfts", |n| nft_stakes(true, n)),
    ("all staked nfts", |n| nft_stakes(false, n)),
    ("asset whitelist", whitelist),
    ("nft whitelist", nft_whitelist),
    ("versions", versions),
    ("daos", daos),
    ("enterprise code ids", code_ids),
    ("cross-chain treasuries", chains),
    ("proposals", |n| proposals(None, n)),
    ("proposals in progress", |n| proposals(Some("in_progress"), n)),
    ("proposals passed", |n| proposals(Some("passed"), n)),
    ("proposals rejected", |n| proposals(Some("rejected"), n)),
    ("proposal votes", proposal_votes),
    ("council members", |n| {
        let us = names(n.max(1));
        let mut cfg = Cfg::new(Kind::Denom);
        cfg.council = Some(Council::new(&us.iter().map(|x| x.as_str()).collect::<Vec<_>>(), "0.3", "0.5", None));
        let w = World::new(&cfg);
        let m = w.d.council.clone();
        simple(w.c, sorted(us), 100, &m, "members", json!({}), "members", &["user"])
    }),
];

pub fn c20(ctx: &mut Ctx) {
    let sizes: Vec<usize> = ctx.q(vec![0, 1, 2, 3, 5, 10, 11, 29, 30, 31, 49, 50, 51, 52, 99, 100, 101, 130], (0..=140).chain([200, 201, 255, 256, 257, 301]).collect());
    let ls: Vec<Option<u64>> = [1u64, 2, 3, 7, 9, 10, 11, 29, 30, 31, 49, 50, 51, 99, 100, 101, 127, 128, 255, 256, 257, 300, 65536, u32::MAX as u64]
        .iter()
        .map(|x| Some(*x))
        .chain([None])
        .collect();
    let ns = sizes.len();
    ctx.grid(
        "lists",
        LISTS.len() * ns,
        |i| json!(format!("{} entries in {}", sizes[ns - 1 - i / LISTS.len()], LISTS[i % LISTS.len()].0)),
        |i| {
            let l = LISTS[i % LISTS.len()].1(sizes[ns - 1 - i / LISTS.len()]);
            drive(&l, &ls, true)?;
            Ok(true)
        },
    );
    polls(ctx);
}

/// The governance contract's own lists: filter, bounds on both sides, both orders.
fn polls(ctx: &mut Ctx) {
    let sets = ctx.q(vec![1usize, 4, 9], vec![0, 1, 2, 3, 4, 7, 9, 14]);
    ctx.grid(
        "polls",
        sets.len() * 3usize.pow(3),
        |i| json!(format!("{} polls, fates shifted by {}", sets[i % sets.len()], i / sets.len())),
        |i| {
            let n = sets[i % sets.len()];
            let shift = i / sets.len();
            let fate = |k: usize| (shift / 3usize.pow((k % 3) as u32) + k / 3) % 3;
            let mut g: Gc = gov_chain();
            let a = g.g.clone();
            let voters = ["vva", "vvb", "vvc", "vvd", "vve"];
            let casts = |k: usize, v: usize| (k * 3 + v * 5 + shift) % 4 != 0;
            for k in 0..n {
                g.new_poll().unwrap();
                for (v, u) in voters.iter().enumerate() {
                    if casts(k, v) {
                        g.put(u, k as u64 + 1, OUTCOMES[(k + v) % 4], 1 + v as u128).unwrap();
                    }
                }
                if fate(k) > 0 {
                    for u in voters {
                        g.put(u, k as u64 + 1, if fate(k) == 1 { "yes" } else { "no" }, 1).unwrap();
                    }
                    g.finish(k as u64 + 1, 5).unwrap();
                }
            }
            let fs = ["in_progress", "passed", "rejected"];
            let bounds: Vec<Option<u64>> = (0..=n as u64 + 1).map(Some).chain([None]).collect();
            for f in [None, Some(0), Some(1), Some(2)] {
                let ids: Vec<u64> = (0..n).filter(|k| f.map_or(true, |x| fate(*k) == x)).map(|k| k as u64 + 1).collect();
                for sa in &bounds {
                    for ea in &bounds {
                        for l in [None, Some(1u64), Some(2), Some(3), Some(100)] {
                            for ord in [None, Some("ascending"), Some("descending")] {
                                if ord == Some("descending") && sa.is_some() {
                                    continue;
                                }
                                let r = g.c.q(&a, &json!({"polls":{"filter":f.map(|x|fs[x]),"pagination":{"start_after":sa.map(|x|x.to_string()),"end_at":ea.map(|x|x.to_string()),"limit":l,"order_by":ord}}}));
                                let Ok(r) = r else { return viol("error", format!("{r:?}")) };
                                let got: Vec<u64> = r["polls"].as_array().unwrap().iter().map(|x| x["id"].as_u64().unwrap()).collect();
                                let mut e: Vec<u64> = ids.iter().filter(|x| sa.map_or(true, |s| **x > s) && ea.map_or(true, |s| **x <= s)).cloned().collect();
                                if ord == Some("descending") {
                                    e.reverse();
                                }
                                e.truncate(l.unwrap_or(1000) as usize);
                                ensure!(got == e, "polls", "filter {f:?} after {sa:?} until {ea:?} limit {l:?} {ord:?}: {got:?}, expected {e:?}");
                            }
                        }
                    }
                }
            }
            // votes of one voter across polls
            for (v, u) in voters.iter().enumerate() {
                let ids: Vec<u64> = (0..n).filter(|k| casts(*k, v) || fate(*k) > 0).map(|k| k as u64 + 1).collect();
                for sa in &bounds {
                    for l in [None, Some(1u64), Some(2), Some(100)] {
                        let r = g.c.q(&a, &json!({"voter":{"voter_addr":u,"start_after":sa,"limit":l}}));
                        let Ok(r) = r else { return viol("error", format!("{r:?}")) };
                        let got: Vec<u64> = r["votes"].as_array().unwrap().iter().map(|x| x["poll_id"].as_u64().unwrap()).collect();
                        let mut e: Vec<u64> = ids.iter().filter(|x| sa.map_or(true, |s| **x > s)).cloned().collect();
                        e.truncate(l.unwrap_or(1000) as usize);
                        ensure!(got == e, "voter", "votes of {u} after {sa:?} limit {l:?}: {got:?}, expected {e:?}");
                    }
                }
            }
            // voters of one poll
            for k in 0..n {
                let us: Vec<&str> = (0..5).filter(|v| casts(k, *v) || fate(k) > 0).map(|v| voters[v]).collect();
                let names: Vec<Option<&str>> = ["aaa", "vva", "vvb", "vvc", "vvd", "vve", "zzz"].into_iter().map(Some).chain([None]).collect();
                for sa in &names {
                    for ea in &names {
                        for l in [None, Some(1u64), Some(2), Some(100)] {
                            for ord in [None, Some("descending")] {
                                if ord.is_some() && sa.is_some() {
                                    continue;
                                }
                                let r = g.c.q(&a, &json!({"poll_voters":{"poll_id":k+1,"pagination":{"start_after":sa,"end_at":ea,"limit":l,"order_by":ord}}}));
                                let Ok(r) = r else { return viol("error", format!("{r:?}")) };
                                let got: Vec<&str> = r["votes"].as_array().unwrap().iter().map(|x| x["voter"].as_str().unwrap()).collect();
                                let mut e: Vec<&str> = us.iter().filter(|x| sa.map_or(true, |s| **x > s) && ea.map_or(true, |s| **x <= s)).cloned().collect();
                                if ord.is_some() {
                                    e.reverse();
                                }
                                e.truncate(l.unwrap_or(1000) as usize);
                                ensure!(got == e, "poll-voters", "voters of poll {} after {sa:?} until {ea:?} limit {l:?} {ord:?}: {got:?}, expected {e:?}", k + 1);
                            }
                        }
                    }
                }
            }
            Ok(n > 0)
        },
    );
}
