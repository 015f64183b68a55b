//! C01 and C02: the poll engine, driven through the enterprise-governance contract alone.
use crate::ensure;
use crate::explore::*;
use crate::sim::{code, Chain};
use crate::world::{as_u128, results, OUTCOMES};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::hash::Hasher;

const GOVADMIN: &str = "govadmin";
const E18: u128 = 1_000_000_000_000_000_000;

#[derive(Clone)]
pub struct Gc {
    pub c: Chain,
    pub g: String,
}

pub fn gov_chain() -> Gc {
    let mut c = Chain::new();
    let g = c
        .inst("deployer", code::GOVERNANCE, &json!({ "admin": GOVADMIN }), None)
        .unwrap();
    Gc { c, g }
}

impl Gc {
    fn ex(&mut self, m: Value) -> Result<(), String> {
        let g = self.g.clone();
        self.c.exec(GOVADMIN, &g, &m, &[]).map(|_| ())
    }
    fn q(&mut self, m: Value) -> Result<Value, String> {
        let g = self.g.clone();
        self.c.q(&g, &m)
    }
    fn create(&mut self, quorum: &str, threshold: &str, veto: Option<&str>, secs: u64) -> Result<(), String> {
        let ends = (self.c.nanos + secs * 1_000_000_000).to_string();
        self.ex(json!({"create_poll":{"proposer":"proposer","deposit_amount":"0","label":"l","description":"d","scheme":"coin_voting",
            "ends_at":ends,"quorum":quorum,"threshold":threshold,"veto_threshold":veto}}))
    }
    fn cast(&mut self, v: &str, p: u64, o: &str, amt: u128) -> Result<(), String> {
        self.ex(json!({"cast_vote":{"poll_id":p.to_string(),"outcome":o,"voter":v,"amount":amt.to_string()}}))
    }
    fn end(&mut self, p: u64, max: u128, early: bool, err_if_ended: bool) -> Result<(), String> {
        self.ex(json!({"end_poll":{"poll_id":p.to_string(),"maximum_available_votes":max.to_string(),
            "error_if_already_ended":err_if_ended,"allow_early_ending":early}}))
    }
    pub fn new_poll(&mut self) -> Result<(), String> {
        self.create("0.3", "0.5", None, 1000)
    }
    pub fn put(&mut self, v: &str, p: u64, o: &str, amt: u128) -> Result<(), String> {
        self.cast(v, p, o, amt)
    }
    pub fn finish(&mut self, p: u64, max: u128) -> Result<(), String> {
        self.end(p, max, true, true)
    }
    fn poll(&mut self, p: u64) -> Value {
        self.q(json!({"poll":{"poll_id":p}})).unwrap()["poll"].clone()
    }
}

/// a/b >= r (r in 1e-18 units), 0 if b == 0. Exact 256-bit comparison.
pub fn ratio_ge(a: u128, b: u128, r: u128) -> bool {
    if b == 0 {
        return r == 0;
    }
    use cosmwasm_std::Uint256;
    Uint256::from(a) * Uint256::from(E18) >= Uint256::from(r) * Uint256::from(b)
}
pub fn dec(sv: &str) -> u128 {
    let (i, f) = sv.split_once('.').unwrap_or((sv, ""));
    let mut f = f.to_string();
    while f.len() < 18 {
        f.push('0');
    }
    i.parse::<u128>().unwrap() * E18 + f.parse::<u128>().unwrap()
}

/// The outcome rule as stated: (status JSON, quorum reached, some option decided)
pub fn rule(t: [u128; 4], max: u128, quorum: u128, threshold: u128, veto: Option<u128>) -> (Value, bool, bool) {
    let [y, n, a, v] = t;
    let cast = y + n + a + v;
    let q = ratio_ge(cast, max, quorum);
    let base = cast - a;
    let vetoed = ratio_ge(v, base, veto.unwrap_or(threshold));
    let yes = ratio_ge(y, base, threshold);
    let no = ratio_ge(n, base, threshold);
    let decided = vetoed || yes || no;
    let st = if !q {
        json!({"rejected":{"reason":"quorum_not_reached"}})
    } else if vetoed {
        json!({"rejected":{"reason":"is_veto_outcome"}})
    } else if yes && no && y == n {
        json!({"rejected":{"reason":{"outcome_draw":[0,1,y.to_string()]}}})
    } else if yes && y > n || yes && !no {
        json!({"passed":{"outcome":0,"count":y.to_string()}})
    } else if no {
        json!({"rejected":{"reason":"is_rejecting_outcome"}})
    } else {
        json!({"rejected":{"reason":"threshold_not_reached"}})
    };
    (st, q, decided)
}

const QUORUMS: [&str; 5] = ["0", "0.1", "0.333333333333333333", "0.5", "1"];
const THRESHOLDS: [&str; 6] = ["0", "0.01", "0.333333333333333333", "0.5", "0.666666666666666667", "1"];
const VETOS: [Option<&str>; 6] = [None, Some("0.01"), Some("0.25"), Some("0.333333333333333334"), Some("0.5"), Some("1")];

fn c01_point(t: [u128; 4], q: &str, th: &str, ve: Option<&str>, maxes: &[u128], deep: bool) -> Chk<bool> {
    let mut g = gov_chain();
    if let Err(e) = g.create(q, th, ve, 100) {
        return viol("create", format!("a valid poll was refused: {e}"));
    }
    for (i, o) in OUTCOMES.iter().enumerate() {
        // split across two voters so that tallies come from sums
        let a = t[i] / 2;
        for (k, amt) in [a, t[i] - a].iter().enumerate() {
            if *amt > 0 {
                if let Err(e) = g.cast(&format!("voter{o}{k}"), 1, o, *amt) {
                    return viol("cast", format!("vote refused within the voting period: {e}"));
                }
            }
        }
    }
    let (dq, dt, dv) = (dec(q), dec(th), ve.map(dec));
    for &max in maxes {
        let (exp, qr, decided) = rule(t, max, dq, dt, dv);
        let d = || format!("tally {t:?} of {max}, quorum {q} threshold {th} veto {ve:?}");
        let sim = match g.q(json!({"simulate_end_poll_status":{"poll_id":1,"maximum_available_votes":max.to_string()}})) {
            Ok(s) => s,
            Err(e) => return viol("simulate", format!("{}: simulation failed: {e}", d())),
        };
        ensure!(sim["status"] == exp, "outcome", "{}: simulated {} instead of {exp}", d(), sim["status"]);
        if !deep {
            continue;
        }
        // before the end time
        for (adv, over) in [(0u64, false), (99, false), (100, true), (101, true)] {
            let mut h = g.clone();
            h.c.advance(adv, adv);
            for early in [false, true] {
                let mut k = h.clone();
                let r = k.end(1, max, early, true);
                let may = over || (early && qr && decided);
                ensure!(r.is_ok() == may, if may { "end-refused" } else { "end-too-early" },
                    "{}: end_poll {adv}s into a 100s poll, early={early}: accepted={} expected {may}", d(), r.is_ok());
                let st = k.poll(1)["status"].clone();
                if may {
                    ensure!(st == exp, "outcome", "{}: ended as {st} instead of {exp}", d());
                    // final: cannot be ended again, voted on, or changed
                    let before = k.c.digest();
                    for m2 in [max, max * 3 + 1, 1] {
                        ensure!(k.end(1, m2, true, true).is_err(), "ended-twice", "{}: a second end_poll was accepted", d());
                        ensure!(k.end(1, m2, false, true).is_err(), "ended-twice", "{}: a second end_poll was accepted", d());
                    }
                    ensure!(k.cast("late", 1, "veto", 1000).is_err(), "vote-after-end", "{}: vote accepted after the poll ended", d());
                    let _ = k.ex(json!({"update_votes":{"voter":"voteryes1","new_amount":"1000"}}));
                    ensure!(k.c.digest() == before, "ended-changed", "{}: an ended poll changed", d());
                } else {
                    ensure!(st["in_progress"].is_object(), "end-too-early", "{}: refused end changed status to {st}", d());
                }
            }
        }
    }
    Ok(true)
}

pub fn c01(ctx: &mut Ctx) {
    // small tallies, everything
    let k = ctx.q(5u128, 8u128);
    let (nq, nt, nv) = (QUORUMS.len(), THRESHOLDS.len(), VETOS.len());
    let nk = (k * k * k * k) as usize;
    let dcd = move |i: usize| {
        let (mut i, mut t) = (i, [0u128; 4]);
        let q = QUORUMS[i % nq];
        i /= nq;
        let th = THRESHOLDS[i % nt];
        i /= nt;
        let v = VETOS[i % nv];
        i /= nv;
        for x in t.iter_mut() {
            *x = i as u128 % k;
            i /= k as usize;
        }
        (t, q, th, v)
    };
    ctx.grid(
        "small-tallies",
        nk * nq * nt * nv,
        |i| json!(format!("{:?}", dcd(i))),
        |i| {
            let (t, q, th, v) = dcd(i);
            let c: u128 = t.iter().sum();
            let mut maxes = vec![0, c, c + 1, 2 * c, 3 * c + 1, 10 * c, 10 * c + 1];
            maxes.dedup();
            c01_point(t, q, th, v, &maxes, false)
        },
    );
    // ending at every kind of moment
    let k2 = ctx.q(3u128, 4u128);
    let (qs, ths, vs) = (["0.1", "0.5", "1"], ["0.01", "0.5", "1"], [None, Some("0.25"), Some("0.5")]);
    let nk2 = (k2 * k2 * k2 * k2) as usize;
    let dcd2 = move |i: usize| {
        let (mut i, mut t) = (i, [0u128; 4]);
        let q = qs[i % 3];
        i /= 3;
        let th = ths[i % 3];
        i /= 3;
        let v = vs[i % 3];
        i /= 3;
        for x in t.iter_mut() {
            *x = i as u128 % k2;
            i /= k2 as usize;
        }
        (t, q, th, v)
    };
    ctx.grid("ending", nk2 * 27, |i| json!(format!("{:?}", dcd2(i))), |i| {
        let (t, q, th, v) = dcd2(i);
        let c: u128 = t.iter().sum();
        c01_point(t, q, th, v, &[c.max(1), 2 * c, 2 * c + 1, 0], true)
    });
    // realistic magnitudes, within one unit of each boundary
    let bases: &[u128] = &[1_000_000, 999_999_999_999, 1_000_000_000_000_000_000_000_003];
    let mut pts: Vec<([u128; 4], &'static str, &'static str, Option<&'static str>, Vec<u128>)> = vec![];
    for &b in bases {
        for th in THRESHOLDS {
            for ve in VETOS {
                for q in QUORUMS {
                    let cut = |r: &str| {
                        use cosmwasm_std::Uint256;
                        let x: Uint256 = (Uint256::from(dec(r)) * Uint256::from(b) + Uint256::from(E18 - 1)) / Uint256::from(E18);
                        cosmwasm_std::Uint128::try_from(x).unwrap().u128()
                    };
                    for dy in [0i128, -1, 1] {
                        let y = (cut(th) as i128 + dy).clamp(0, b as i128) as u128;
                        let vmax = b - y;
                        for dv in [0i128, -1] {
                            let v = (cut(ve.unwrap_or(th)) as i128 + dv).clamp(0, vmax as i128) as u128;
                            let n = b - y - v;
                            for a in [0u128, b / 3] {
                                let c = b + a;
                                // totals just around the quorum
                                let mut maxes = vec![c];
                                if dec(q) > 0 {
                                    use cosmwasm_std::Uint256;
                                    let m = Uint256::from(c) * Uint256::from(E18) / Uint256::from(dec(q));
                                    let m = cosmwasm_std::Uint128::try_from(m).unwrap().u128();
                                    maxes.extend([m, m + 1]);
                                }
                                pts.push(([y, n, a, v], q, th, ve, maxes));
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.grid("boundaries", pts.len(), |i| json!(format!("{:?}", pts[i])), |i| {
        let (t, q, th, ve, m) = &pts[i];
        c01_point(*t, q, th, *ve, m, false)
    });
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone)]
struct TState {
    g: Gc,
    /// poll -> (end nanos, ended, voter -> (outcome, amount))
    m: Vec<(u64, bool, BTreeMap<&'static str, (u8, u128)>)>,
    steps: u32,
}
#[derive(Clone, Debug)]
enum TA {
    Create,
    Cast(&'static str, u64, u8, u128),
    Update(&'static str, u128),
    End(u64),
    Wait(u64),
}
struct Tally {
    voters: Vec<&'static str>,
    outcomes: Vec<u8>,
    amounts: Vec<u128>,
    updates: Vec<u128>,
    max_polls: usize,
}
const DUR: u64 = 100;

impl Tally {
    fn check(&self, s: &mut TState) -> Chk {
        let n = s.m.len() as u64;
        for p in 1..=n {
            let (_, _, votes) = s.m[p as usize - 1].clone();
            let mut exp = [0u128; 4];
            for (o, a) in votes.values() {
                exp[*o as usize] += a;
            }
            let poll = s.g.poll(p);
            let got = results(&poll["results"]);
            ensure!(got == exp, "tally", "poll {p}: totals {got:?} but recorded votes sum to {exp:?}");
            let st = s.g.q(json!({"poll_status":{"poll_id":p}})).unwrap();
            ensure!(results(&st["results"]) == exp, "tally", "poll {p}: status query totals differ");
            let pv = s.g.q(json!({"poll_voters":{"poll_id":p,"pagination":{"start_after":null,"end_at":null,"limit":null,"order_by":null}}})).unwrap();
            let got: Vec<(String, u64, u128, u64)> = pv["votes"]
                .as_array()
                .unwrap()
                .iter()
                .map(|v| (v["voter"].as_str().unwrap().into(), v["outcome"].as_u64().unwrap(), as_u128(&v["amount"]), v["poll_id"].as_u64().unwrap()))
                .collect();
            let exp: Vec<_> = votes.iter().map(|(k, (o, a))| (k.to_string(), *o as u64, *a, p)).collect();
            ensure!(got == exp, "votes", "poll {p}: votes by poll {got:?}, expected {exp:?}");
            for v in &self.voters {
                let r = s.g.q(json!({"poll_voter":{"poll_id":p.to_string(),"voter_addr":v}})).unwrap();
                let e = match votes.get(v) {
                    Some((o, a)) => json!({"poll_id":p,"voter":v,"outcome":o,"amount":a.to_string()}),
                    None => Value::Null,
                };
                ensure!(r["vote"] == e, "votes", "poll {p}: vote of {v} is {}, expected {e}", r["vote"]);
            }
        }
        for v in &self.voters {
            let r = s.g.q(json!({"voter":{"voter_addr":v,"start_after":null,"limit":null}})).unwrap();
            let got: Vec<(u64, u64, u128)> = r["votes"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| (x["poll_id"].as_u64().unwrap(), x["outcome"].as_u64().unwrap(), as_u128(&x["amount"])))
                .collect();
            let exp: Vec<_> = s
                .m
                .iter()
                .enumerate()
                .filter_map(|(i, m)| m.2.get(v).map(|(o, a)| (i as u64 + 1, *o as u64, *a)))
                .collect();
            ensure!(got == exp, "votes", "votes of {v} across polls {got:?}, expected {exp:?}");
        }
        Ok(())
    }
}

impl Model for Tally {
    type S = TState;
    type A = TA;
    fn name(&self) -> String {
        format!("tally-{}v-{}o-{}p", self.voters.len(), self.outcomes.len(), self.max_polls)
    }
    fn init(&self) -> Vec<TState> {
        vec![TState { g: gov_chain(), m: vec![], steps: 0 }]
    }
    fn actions(&self, s: &TState) -> Vec<TA> {
        let mut v = vec![];
        if s.m.len() < self.max_polls {
            v.push(TA::Create);
        }
        for p in 1..=s.m.len() as u64 {
            for u in &self.voters {
                for o in &self.outcomes {
                    for a in &self.amounts {
                        v.push(TA::Cast(u, p, *o, *a));
                    }
                }
            }
            v.push(TA::End(p));
        }
        if !s.m.is_empty() {
            for u in &self.voters {
                for a in &self.updates {
                    v.push(TA::Update(u, *a));
                }
            }
            // one nanosecond before the first poll ends, and to its end exactly
            v.push(TA::Wait(DUR - 1));
            v.push(TA::Wait(1));
        }
        v
    }
    fn step(&self, s: &mut TState, a: &TA) -> Chk<Step> {
        s.steps += 1;
        let now = s.g.c.nanos;
        let before = s.g.c.digest();
        let r = match a {
            TA::Create => {
                let r = s.g.create("0.1", "0.5", None, DUR + 50 * s.m.len() as u64);
                ensure!(r.is_ok(), "create", "poll creation refused: {r:?}");
                s.m.push((now + (DUR + 50 * s.m.len() as u64) * 1_000_000_000, false, BTreeMap::new()));
                Ok(())
            }
            TA::Cast(u, p, o, amt) => {
                let m = &mut s.m[*p as usize - 1];
                let may = !m.1 && now < m.0;
                let r = s.g.cast(u, *p, OUTCOMES[*o as usize], *amt);
                ensure!(r.is_ok() == may, if may { "vote-refused" } else { "vote-late" }, "{a:?}: accepted={} expected {may} ({r:?})", r.is_ok());
                if may {
                    m.2.insert(u, (*o, *amt));
                }
                r
            }
            TA::Update(u, amt) => {
                for m in s.m.iter_mut() {
                    if !m.1 && now < m.0 {
                        if let Some(v) = m.2.get_mut(u) {
                            v.1 = *amt;
                        }
                    }
                }
                let r = s.g.ex(json!({"update_votes":{"voter":u,"new_amount":amt.to_string()}}));
                ensure!(r.is_ok(), "update-refused", "{a:?}: {r:?}");
                r
            }
            TA::End(p) => {
                let m = &s.m[*p as usize - 1];
                let sum = |x: u8| m.2.values().filter(|v| v.0 == x).map(|v| v.1).sum::<u128>();
                let (_, q, d) = rule([sum(0), sum(1), sum(2), sum(3)], 6, dec("0.1"), dec("0.5"), None);
                let may = !m.1 && (now >= m.0 || (q && d));
                let r = s.g.end(*p, 6, true, true);
                ensure!(r.is_ok() == may, "end", "{a:?}: accepted={} expected {may}", r.is_ok());
                if may {
                    s.m[*p as usize - 1].1 = true;
                }
                r
            }
            TA::Wait(x) => {
                s.g.c.advance(1, *x);
                Ok(())
            }
        };
        if r.is_err() {
            ensure!(s.g.c.digest() == before, "rejected-changed", "{a:?} was refused but changed the state");
            self.check(s)?;
            return Ok(Step::Rejected);
        }
        self.check(s)?;
        Ok(Step::Accepted)
    }
    fn hash(&self, s: &TState, h: &mut dyn Hasher) {
        h_chain(&s.g.c, h);
        h_into(&s.m, h);
    }
}

pub fn c02(ctx: &mut Ctx) {
    let d = ctx.q(8, 11);
    ctx.explore(
        &Tally { voters: vec!["voter1", "voter2"], outcomes: vec![0, 1], amounts: vec![1, 3], updates: vec![0, 2], max_polls: 2 },
        d,
    );
    let d = ctx.q(6, 9);
    ctx.explore(
        &Tally { voters: vec!["voter1", "voter2", "voter3"], outcomes: vec![0, 1, 2, 3], amounts: vec![2], updates: vec![0, 5], max_polls: 1 },
        d,
    );
    // larger amounts and more polls per voter than any page size, one deterministic family
    let sizes = [1usize, 9, 10, 11, 30, 31, 50, 51, 100, 101, 120];
    ctx.grid("many-polls-and-voters", sizes.len() * 2, |i| json!({"n":sizes[i/2],"axis":i%2}), |i| {
        let n = sizes[i / 2];
        let mut g = gov_chain();
        let t = Tally { voters: vec!["voter1"], outcomes: vec![], amounts: vec![], updates: vec![], max_polls: 0 };
        if i % 2 == 0 {
            let mut s = TState { g: g.clone(), m: vec![], steps: 0 };
            for p in 1..=n as u64 {
                s.g.create("0.1", "0.5", None, 1000).unwrap();
                s.g.cast("voter1", p, OUTCOMES[(p % 4) as usize], 5 + p as u128).unwrap();
                s.m.push((0, false, [("voter1", ((p % 4) as u8, 5 + p as u128))].into_iter().collect()));
            }
            t.check(&mut s)?;
            s.g.ex(json!({"update_votes":{"voter":"voter1","new_amount":"3"}})).unwrap();
            for m in s.m.iter_mut() {
                m.2.get_mut("voter1").unwrap().1 = 3;
            }
            t.check(&mut s)?;
        } else {
            g.create("0.1", "0.5", None, 1000).unwrap();
            let mut exp = [0u128; 4];
            for v in 0..n {
                g.cast(&format!("voter{v:03}"), 1, OUTCOMES[v % 4], v as u128 + 1).unwrap();
                exp[v % 4] += v as u128 + 1;
            }
            ensure!(results(&g.poll(1)["results"]) == exp, "tally", "{n} voters: totals wrong");
            for v in 0..n {
                g.cast(&format!("voter{v:03}"), 1, OUTCOMES[(v + 1) % 4], 7).unwrap();
                exp[v % 4] -= v as u128 + 1;
                exp[(v + 1) % 4] += 7;
            }
            ensure!(results(&g.poll(1)["results"]) == exp, "tally", "{n} voters re-voting: totals wrong");
            let pv = g.q(json!({"poll_voters":{"poll_id":1,"pagination":{"start_after":null,"end_at":null,"limit":null,"order_by":null}}})).unwrap();
            ensure!(pv["votes"].as_array().unwrap().len() == n, "votes", "{n} voters but {} votes", pv["votes"].as_array().unwrap().len());
        }
        Ok(true)
    });
}
