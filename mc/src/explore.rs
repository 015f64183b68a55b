//! Exhaustive explorers: breadth-first over operation sequences (with state matching), and
//! complete enumeration of finite input grids. Both run the real contract code on every
//! transition / point and check the property's oracle there.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Accepted,
    /// the system refused the operation (checked by the oracle); state not explored further
    Rejected,
    /// not applicable in this state, not counted
    Skip,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub msg: String,
}
pub type Chk<T = ()> = Result<T, Violation>;

pub fn viol<T>(sig: &str, msg: impl Into<String>) -> Chk<T> {
    Err(Violation {
        sig: sig.to_string(),
        msg: msg.into(),
    })
}
/// Ensure `cond`, otherwise a violation with signature `sig`.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond { return $crate::explore::viol($sig, format!($($arg)*)); }
    };
}

pub trait Model: Sync {
    type S: Clone + Send + Sync;
    type A: Clone + Send + Sync + Debug;
    fn name(&self) -> String;
    fn init(&self) -> Vec<Self::S>;
    fn actions(&self, s: &Self::S) -> Vec<Self::A>;
    fn step(&self, s: &mut Self::S, a: &Self::A) -> Chk<Step>;
    fn hash(&self, s: &Self::S, h: &mut dyn Hasher);
}

struct DynH<'a>(&'a mut dyn Hasher);
impl<'a> Hasher for DynH<'a> {
    fn finish(&self) -> u64 {
        self.0.finish()
    }
    fn write(&mut self, b: &[u8]) {
        self.0.write(b)
    }
}
pub fn h_into<T: Hash>(t: &T, h: &mut dyn Hasher) {
    t.hash(&mut DynH(h))
}
pub fn h_chain(c: &crate::sim::Chain, h: &mut dyn Hasher) {
    c.hash_into(&mut DynH(h))
}

/// 128-bit state fingerprint: two independent SipHash-1-3 streams.
struct H2(
    std::collections::hash_map::DefaultHasher,
    std::collections::hash_map::DefaultHasher,
);
impl Hasher for H2 {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.write(b);
        self.1.write(b);
    }
}
fn key<M: Model>(m: &M, s: &M::S) -> u128 {
    use std::collections::hash_map::DefaultHasher;
    let mut a = H2(DefaultHasher::new(), DefaultHasher::new());
    a.1.write_u64(0x9e3779b97f4a7c15);
    m.hash(s, &mut a);
    ((a.0.finish() as u128) << 64) | a.1.finish() as u128
}

pub struct Ctx {
    pub property: String,
    pub thorough: bool,
    pub threads: usize,
    pub deadline: Instant,
    pub known: Vec<(String, String)>, // (sig, what)
    pub replay: Option<Value>,
    pub out: Out,
}

#[derive(Default)]
pub struct Out {
    pub states: u64,
    pub transitions: u64,
    pub rejected: u64,
    pub traces: u64,
    pub points: u64,
    pub nontrivial: u64,
    pub scenarios: Vec<Value>,
    pub samples: Vec<Value>,
    pub violations: Vec<(Violation, Value)>,
    pub known_hit: BTreeMap<String, String>,
    pub exhaustive: bool,
    pub replayed: bool,
}

pub fn guard<T>(f: impl FnOnce() -> Chk<T>) -> Chk<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => {
            let s = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            viol("panic", format!("an operation the property needs failed: {s}"))
        }
    }
}

fn label<A: Debug>(a: &A) -> String {
    format!("{a:?}")
        .chars()
        .take_while(|c| c.is_alphanumeric() || *c == '_')
        .collect()
}

impl Ctx {
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    fn is_known(&self, v: &Violation) -> bool {
        self.known.iter().any(|(s, _)| *s == v.sig)
    }

    fn note(&mut self, v: Violation, art: Value) {
        if self.is_known(&v) {
            self.out.known_hit.insert(v.sig.clone(), v.msg.clone());
        } else {
            self.out.violations.push((v, art));
        }
    }

    pub fn stop(&self) -> bool {
        !self.out.violations.is_empty() || self.out.replayed
    }

    /// Explores every operation sequence of the model's alphabet up to `depth`.
    pub fn explore<M: Model>(&mut self, m: &M, depth: usize) {
        if self.stop() {
            return;
        }
        if let Some(r) = self.replay.clone() {
            if r["kind"] == "trace" && r["scenario"] == m.name() {
                self.do_replay(m, &r);
            }
            return;
        }
        let t0 = Instant::now();
        let inits = match guard(|| Ok(m.init())) {
            Ok(i) => i,
            Err(v) => {
                let art = json!({"property":self.property,"kind":"trace","scenario":m.name(),"init":0,"steps":[],"message":v.msg,"sig":v.sig});
                self.note(v, art);
                return;
            }
        };
        const SH: usize = 64;
        let seen: Vec<Mutex<HashSet<u128>>> = (0..SH).map(|_| Mutex::new(HashSet::new())).collect();
        // parents[id] = (parent id or u32::MAX, action index or init index)
        let mut parents: Vec<(u32, u32)> = vec![];
        let mut frontier: Vec<(u32, M::S)> = vec![];
        for (i, s) in inits.into_iter().enumerate() {
            let k = key(m, &s);
            if seen[(k % SH as u128) as usize].lock().unwrap().insert(k) {
                parents.push((u32::MAX, i as u32));
                frontier.push(((parents.len() - 1) as u32, s));
            }
        }
        let mut states = frontier.len() as u64;
        let (mut trans, mut rej, mut leaves) = (0u64, 0u64, 0u64);
        let mut by_label: BTreeMap<String, [u64; 2]> = BTreeMap::new();
        let mut level_sizes = vec![frontier.len()];
        let mut done = 0;
        let mut complete = true;
        let mut found: Vec<(u32, u32, Violation)> = vec![];
        for lvl in 0..depth {
            if frontier.is_empty() {
                break;
            }
            let last = lvl + 1 == depth;
            let next_i = AtomicUsize::new(0);
            let out_of_time = AtomicBool::new(false);
            type R<S> = (Vec<(u32, u32, Option<S>)>, Vec<(u32, u32, Violation)>, [u64; 3], BTreeMap<String, [u64; 2]>);
            let results: Mutex<Vec<R<M::S>>> = Mutex::new(vec![]);
            let fr = &frontier;
            let known: Vec<String> = self.known.iter().map(|x| x.0.clone()).collect();
            std::thread::scope(|sc| {
                for _ in 0..self.threads {
                    sc.spawn(|| {
                        let mut new = vec![];
                        let mut bad: Vec<(u32, u32, Violation)> = vec![];
                        let mut cnt = [0u64; 3];
                        let mut labels: BTreeMap<String, [u64; 2]> = BTreeMap::new();
                        loop {
                            let i = next_i.fetch_add(1, Ordering::Relaxed);
                            if i >= fr.len() {
                                break;
                            }
                            if Instant::now() > self.deadline {
                                out_of_time.store(true, Ordering::Relaxed);
                                break;
                            }
                            let (id, s) = &fr[i];
                            let acts = match guard(|| Ok(m.actions(s))) {
                                Ok(a) => a,
                                Err(v) => {
                                    bad.push((*id, u32::MAX, v));
                                    continue;
                                }
                            };
                            let mut any = false;
                            for (ai, a) in acts.iter().enumerate() {
                                let mut s2 = s.clone();
                                match guard(|| m.step(&mut s2, a)) {
                                    Ok(Step::Skip) => {}
                                    Ok(Step::Rejected) => {
                                        cnt[0] += 1;
                                        cnt[1] += 1;
                                        labels.entry(label(a)).or_default()[1] += 1;
                                    }
                                    Ok(Step::Accepted) => {
                                        cnt[0] += 1;
                                        labels.entry(label(a)).or_default()[0] += 1;
                                        let k = key(m, &s2);
                                        if seen[(k % SH as u128) as usize].lock().unwrap().insert(k) {
                                            any = true;
                                            new.push((*id, ai as u32, if last { None } else { Some(s2) }));
                                        }
                                    }
                                    Err(v) => {
                                        cnt[0] += 1;
                                        let k = known.contains(&v.sig);
                                        if bad.len() < 50 || (k && !bad.iter().any(|b| b.2.sig == v.sig)) {
                                            bad.push((*id, ai as u32, v));
                                        }
                                    }
                                }
                            }
                            if !any {
                                cnt[2] += 1;
                            }
                        }
                        results.lock().unwrap().push((new, bad, cnt, labels));
                    });
                }
            });
            let mut next: Vec<(u32, M::S)> = vec![];
            let mut size = 0;
            for (new, bad, cnt, labels) in results.into_inner().unwrap() {
                trans += cnt[0];
                rej += cnt[1];
                leaves += cnt[2];
                for (l, c) in labels {
                    let e = by_label.entry(l).or_default();
                    e[0] += c[0];
                    e[1] += c[1];
                }
                found.extend(bad);
                for (p, a, s) in new {
                    size += 1;
                    if let Some(s) = s {
                        parents.push((p, a));
                        next.push(((parents.len() - 1) as u32, s));
                    } else {
                        leaves += 1;
                    }
                }
            }
            states += size;
            level_sizes.push(size as usize);
            frontier = next;
            if out_of_time.load(Ordering::Relaxed) {
                complete = false;
                break;
            }
            done = lvl + 1;
            if found.iter().any(|f| !self.is_known(&f.2)) {
                break;
            }
        }
        let trace_of = |id: u32| -> (u32, Vec<u32>) {
            let mut v = vec![];
            let mut i = id;
            loop {
                let (p, a) = parents[i as usize];
                if p == u32::MAX {
                    v.reverse();
                    return (a, v);
                }
                v.push(a);
                i = p;
            }
        };
        let describe = |init: u32, idx: &[u32]| -> Vec<Value> {
            let mut s = m.init().swap_remove(init as usize);
            let mut o = vec![];
            for i in idx {
                if *i == u32::MAX {
                    break;
                }
                let acts = m.actions(&s);
                let a = acts[*i as usize].clone();
                o.push(json!({"i": i, "op": format!("{a:?}")}));
                let _ = guard(|| m.step(&mut s, &a));
            }
            o
        };
        let mut sigs = HashSet::new();
        found.sort_by_key(|f| (f.0, f.1));
        for (id, a, v) in found {
            if !sigs.insert(v.sig.clone()) {
                continue;
            }
            let (init, mut tr) = trace_of(id);
            tr.push(a);
            let art = json!({"property":self.property,"kind":"trace","scenario":m.name(),"tier":if self.thorough {"thorough"} else {"quick"},
                "init":init,"steps":describe(init,&tr),"message":v.msg,"sig":v.sig});
            self.note(v, art);
        }
        // sample: one deepest explored trace
        if self.out.samples.len() < 6 && !parents.is_empty() {
            let (init, tr) = trace_of((parents.len() - 1) as u32);
            let d = describe(init, &tr);
            self.out
                .samples
                .push(json!({"scenario":m.name(),"trace":d.iter().map(|x| x["op"].clone()).collect::<Vec<_>>()}));
        }
        self.out.states += states;
        self.out.transitions += trans;
        self.out.rejected += rej;
        self.out.traces += leaves;
        self.out.exhaustive &= complete;
        self.out.scenarios.push(json!({"scenario":m.name(),"depth_bound":depth,"depth_completed":done,"complete":complete,
            "states":states,"transitions":trans,"rejected_by_contract":rej,"new_states_per_level":level_sizes,
            "operations":by_label.iter().map(|(k,v)| (k.clone(), json!({"accepted":v[0],"rejected":v[1]}))).collect::<serde_json::Map<_,_>>(),
            "wall_s":t0.elapsed().as_secs_f64()}));
    }

    fn do_replay<M: Model>(&mut self, m: &M, r: &Value) {
        self.out.replayed = true;
        let init = r["init"].as_u64().unwrap() as usize;
        let res = guard(|| {
            let mut s = m.init().swap_remove(init);
            for st in r["steps"].as_array().unwrap() {
                let acts = m.actions(&s);
                let i = st["i"].as_u64().unwrap() as usize;
                let a = acts
                    .get(i)
                    .filter(|a| format!("{a:?}") == st["op"].as_str().unwrap())
                    .or_else(|| acts.iter().find(|a| format!("{a:?}") == st["op"].as_str().unwrap()))
                    .cloned();
                let Some(a) = a else {
                    return viol("replay", format!("operation {} not available", st["op"]));
                };
                let o = m.step(&mut s, &a)?;
                println!("  {a:?} -> {o:?}");
            }
            Ok(())
        });
        match res {
            Ok(()) => println!("replay: no violation"),
            Err(v) => {
                println!("replay: {}", v.msg);
                self.out.violations.push((v, r.clone()));
            }
        }
    }

    /// Complete enumeration of the grid 0..n. `f` returns whether the point is non-trivial.
    pub fn grid(&mut self, name: &str, n: usize, describe: impl Fn(usize) -> Value + Sync, f: impl Fn(usize) -> Chk<bool> + Sync) {
        if self.stop() {
            return;
        }
        if let Some(r) = self.replay.clone() {
            if r["kind"] == "point" && r["scenario"] == name {
                self.out.replayed = true;
                match guard(|| f(r["index"].as_u64().unwrap() as usize)) {
                    Ok(_) => println!("replay: no violation"),
                    Err(v) => {
                        println!("replay: {}", v.msg);
                        self.out.violations.push((v, r));
                    }
                }
            }
            return;
        }
        let t0 = Instant::now();
        let tx0 = crate::sim::TXS.load(Ordering::Relaxed);
        let next = AtomicUsize::new(0);
        let done = AtomicUsize::new(0);
        let nontriv = AtomicUsize::new(0);
        let bad: Mutex<Vec<(usize, Violation)>> = Mutex::new(vec![]);
        let chunk = (n / (self.threads * 16)).clamp(1, 256);
        std::thread::scope(|sc| {
            for _ in 0..self.threads {
                sc.spawn(|| loop {
                    let a = next.fetch_add(chunk, Ordering::Relaxed);
                    if a >= n || Instant::now() > self.deadline {
                        break;
                    }
                    if bad.lock().unwrap().len() > 100 {
                        break;
                    }
                    for i in a..(a + chunk).min(n) {
                        done.fetch_add(1, Ordering::Relaxed);
                        match guard(|| f(i)) {
                            Ok(true) => {
                                nontriv.fetch_add(1, Ordering::Relaxed);
                            }
                            Ok(false) => {}
                            Err(v) => {
                                let mut b = bad.lock().unwrap();
                                b.push((i, v));
                            }
                        }
                    }
                });
            }
        });
        let d = done.into_inner();
        let nt = nontriv.into_inner();
        let mut b = bad.into_inner().unwrap();
        b.sort_by_key(|x| x.0);
        let mut sigs = HashSet::new();
        let any_bad = !b.is_empty();
        for (i, v) in b {
            if !sigs.insert(v.sig.clone()) {
                continue;
            }
            let art = json!({"property":self.property,"kind":"point","scenario":name,"index":i,"point":describe(i),"message":v.msg,"sig":v.sig,
                "tier":if self.thorough {"thorough"} else {"quick"}});
            self.note(v, art);
        }
        if self.out.samples.len() < 8 && n > 0 {
            self.out.samples.push(json!({"scenario":name,"point":describe(n*2/3)}));
        }
        self.out.points += d as u64;
        self.out.nontrivial += nt as u64;
        self.out.states += d as u64;
        let txs = crate::sim::TXS.load(Ordering::Relaxed) - tx0;
        self.out.transitions += txs;
        self.out.traces += nt as u64;
        self.out.exhaustive &= d == n || any_bad;
        self.out.scenarios.push(json!({"scenario":name,"points":n,"evaluated":d,"transactions":txs,"nontrivial":nt,"complete":d==n,"wall_s":t0.elapsed().as_secs_f64()}));
    }
}
