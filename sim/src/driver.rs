//! Runs a check: many simulated runs over worker processes, then, for the first
//! violation, confirmation, minimisation and a replay file.
use crate::case::*;
use crate::judge::*;
use crate::proc::*;
use simcore::json::{self, J};
use simcore::rng::*;
use simrt::Sched;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

pub fn root() -> std::path::PathBuf {
    // sim/target/release/sim lies three folders below /verif's sim
    match std::env::var_os("SIM_ROOT") {
        Some(p) => p.into(),
        None => "/verif".into(),
    }
}

/// Numbers shared by all workers: the first violating batch, and what was seen.
struct Board(Shm);
const NSIG: usize = 1 << 24;
impl Board {
    fn new() -> Board {
        let b = Board(Shm::new(64 + 8 * (NSIG + 2)));
        b.word(0).store(u64::MAX, Relaxed);
        b
    }
    fn word(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.0.base.add(64 + 8 * i) as *const AtomicU64) }
    }
    fn min(&self) -> &AtomicU64 {
        self.word(0)
    }
    fn sig(&self, v: u64) {
        let i = self.word(1).fetch_add(1, Relaxed) as usize;
        if i < NSIG {
            self.word(2 + i).store(v, Relaxed);
        }
    }
    fn sigs(&self) -> Vec<u64> {
        let n = (self.word(1).load(Relaxed) as usize).min(NSIG);
        (0..n).map(|i| self.word(2 + i).load(Relaxed)).collect()
    }
}
/// lowest bit: 0 the outcome of a non-trivial run, 1 a schedule
fn sig_of(h: u64, sched: bool) -> u64 {
    (mix(h) << 1) | sched as u64
}

#[derive(Clone)]
pub struct Cfg {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub batches: u64,
    pub workers: u64,
    pub cap: Duration,
    pub first: u64,
}
pub struct Found {
    pub batch: u64,
    pub i: usize,
    pub v: Viol,
    pub timeout: bool,
}
#[derive(Default)]
pub struct Tally {
    pub counts: BTreeMap<String, i64>,
    pub evals: u64,
    pub batches: u64,
    pub load: u64,
    pub rechecks: u64,
    pub mismatches: Vec<u64>,
    pub harness: Vec<String>,
    pub capped: bool,
    pub hash: u64,
}
pub struct BatchRun {
    pub hash: u64,
    pub evals: u64,
    pub load: u64,
    pub counts: Vec<(String, i64)>,
    pub found: Option<Found>,
    pub harness: Option<String>,
}

/// All cases of a batch in one process (or the one plan of a batch in its processes).
fn run_batch(c: &Cfg, b: u64, shm: &Shm, board: Option<&Board>, hash_seed: u64) -> BatchRun {
    let id = c.id.as_str();
    let mut out = BatchRun { hash: 0, evals: 0, load: 0, counts: vec![], found: None, harness: None };
    if alone(id) {
        let (case, _) = Maker::new(id, c.seed, b).case(0);
        let Case::Sim(p) = &case else { unreachable!() };
        let m = run_multi(id, p, shm, 60);
        out.evals = 1;
        out.hash = m.seen.hash;
        out.load = m.seen.load;
        out.counts = m.counts;
        out.harness = m.harness;
        if let Some(v) = m.seen.viols.first() {
            out.found = Some(Found { batch: b, i: 0, v: v.clone(), timeout: v.msg.contains("time limit") });
        }
        if let Some(bd) = board {
            if m.seen.nontrivial {
                bd.sig(sig_of(m.seen.hash, false));
            }
            bd.sig(sig_of(m.sched_hash, true));
        }
        return out;
    }
    let e = in_child(shm, 90, || {
        simrt::seed_getrandom(hash_seed);
        let mk = Maker::new(id, c.seed, b);
        let mut tot: BTreeMap<String, i64> = BTreeMap::new();
        let mut viol_ = J::Null;
        let mut h = b;
        let mut hs = vec![];
        let (mut evals, mut load) = (0u64, 0u64);
        for i in 0..batch_size(id) {
            shm.mark().store(i as u32, Relaxed);
            let (case, expect) = mk.case(i);
            let mut f = Facts::default();
            let s = run_caught(id, &case, &expect, &mut f);
            evals += 1;
            load = load.max(s.load);
            h = mix2(h, s.hash);
            hs.push(s.hash);
            if let J::O(m) = counts(&f, &s) {
                for (k, v) in m {
                    *tot.entry(k).or_insert(0) += v.int();
                }
            }
            if let (Some(bd), true) = (board, s.nontrivial) {
                bd.sig(sig_of(s.hash, false));
            }
            if let Some(v) = s.viols.first() {
                viol_ = J::A(vec![json::n(i), json::s(v.class.clone()), json::s(v.msg.clone())]);
                break;
            }
        }
        let j = json::obj(vec![
            ("counts", J::O(tot.into_iter().map(|(k, v)| (k, J::I(v))).collect())),
            ("viol", viol_),
            ("hash", json::s(format!("{h:x}"))),
            ("hashes", json::arr(hs, |h| json::s(format!("{h:x}")))),
            ("evals", json::n(evals as i64)),
            ("load", json::n(load as i64)),
        ]);
        shm.put(j.dump().as_bytes());
    });
    let at = shm.mark().load(Relaxed) as usize;
    let f = |class: &str, msg: String, timeout: bool| {
        if classes(id).contains(&class) {
            Some(Found { batch: b, i: at, v: viol(class, msg), timeout })
        } else {
            None
        }
    };
    match e {
        Ended::Ok => match J::parse(&shm.get_str()) {
            Err(e) => out.harness = Some(format!("batch {b}: report: {e}")),
            Ok(j) => {
                out.hash = u64::from_str_radix(j.get("hash").str(), 16).unwrap_or(0);
                out.evals = j.get("evals").int() as u64;
                out.load = j.get("load").int() as u64;
                if let J::O(m) = j.get("counts") {
                    out.counts = m.iter().map(|(k, v)| (k.clone(), v.int())).collect();
                }
                if let J::A(v) = j.get("viol") {
                    out.found =
                        Some(Found { batch: b, i: v[0].us(), v: viol(v[1].str(), v[2].str()), timeout: false });
                }
            }
        },
        Ended::Fatal(m, _) => out.found = f("HANG", m, false),
        Ended::Crash(m) => out.found = f("CRASH", m, false),
        Ended::Timeout => out.found = f("HANG", "no end within the time limit".into(), true),
        Ended::Harness(m) => out.harness = Some(format!("batch {b} case {at}: {m}")),
    }
    out
}

fn worker(c: &Cfg, w: u64, board: &Board, shm: &Shm, rep: &Shm) {
    let t0 = Instant::now();
    let mut t = Tally::default();
    let mut found: Option<Found> = None;
    let mut b = c.first + w;
    while b < c.first + c.batches {
        if b > board.min().load(Relaxed) {
            break;
        }
        if t0.elapsed() > c.cap {
            t.capped = true;
            break;
        }
        let r = run_batch(c, b, shm, Some(board), 100);
        t.batches += 1;
        t.evals += r.evals;
        t.load = t.load.max(r.load);
        t.hash ^= mix2(b, r.hash);
        for (k, v) in r.counts {
            *t.counts.entry(k).or_insert(0) += v;
        }
        if let Some(h) = r.harness {
            t.harness.push(h);
        }
        if let Some(f) = r.found {
            board.min().fetch_min(b, Relaxed);
            found = Some(f);
            break;
        }
        // the same seed must give the same run
        let every = if alone(&c.id) { 16 } else { 8 };
        if (b - c.first) / c.workers % every == 0 {
            t.rechecks += 1;
            // another seed for the process's hash tables must change nothing either
            let r2 = run_batch(c, b, shm, None, 101 + b);
            if r2.hash != r.hash || r2.found.is_some() {
                t.mismatches.push(b);
            }
        }
        b += c.workers;
    }
    let j = json::obj(vec![
        ("counts", J::O(t.counts.iter().map(|(k, v)| (k.clone(), J::I(*v))).collect())),
        ("evals", json::n(t.evals as i64)),
        ("batches", json::n(t.batches as i64)),
        ("load", json::n(t.load as i64)),
        ("rechecks", json::n(t.rechecks as i64)),
        ("mismatches", json::arr(&t.mismatches, |b| json::n(*b as i64))),
        ("harness", json::arr(&t.harness, |h| json::s(h.clone()))),
        ("capped", J::Bool(t.capped)),
        ("hash", json::s(format!("{:x}", t.hash))),
        (
            "found",
            match found {
                None => J::Null,
                Some(f) => J::A(vec![
                    json::n(f.batch as i64),
                    json::n(f.i),
                    json::s(f.v.class),
                    json::s(f.v.msg),
                    J::Bool(f.timeout),
                ]),
            },
        ),
    ]);
    rep.put(j.dump().as_bytes());
}

/// Everything the workers saw.
pub struct Sweep {
    pub t: Tally,
    pub found: Option<Found>,
    pub outcomes: usize,
    pub schedules: usize,
    pub blocks: usize,
}
pub fn sweep(c: &Cfg) -> Sweep {
    let board = Board::new();
    let cov = Shm::new(64 + simrt::MAXG);
    set_cov(&cov);
    let reps: Vec<Shm> = (0..c.workers).map(|_| Shm::new(1 << 22)).collect();
    let shms: Vec<Shm> = (0..c.workers).map(|_| Shm::new(1 << 24)).collect();
    let pids: Vec<i32> = (0..c.workers)
        .map(|w| spawn(|| worker(c, w, &board, &shms[w as usize], &reps[w as usize])))
        .collect();
    let mut t = Tally::default();
    let mut found: Option<Found> = None;
    for (w, p) in pids.iter().enumerate() {
        let st = wait(*p);
        if st != 0 {
            t.harness.push(format!("worker {w} ended with status {st}"));
            continue;
        }
        let Ok(j) = J::parse(&reps[w].get_str()) else {
            t.harness.push(format!("worker {w}: report"));
            continue;
        };
        if let J::O(m) = j.get("counts") {
            for (k, v) in m {
                *t.counts.entry(k.clone()).or_insert(0) += v.int();
            }
        }
        t.evals += j.get("evals").int() as u64;
        t.batches += j.get("batches").int() as u64;
        t.load = t.load.max(j.get("load").int() as u64);
        t.rechecks += j.get("rechecks").int() as u64;
        t.mismatches.extend(j.get("mismatches").arr().iter().map(|x| x.int() as u64));
        t.harness.extend(j.get("harness").arr().iter().map(|x| x.str().to_string()));
        t.capped |= j.get("capped").bool();
        t.hash ^= u64::from_str_radix(j.get("hash").str(), 16).unwrap_or(0);
        if let J::A(v) = j.get("found") {
            let f = Found {
                batch: v[0].int() as u64,
                i: v[1].us(),
                v: viol(v[2].str(), v[3].str()),
                timeout: v[4].bool(),
            };
            if found.as_ref().map_or(true, |g| f.batch < g.batch) {
                found = Some(f);
            }
        }
    }
    let sigs: HashSet<u64> = board.sigs().into_iter().collect();
    let schedules = sigs.iter().filter(|x| *x & 1 == 1).count();
    let n = unsafe { simrt::GUARDS as usize + 1 };
    let covs = unsafe { std::slice::from_raw_parts(cov.base.add(64), simrt::MAXG) };
    Sweep {
        t,
        found,
        outcomes: sigs.len() - schedules,
        schedules,
        blocks: covs[..n.min(simrt::MAXG)].iter().filter(|x| **x != 0).count(),
    }
}

// ---------------------------------------------------------------- after a violation
pub struct Proof {
    pub cases: Vec<Case>,
    pub v: Viol,
    pub hash: u64,
    /// how often something smaller was tried, and how often it still failed
    pub tries: u64,
    pub hits: u64,
}
fn still(id: &str, cases: &[Case], class: &str, shm: &Shm, secs: u32) -> Option<(Viol, u64, Option<Sched>)> {
    let r = run_list(id, cases, shm, secs);
    if r.harness.is_some() {
        return None;
    }
    let v = r.viols.iter().find(|v| v.class == class)?.clone();
    Some((v, r.hash, r.trace))
}
/// Confirm in fresh processes, then make it small.
pub fn confirm(c: &Cfg, f: &Found, limit: Duration) -> Option<Proof> {
    let id = c.id.as_str();
    let shm = Shm::new(1 << 24);
    let secs = if f.timeout { 240 } else { 60 };
    let class = f.v.class.clone();
    let mk = Maker::new(id, c.seed, f.batch);
    let case = mk.case(f.i).0;
    let mut cases = vec![case];
    let mut r = still(id, &cases, &class, &shm, secs);
    if r.is_none() && f.i > 0 {
        cases = (0..=f.i).map(|i| mk.case(i).0).collect();
        r = still(id, &cases, &class, &shm, secs);
    }
    let (mut v, mut hash, trace) = r?;
    // the schedule as a list of switches
    if let (Some(t), Some(Case::Sim(p))) = (trace, cases.last()) {
        if p.threads > 1 && matches!(p.sched, Sched::Random { .. }) {
            let mut q = p.clone();
            q.sched = t;
            let mut l = cases.clone();
            *l.last_mut().unwrap() = Case::Sim(q);
            if let Some((v2, h2, _)) = still(id, &l, &class, &shm, secs) {
                (cases, v, hash) = (l, v2, h2);
            }
        }
    }
    let t0 = Instant::now();
    let (mut tries, mut hits) = (0u64, 0u64);
    if f.timeout {
        return Some(Proof { cases, v, hash, tries, hits });
    }
    let mut more = true;
    while more && t0.elapsed() < limit {
        more = false;
        // fewer cases before it
        let n = cases.len() - 1;
        if n > 0 {
            let mut w = n;
            while w >= 1 {
                let mut i = 0;
                while i < cases.len() - 1 && t0.elapsed() < limit {
                    let hi = (i + w).min(cases.len() - 1);
                    let l: Vec<Case> = cases[..i].iter().chain(&cases[hi..]).cloned().collect();
                    tries += 1;
                    if let Some((v2, h2, _)) = still(id, &l, &class, &shm, secs) {
                        (cases, v, hash) = (l, v2, h2);
                        hits += 1;
                        more = true;
                    } else {
                        i += w;
                    }
                }
                w /= 2;
            }
        }
        for stage in 0..6 {
            let mut again = true;
            while again && t0.elapsed() < limit {
                again = false;
                for s in smaller(id, cases.last().unwrap(), stage) {
                    if t0.elapsed() >= limit {
                        break;
                    }
                    let mut l = cases.clone();
                    *l.last_mut().unwrap() = s;
                    tries += 1;
                    if let Some((v2, h2, _)) = still(id, &l, &class, &shm, secs) {
                        (cases, v, hash) = (l, v2, h2);
                        hits += 1;
                        again = true;
                        more = true;
                        break;
                    }
                }
                if !matches!(cases.last(), Some(Case::Sim(_))) && stage > 1 {
                    break;
                }
            }
        }
    }
    Some(Proof { cases, v, hash, tries, hits })
}
fn op_lines(c: &Case) -> Vec<String> {
    match c {
        Case::Sim(p) => p
            .sessions
            .iter()
            .enumerate()
            .map(|(i, s)| format!("session {i}: source {:?}; {}", s.src(), s.ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join(", ")))
            .chain(std::iter::once(format!("grammar: {}", p.grammar.to_json().dump())))
            .collect(),
        c => vec![c.to_json().dump()],
    }
}
pub fn write_replay(c: &Cfg, f: &Found, p: &Proof) -> String {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-seed{}-batch{}.json", c.id, c.seed, f.batch));
    let j = json::obj(vec![
        ("property", json::s(c.id.clone())),
        ("seed", json::n(c.seed as i64)),
        ("batch", json::n(f.batch as i64)),
        ("case", json::n(f.i)),
        ("class", json::s(p.v.class.clone())),
        ("message", json::s(p.v.msg.clone())),
        ("hash", json::s(format!("{:x}", p.hash))),
        ("first_seen_as", json::s(f.v.msg.clone())),
        ("minimised", json::s(format!("{} of {} smaller runs still failed", p.hits, p.tries))),
        ("cases", json::arr(&p.cases, |c| c.to_json())),
    ]);
    let _ = std::fs::write(&path, j.dump());
    path.to_string_lossy().into_owned()
}
/// A whole batch again, in a fresh process.
fn rerun(c: &Cfg, batch: u64) -> Option<Viol> {
    let shm = Shm::new(1 << 24);
    run_batch(c, batch, &shm, None, 100).found.map(|f| f.v)
}
fn write_rerun(c: &Cfg, f: &Found, v: &Viol) -> String {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-seed{}-batch{}.json", c.id, c.seed, f.batch));
    let j = json::obj(vec![
        ("property", json::s(c.id.clone())),
        ("seed", json::s(c.seed.to_string())),
        ("batch", json::s(f.batch.to_string())),
        ("rerun", J::Bool(true)),
        ("class", json::s(v.class.clone())),
        ("message", json::s(v.msg.clone())),
    ]);
    let _ = std::fs::write(&path, j.dump());
    path.to_string_lossy().into_owned()
}
/// Run a replay file again. Exit status: 1 reproduced, 0 not.
pub fn replay(path: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let j = match J::parse(&text) {
        Ok(j) => j,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let id = j.get("property").str().to_string();
    if j.has("rerun") {
        let big = |k: &str| j.get(k).str().parse().unwrap_or(0u64);
        let c = Cfg { id: id.clone(), tier: "quick".into(), seed: big("seed"), batches: 1, workers: 1, cap: Duration::from_secs(600), first: 0 };
        return match rerun(&c, big("batch")) {
            Some(v) => {
                println!("{}: {}", v.class, v.msg);
                let exact = v.msg == j.get("message").str() && v.class == j.get("class").str();
                println!("reproduced{}", if exact { " exactly" } else { ", differently" });
                println!("VIOLATION property={id} replay={path}");
                1
            }
            None => {
                println!("no violation");
                0
            }
        };
    }
    let cases: Vec<Case> = j.get("cases").arr().iter().map(Case::from_json).collect();
    if cases.is_empty() {
        eprintln!("{path}: no cases");
        return 2;
    }
    let shm = Shm::new(1 << 24);
    let r = run_list(&id, &cases, &shm, 240);
    if let Some(h) = r.harness {
        eprintln!("harness error: {h}");
        return 2;
    }
    for c in &cases {
        for l in op_lines(c) {
            println!("{l}");
        }
    }
    for v in &r.viols {
        println!("{}: {}", v.class, v.msg);
    }
    let class = j.get("class").str();
    match r.viols.iter().find(|v| v.class == class) {
        Some(v) => {
            let exact = v.msg == j.get("message").str() && format!("{:x}", r.hash) == j.get("hash").str();
            println!("reproduced{}", if exact { " exactly" } else { ", differently" });
            println!("VIOLATION property={id} replay={path}");
            1
        }
        None if !r.viols.is_empty() => {
            println!("another violation");
            println!("VIOLATION property={id} replay={path}");
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

// ---------------------------------------------------------------- a check
fn known() -> Vec<J> {
    std::fs::read_to_string(root().join("known_findings.jsonl"))
        .unwrap_or_default()
        .lines()
        .filter(|l| !l.trim().is_empty())
        .filter_map(|l| J::parse(l).ok())
        .collect()
}
/// A listed finding is looked for by its own input, which the workloads leave out.
fn known_findings(id: &str) -> (Vec<String>, i64) {
    let shm = Shm::new(1 << 24);
    let mut out = vec![];
    let mut n = 0;
    for k in known() {
        if k.get("property").str() != id || k.get("status").str() != "open" {
            continue;
        }
        n += 1;
        let cases: Vec<Case> = k.get("cases").arr().iter().map(Case::from_json).collect();
        let r = run_list(id, &cases, &shm, 120);
        if r.viols.iter().any(|v| v.class == k.get("class").str()) {
            out.push(k.get("what").str().to_string());
        }
    }
    (out, n)
}

pub fn check(c: &Cfg) -> i32 {
    let t0 = Instant::now();
    let id = c.id.as_str();
    println!("check {id} tier={} seed={} workers={} batches={}", c.tier, c.seed, c.workers, c.batches);
    let s = sweep(c);
    let swept = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut lines = vec![];
    let mut nviol = 0;
    if let Some(f) = &s.found {
        println!("batch {} case {}: {}: {}", f.batch, f.i, f.v.class, f.v.msg);
        let limit = Duration::from_secs(std::env::var("SIM_SHRINK").ok().and_then(|x| x.parse().ok()).unwrap_or(60));
        match confirm(c, f, limit) {
            Some(p) => {
                let path = write_replay(c, f, &p);
                for case in &p.cases {
                    for l in op_lines(case) {
                        println!("  {l}");
                    }
                }
                println!("  {}: {}", p.v.class, p.v.msg);
                lines.push(format!("VIOLATION property={id} replay={path}"));
                nviol = 1;
                code = 1;
            }
            None if f.timeout => {
                println!("note: the run that hit the time limit ends when run again");
            }
            // it needs the whole batch (the derivations its sentences were written from)
            None => match rerun(c, f.batch) {
                Some(v) if v.class == f.v.class => {
                    let path = write_rerun(c, f, &v);
                    println!("  {}: {}", v.class, v.msg);
                    lines.push(format!("VIOLATION property={id} replay={path}"));
                    nviol = 1;
                    code = 1;
                }
                _ => {
                    eprintln!("harness error: a violation that does not happen again");
                    code = 2;
                }
            },
        }
    }
    if let (Some(b), 0) = (s.t.mismatches.first(), code) {
        println!("note: batches {:?} gave different results when repeated with other hash seeds", s.t.mismatches);
        if id == "S13" {
            let shm = Shm::new(1 << 24);
            let mk = Maker::new(id, c.seed, *b);
            let one = (0..batch_size(id)).find_map(|i| {
                let r = run_list(id, &[mk.case(i).0], &shm, 60);
                r.viols.into_iter().find(|v| v.class == "ORDER").map(|v| Found { batch: *b, i, v, timeout: false })
            });
            if let Some((f, p)) = one.and_then(|f| confirm(c, &f, Duration::from_secs(60)).map(|p| (f, p))) {
                let path = write_replay(c, &f, &p);
                println!("  {}: {}", p.v.class, p.v.msg);
                lines.push(format!("VIOLATION property={id} replay={path}"));
                nviol = 1;
                code = 1;
            }
        }
    }
    if !s.t.harness.is_empty() && code == 0 {
        eprintln!("harness error: {}", s.t.harness[0]);
        code = 2;
    }
    let (kf, nk) = known_findings(id);
    for k in &kf {
        println!("KNOWN-FINDING: property={id} {k}");
    }
    evidence(c, &s, swept, t0.elapsed().as_secs_f64(), nviol, nk);
    println!(
        "{} runs in {:.1} s, {} distinct outcomes, {} distinct schedules, {} basic blocks, {} repeat checks{}",
        s.t.evals,
        swept,
        s.outcomes,
        s.schedules,
        s.blocks,
        s.t.rechecks,
        if s.t.capped { ", stopped by the time limit" } else { "" }
    );
    for l in lines {
        println!("{l}");
    }
    code
}

fn evidence(c: &Cfg, s: &Sweep, swept: f64, wall: f64, nviol: i64, nk: i64) {
    let id = c.id.as_str();
    let pick = |p: &str| -> J {
        J::O(
            s.t.counts
                .iter()
                .filter(|(k, _)| k.starts_with(p))
                .map(|(k, v)| (k[p.len()..].to_string(), J::I(*v)))
                .collect(),
        )
    };
    let rest: J = J::O(
        s.t.counts
            .iter()
            .filter(|(k, _)| !k.contains(':') && *k != "virtual_ns" && *k != "steps")
            .map(|(k, v)| (k.clone(), J::I(*v)))
            .collect(),
    );
    let per_hour = |n: u64| if swept > 0.0 { (n as f64 / swept * 3600.0) as i64 } else { 0 };
    let steps = s.t.counts.get("steps").copied().unwrap_or(0);
    let mut samples = vec![];
    for k in [0, c.batches / 3, c.batches * 2 / 3] {
        let b = c.first + k;
        let i = (b as usize * 7 + 3) % batch_size(id);
        let (case, _) = Maker::new(id, c.seed, b).case(i);
        samples.push(json::obj(vec![
            ("batch", json::n(b as i64)),
            ("case", json::n(i)),
            ("run", case.to_json()),
        ]));
    }
    let (real, stub) = parts(id);
    let mut cov = json::obj(vec![
        ("evaluations", json::n(s.t.evals as i64)),
        ("distinct_nontrivial", json::n(s.outcomes)),
        ("rule", json::s(rule(id))),
        ("samples", J::A(samples)),
        ("simulated_runs_per_hour", json::n(per_hour(s.t.evals))),
        ("seeds_per_hour", json::n(per_hour(s.t.evals))),
        ("seeds", json::s(format!("every run has its own seed, derived from VERIF_SEED={}, the property, the batch and its place in the batch; batches {}..{}", c.seed, c.first, c.first + c.batches))),
        ("batches", json::n(s.t.batches as i64)),
        ("simulated_steps", json::n(steps)),
        ("faults_injected", pick("fault:")),
        ("operations", pick("op:")),
        ("probes", rest),
        ("basic_blocks_reached", json::n(s.blocks)),
        ("basic_blocks_instrumented", json::n(unsafe { simrt::GUARDS } as i64)),
        ("repeat_checks", json::n(s.t.rechecks as i64)),
        ("repeat_mismatches", json::n(s.t.mismatches.len())),
        ("outcome_digest", json::s(format!("{:x}", s.t.hash))),
        ("largest_share_of_step_budget_per_mille", json::n(s.t.load as i64)),
        ("stopped_by_time_limit", J::Bool(s.t.capped)),
        ("known_findings_open", json::n(nk)),
        ("real_components", json::arr(real, json::s)),
        ("stub_components", json::arr(stub, json::s)),
    ]);
    if alone(id) {
        cov.set("distinct_schedules", json::n(s.schedules));
        cov.set("simulated_time_s", J::F(s.t.counts.get("virtual_ns").copied().unwrap_or(0) as f64 / 1e9));
    }
    cov.set(
        "simulated_time",
        json::s(format!("{steps} steps (basic blocks, allocations and calls of the code under test); the code has no timers, so no simulated clock has to advance except for timed waits")),
    );
    let j = json::obj(vec![
        ("property", json::s(id)),
        ("tier", json::s(c.tier.clone())),
        ("seed", json::n(c.seed as i64)),
        ("level", json::s("exploration")),
        ("coverage", cov),
        ("assumptions", json::arr(assumptions(id), json::s)),
        ("wall_s", J::F(wall)),
        ("violations", json::n(nviol)),
    ]);
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{id}.json")), j.dump() + "\n");
}
fn parts(id: &str) -> (Vec<&'static str>, Vec<&'static str>) {
    let mut real = vec![
        "teleparse (parser, lexer, syntax tables, all tp:: nodes) compiled from /repo",
        "teleparse-macros: the lexicons and node types of the simulator are expanded by it from /repo",
        "logos and std (threads, locks, once cells, allocator)",
    ];
    let mut stub = vec!["futex, getrandom, clocks, sleep and sched_yield: answered by the simulator"];
    match id {
        "S01" | "S02" => real.push("OS threads, one of which runs at a time, as the seeded scheduler says"),
        "S03" => stub.push("one run in three: a scripted lexer in place of logos"),
        _ => {}
    }
    (real, stub)
}
fn rule(id: &str) -> String {
    let common = "a run is non-trivial if its source is damaged or its history has more than two operations; distinct means a different digest of all results of the run (trees, logs, errors, tables)";
    let how = match id {
        "S01" => "2 to 6 threads make first use of 1 to 3 root types of a random grammar (tables, parses, assertions, interruptions by panic) under a random schedule; every result is compared with the same operations of each thread alone in a fresh process. Non-trivial: more than one session; distinct: digest of all results and of the schedule",
        "S02" => "2 to 5 sessions with random histories over damaged sources, their operations spread over 1 to 4 threads and handed between threads, under a random schedule; compared with each session alone. Non-trivial: more than one session; distinct: digest of all results and of the schedule",
        "S03" => "random histories of session operations over damaged sources, interrupted parses included; one third over a scripted lexer that stalls, panics, yields garbage and runs of extracted tokens",
        "S04" => "sources written by a random grammar or from pieces of four lexicons, then damaged; whole sources and through a session",
        "S12" => "random histories and lookups over logs of damaged sources; one fifth over lexicons of 8 to 31 token types",
        "S13" => "random grammars, two thirds of them with conflicts or left recursion; registered in several orders, with types renumbered; distinct: digest of verdict and tables",
        _ => "sentences of a random grammar (shared by 40 runs), damaged by a random subset of 18 fault kinds, parsed in a random session history; compared operation by operation with a reference parser",
    };
    if id == "S13" && !cfg!(feature = "internals") {
        format!("{how}; {common}. The library's inner types have another shape than the simulator knows: set algebra, internal symbols, renaming and the named claims of a rejection were left out")
    } else if matches!(id, "S01" | "S02") {
        how.to_string()
    } else {
        format!("{how}; {common}")
    }
}
fn assumptions(id: &str) -> Vec<&'static str> {
    let mut v = vec!["sampling: a clean run is evidence, not proof", "the reference (sim/core) says what the documentation and the properties say"];
    match id {
        "S01" | "S02" => v.push("sequentially consistent memory: one thread runs at a time; weak-memory effects are not simulated"),
        "S04" => v.push("four lexicons, in which no unfinished beginning of a token is longer than one character without being a token itself, and repeated multi-byte classes stay within one first byte (the two listed findings about logos)"),
        _ => {}
    }
    v
}
