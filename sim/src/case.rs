//! One simulated case, how it is made for a property, run, judged and made smaller.
use crate::judge::*;
use crate::plan::*;
use crate::proc::*;
use crate::real;
use crate::script::*;
use crate::sets::Sets;
use crate::tab::*;
use crate::work;
use simcore::gram::*;
use simcore::json::{self, J};
use simcore::lx::*;
use simcore::rng::*;
use simcore::tree::*;
use simrt::{quiet, Sched};

#[derive(Clone, Debug)]
pub enum Case {
    Sim(Plan),
    Script(Script),
    /// lexicon (0 Lx, 1 Lb, 2 Lc, 3 Ld; 4 Le only for listed findings), source
    Lex(u8, String),
    Sized(Sized_),
    Tab(Tab),
    Sets(Sets),
}
impl Case {
    pub fn to_json(&self) -> J {
        let (k, j) = match self {
            Case::Sim(p) => ("sessions", p.to_json()),
            Case::Script(s) => ("scripted_lexer", s.to_json()),
            Case::Lex(l, s) => ("lexer", json::obj(vec![("lexicon", json::n(*l)), ("source", json::s(s.clone()))])),
            Case::Sized(s) => ("word_size", s.to_json()),
            Case::Tab(t) => ("tables", t.to_json()),
            Case::Sets(t) => ("sets", t.to_json()),
        };
        json::obj(vec![(k, j)])
    }
    pub fn from_json(j: &J) -> Case {
        if j.has("sessions") {
            Case::Sim(Plan::from_json(j.get("sessions")))
        } else if j.has("scripted_lexer") {
            Case::Script(Script::from_json(j.get("scripted_lexer")))
        } else if j.has("lexer") {
            let l = j.get("lexer");
            Case::Lex(l.get("lexicon").int() as u8, l.get("source").str().into())
        } else if j.has("word_size") {
            Case::Sized(Sized_::from_json(j.get("word_size")))
        } else if j.has("sets") {
            Case::Sets(Sets::from_json(j.get("sets")))
        } else {
            Case::Tab(Tab::from_json(j.get("tables")))
        }
    }
}

/// Which differences are violations of which property.
pub fn classes(id: &str) -> &'static [&'static str] {
    match id {
        "S01" => &["DIFFER", "ONCE", "PANIC", "HANG", "CRASH", "VERDICT"],
        "S02" => &["DIFFER", "ONCE", "PANIC", "HANG", "CRASH"],
        "S03" => &["ACCOUNT", "PANIC", "HANG", "CRASH"],
        "S04" => &["LEX", "PANIC", "HANG", "CRASH"],
        "S05" => &["CLEAN", "PANIC", "HANG", "CRASH"],
        "S06" => &["BACKWARD", "NOPROGRESS", "PANIC", "HANG", "CRASH"],
        "S07" => &["TREE", "TOKENS", "PANIC", "HANG", "CRASH"],
        "S08" => &["LIT", "TREE", "TOKENS", "ERRORS", "SPAN", "PANIC", "HANG", "CRASH"],
        "S09" => &["ERRORS", "MSG", "SILENT", "PANIC", "HANG", "CRASH"],
        "S10" => &["SPAN", "TEXT", "SPANINV", "PANIC", "HANG", "CRASH"],
        "S11" => &["MARKS", "PANIC", "HANG", "CRASH"],
        "S12" => &["QUERY", "PANIC", "HANG", "CRASH"],
        _ => &["VERDICT", "CLAIM", "FIRST", "FOLLOW", "JUMP", "ORDER", "PANIC", "HANG", "CRASH"],
    }
}
/// every case has its own processes
pub fn alone(id: &str) -> bool {
    matches!(id, "S01" | "S02")
}
pub fn batch_size(id: &str) -> usize {
    if alone(id) {
        1
    } else {
        40
    }
}

// ---------------------------------------------------------------- making
pub struct Maker {
    id: String,
    seed: u64,
    g: Option<Grammar>,
}
impl Maker {
    pub fn new(id: &str, seed: u64, batch: u64) -> Maker {
        let seed = mix2(mix2(seed, hash_bytes(0, id.as_bytes())), batch);
        let g = if id == "S13" { None } else { Some(work::batch_grammar(id, &mut Rng::new(seed))) };
        Maker { id: id.into(), seed, g }
    }
    /// the i-th case of the batch, with the derivation its source was made from
    pub fn case(&self, i: usize) -> (Case, Option<(usize, D)>) {
        let mut r = Rng::new(mix2(self.seed, i as u64 + 1));
        let id = self.id.as_str();
        let g = self.g.as_ref();
        (
            match id {
                "S01" => Case::Sim(work::first_use(&mut r, g.unwrap())),
                "S02" => Case::Sim(work::many_sessions(&mut r, g.unwrap())),
                "S03" => {
                    if r.chance(1, 3) {
                        Case::Script(Script::random(&mut r))
                    } else {
                        let s = work::history_session(&mut r, g.unwrap());
                        Case::Sim(Plan::single(g.unwrap().clone(), s))
                    }
                }
                "S04" if r.chance(1, 2) => {
                    let l = r.below(4) as u8;
                    Case::Lex(l, work::lex_source(&mut r, l))
                }
                "S12" if r.chance(1, 5) => Case::Sized(Sized_::random(&mut r)),
                "S13" if r.chance(1, 8) => Case::Sets(Sets::random(&mut r)),
                "S13" => Case::Tab(Tab::random(&mut r, &work::base_profile(&mut Rng::new(self.seed)))),
                _ => {
                    let (s, d) = work::model_session(id, &mut r, g.unwrap());
                    return (Case::Sim(Plan::single(g.unwrap().clone(), s)), d);
                }
            },
            None,
        )
    }
}

// ---------------------------------------------------------------- running
/// What a case showed.
#[derive(Default)]
pub struct Seen {
    pub viols: Viols,
    pub hash: u64,
    pub nontrivial: bool,
    pub steps: u64,
    pub load: u64,
}
fn keep(id: &str, v: Viols) -> Viols {
    let c = classes(id);
    v.into_iter().filter(|x| c.contains(&x.class.as_str())).collect()
}
pub fn log_hash(out: &[String]) -> u64 {
    let mut h = 7;
    for s in out {
        h = hash_bytes(h, s.as_bytes());
    }
    h
}
/// Run and judge one case in this process (not for S01, S02).
pub fn run_here(id: &str, c: &Case, expect: &Option<(usize, D)>, f: &mut Facts) -> Seen {
    let mut s = Seen::default();
    match c {
        Case::Sim(p) => {
            // long runs of one thing, and long lists, are read without recursion
            let small = p.sessions.iter().any(|s| s.run_len() > 0 || (s.edits.is_empty() && s.clean.len() > 20_000));
            if small {
                stack(1);
            }
            let out = real::run_plan(p, None);
            if small {
                stack(DEEP);
            }
            s.steps = out.steps;
            s.load = out.load;
            for se in &p.sessions {
                count_session(se, f);
            }
            for (se, r) in p.sessions.iter().zip(&out.res) {
                count_ops(&se.ops, r, f);
            }
            let mut v: Viols = out.probs.iter().map(|(c, m)| viol(c, m.clone())).collect();
            let mut log = vec![];
            for si in 0..p.sessions.len() {
                match id {
                    "S03" => v.extend(accounting(p, si, &out, f)),
                    "S04" => v.extend(lexing(p, si, &out)),
                    _ => v.extend(against_model(p, si, &out, f)),
                }
                log.extend(out.res[si].iter().map(|r| r.show()));
                s.nontrivial |= !p.sessions[si].edits.is_empty() || p.sessions[si].ops.len() > 2;
            }
            if let (Some((_, d)), Some(r)) = (expect, out.res[0].first()) {
                let ok = matches!(r, Res::Parsed(Some(t)) if work::same_derivation(d, t));
                f.hit("fault_free_sentence");
                if !ok {
                    v.push(viol("CLEAN", format!("operation 0: the tree is not the derivation the sentence was written from: {}", r.show())));
                }
            }
            s.viols = keep(id, v);
            s.hash = log_hash(&log);
        }
        Case::Script(x) => {
            let (v, log) = x.run(f);
            for c in x.src.chars() {
                match c {
                    '!' => f.hit("fault:garbage_from_lexer"),
                    '.' => f.hit("fault:lexer_stall"),
                    '?' => f.hit("fault:lexer_panic"),
                    'x' => f.hit("fault:extraction_run"),
                    _ => {}
                }
            }
            s.viols = keep(id, v);
            s.hash = log_hash(&log);
            s.nontrivial = x.src.len() > 2;
        }
        Case::Lex(l, src) => {
            simrt::account(20_000_000 + 3000 * src.len() as u64);
            let r = real::guard(|| match l {
                0 => (drive::<Lx>(src, ty_index), quiet(|| ref_lex(src))),
                1 => (drive::<lb::Lb>(src, idx_lb), quiet(|| lb::reference(src))),
                2 => (drive::<lc::Lc>(src, idx_lc), quiet(|| lc::reference(src))),
                3 => (drive::<ld::Ld>(src, idx_ld), quiet(|| ld::reference(src))),
                _ => (drive::<le::Le>(src, idx_le), quiet(|| le::reference(src))),
            });
            s.steps = simrt::account_end();
            f.hit("lexed_sources");
            s.nontrivial = src.len() > 2;
            match r {
                Err(e) => s.viols.push(viol("PANIC", format!("lexicon {l}, source {src:?}: {}", e.show()))),
                Ok(((ev, more), want)) => {
                    s.hash = hash_bytes(3, format!("{ev:?}").as_bytes());
                    if want.iter().any(|e| e.invalid.is_some()) {
                        f.hit("invalid_run");
                    }
                    if ev != want {
                        let i = ev.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(ev.len().min(want.len()));
                        s.viols.push(viol("LEX", format!("lexicon {l}, source {src:?}: event {i} is {:?} instead of {:?}", ev.get(i), want.get(i))));
                    } else if more.iter().any(|e| e.tok.is_some() || e.invalid.is_some()) {
                        s.viols.push(viol("LEX", format!("lexicon {l}, source {src:?}: the lexer goes on after the end")));
                    }
                    let tiles = simcore::lx::tiles(src, &ev);
                    if let (Some(m), true) = (tiles, s.viols.is_empty()) {
                        s.viols.push(viol("LEX", format!("lexicon {l}, source {src:?}: {m}")));
                    }
                }
            }
        }
        Case::Sized(x) => {
            let (v, log) = x.run(f);
            s.viols = keep(id, v);
            s.hash = log_hash(&log) ^ x.bits as u64;
            s.nontrivial = x.ops.len() > 2;
        }
        Case::Sets(t) => {
            let (v, log) = t.run(f);
            s.viols = keep(id, v);
            s.hash = log_hash(&log);
            s.nontrivial = t.ops.len() > 2;
        }
        Case::Tab(t) => {
            let (v, log) = t.run(f);
            s.viols = keep(id, v);
            s.hash = log_hash(&log);
            s.nontrivial = true;
        }
    }
    s
}
/// As `run_here`; a panic that gets past every guard is the code's (reached from a check
/// of the simulator that calls it directly), or the simulator met values that cannot be.
pub fn run_caught(id: &str, c: &Case, expect: &Option<(usize, D)>, f: &mut Facts) -> Seen {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_here(id, c, expect, f))) {
        Ok(s) => s,
        Err(_) => {
            simrt::account_end();
            let mut s = Seen::default();
            s.viols.push(viol("PANIC", format!("the run panicked: {}", real::last_panic())));
            s
        }
    }
}
fn idx_lb(t: lb::Lb) -> u8 {
    lb::ALL.iter().position(|x| *x == t).unwrap() as u8
}
fn idx_lc(t: lc::Lc) -> u8 {
    lc::ALL.iter().position(|x| *x == t).unwrap() as u8
}
fn idx_ld(t: ld::Ld) -> u8 {
    ld::ALL.iter().position(|x| *x == t).unwrap() as u8
}
fn idx_le(t: le::Le) -> u8 {
    le::ALL.iter().position(|x| *x == t).unwrap() as u8
}
pub fn count_session(se: &Session, f: &mut Facts) {
    let mut cur = se.clean.clone();
    for i in 0..se.edits.len() {
        let next = apply(&se.clean, &se.edits[..=i]);
        if next != cur {
            f.hit(fault_name(se.edits[i].kind));
        }
        cur = next;
    }
}
fn fault_name(k: u8) -> &'static str {
    const N: [&str; 18] = [
        "fault:bit_flip",
        "fault:byte_change",
        "fault:truncate",
        "fault:lost_range",
        "fault:duplicated_range",
        "fault:moved_range",
        "fault:token_lost",
        "fault:token_inserted",
        "fault:token_replaced",
        "fault:garbage",
        "fault:torn_write",
        "fault:stale_overwrite",
        "fault:comment_start",
        "fault:blank_lost",
        "fault:literal_lost",
        "fault:block_overwritten",
        "fault:long_run",
        "fault:token_run",
    ];
    N[k as usize]
}
pub fn count_ops(ops: &[Op], res: &[Res], f: &mut Facts) {
    for (o, r) in ops.iter().zip(res) {
        f.hit(match o {
            Op::Parse(_) => "op:parse",
            Op::ParseCancel(..) => "op:parse_interruptible",
            Op::ParseAll(_) => "op:parse_to_end",
            Op::Term(_) | Op::TermCancel(..) => "op:parse_terminal",
            Op::Once(_) => "op:one_shot_parse",
            Op::Consume => "op:consume",
            Op::Peek => "op:peek",
            Op::TryTok(_) => "op:parse_token",
            Op::TryLit(..) => "op:parse_token_lit",
            Op::Span | Op::EmptySpan | Op::Remaining => "op:position",
            Op::Drain => "op:drain",
            Op::Mark(..) => "op:mark",
            Op::Query(_) => "op:query",
            Op::QMark(..) => "op:mark_by_query",
            Op::Snap | Op::Log => "op:observe",
            Op::Close => "op:close",
            Op::Meta(_) | Op::MetaCancel(..) | Op::TermMeta(_) => "op:tables",
            Op::Assert(_) => "op:assert",
            Op::Msgs => "op:messages",
        });
        if matches!(r, Res::Cancelled) {
            f.hit(match o {
                Op::MetaCancel(..) => "fault:interrupted_table_building",
                _ => "fault:interrupted_parse",
            });
        }
        if matches!(o, Op::Close) {
            f.hit("fault:session_abandoned");
        }
    }
}

fn facts_json(f: &Facts, s: &Seen) -> Vec<(String, J)> {
    let mut v: Vec<(String, J)> = f.probes.iter().map(|(k, n)| (k.to_string(), json::n(*n as i64))).collect();
    for (k, n) in [
        ("parses", f.parses),
        ("parses_clean", f.clean),
        ("parses_repaired", f.repaired),
        ("parses_failed", f.failed),
        ("steps", s.steps),
    ] {
        v.push((k.into(), json::n(n as i64)));
    }
    v
}
pub fn counts(f: &Facts, s: &Seen) -> J {
    J::O(facts_json(f, s).into_iter().collect())
}

/// The plan and its solo runs, each in a fresh process (S01, S02).
pub struct Multi {
    pub seen: Seen,
    pub counts: Vec<(String, i64)>,
    pub trace: Option<Sched>,
    pub sched_hash: u64,
    pub harness: Option<String>,
}
fn ended(e: &Ended, what: &str) -> Option<Result<Viol, String>> {
    match e {
        Ended::Ok => None,
        Ended::Fatal(m, _) => Some(Ok(viol("HANG", format!("{what}: {m}")))),
        Ended::Crash(m) => Some(Ok(viol("CRASH", format!("{what}: {m}")))),
        Ended::Timeout => Some(Ok(viol("HANG", format!("{what}: no end within the time limit")))),
        Ended::Harness(m) => Some(Err(m.clone())),
    }
}
pub fn trace_of(j: &J) -> Sched {
    Sched::Trace {
        sw: j.get("switches").arr().iter().map(|x| (x.arr()[0].int() as u64, x.arr()[1].int() as u32)).collect(),
        spurious: j.get("spurious_waits").arr().iter().map(|x| x.int() as u64).collect(),
    }
}
pub fn run_multi(id: &str, plan: &Plan, shm: &Shm, secs: u32) -> Multi {
    let mut m = Multi { seen: Seen::default(), counts: vec![], trace: None, sched_hash: 0, harness: None };
    let mut add = |k: &str, n: i64| m.counts.push((k.into(), n));
    let e = in_child(shm, secs, || {
        simrt::seed_getrandom(11);
        let out = real::run_plan(plan, None);
        let strs = |v: &Vec<Res>| json::arr(v, |r| json::s(r.show()));
        let mut f = Facts::default();
        for (se, r) in plan.sessions.iter().zip(&out.res) {
            count_session(se, &mut f);
            count_ops(&se.ops, r, &mut f);
        }
        let s = Seen { steps: out.steps, ..Seen::default() };
        let j = json::obj(vec![
            ("res", json::arr(&out.res, strs)),
            ("probs", json::arr(&out.probs, |(c, m)| J::A(vec![json::s(c.clone()), json::s(m.clone())]))),
            ("switches", json::arr(&out.trace, |(a, b)| J::A(vec![json::n(*a as i64), json::n(*b)]))),
            ("spurious_waits", json::arr(&out.trace_sp, |a| json::n(*a as i64))),
            ("hash", json::s(format!("{:x}", out.sched_hash))),
            ("sched", J::A(vec![json::n(out.switches as i64), json::n(out.blocks as i64), json::n(out.fwaits as i64), json::n(out.spurious as i64), json::n(out.vtime as i64), json::n(out.load as i64)])),
            ("counts", counts(&f, &s)),
        ]);
        shm.put(j.dump().as_bytes());
    });
    if let Some(x) = ended(&e, "the sessions together") {
        if let Ended::Fatal(_, j) = &e {
            if j.get("multi").bool() {
                m.trace = Some(trace_of(j));
            }
        }
        match x {
            Ok(v) => m.seen.viols.push(v),
            Err(h) => m.harness = Some(h),
        }
        return m;
    }
    let j = match J::parse(&shm.get_str()) {
        Ok(j) => j,
        Err(e) => {
            m.harness = Some(format!("report: {e}"));
            return m;
        }
    };
    if plan.threads > 1 {
        m.trace = Some(trace_of(&j));
    }
    m.sched_hash = u64::from_str_radix(j.get("hash").str(), 16).unwrap_or(0);
    if let J::O(v) = j.get("counts") {
        for (k, n) in v {
            add(k, n.int());
        }
    }
    let sc = j.get("sched").arr();
    for (k, i) in [("fault:preemption", 0), ("blocked_on_another_thread", 1), ("lock_waits", 2), ("fault:spurious_wakeup", 3), ("virtual_ns", 4)] {
        add(k, sc[i].int());
    }
    m.seen.load = sc[5].int() as u64;
    let mut v: Viols =
        j.get("probs").arr().iter().map(|x| viol(x.arr()[0].str(), x.arr()[1].str())).collect();
    let all: Vec<Vec<String>> = j
        .get("res")
        .arr()
        .iter()
        .map(|s| s.arr().iter().map(|x| x.str().to_string()).collect())
        .collect();
    for (si, s) in plan.sessions.iter().enumerate() {
        if let Some(k) = all[si].iter().position(|x| x.starts_with("panicked")) {
            v.push(viol("PANIC", format!("session {si} operation {k} {:?}: {}", s.ops[k], all[si][k])));
        }
    }
    // the verdict is the one the grammar deserves
    let mut verdict: std::collections::BTreeMap<usize, bool> = Default::default();
    for (si, s) in plan.sessions.iter().enumerate() {
        for (o, a) in s.ops.iter().zip(&all[si]) {
            let (r, said) = match o {
                Op::Assert(r) => (*r, *a == Res::Str("is LL(1)".into()).show()),
                Op::Meta(r) => (*r, !a.starts_with("grammar error: ")),
                _ => continue,
            };
            let ok = *verdict.entry(r).or_insert_with(|| Bnf::of(&plan.grammar, r).accepted());
            if said != ok && v.is_empty() {
                let what = if ok { "is LL(1)" } else { "is not LL(1)" };
                v.push(viol("VERDICT", format!("session {si} {o:?}: {a}, but the grammar {what}")));
            }
        }
    }
    // each session alone
    for (si, s) in plan.sessions.iter().enumerate() {
        if !v.is_empty() {
            break;
        }
        if s.ops.is_empty() {
            continue;
        }
        // an interruption is counted in calls, and how many calls an operation makes depends
        // on whether the tables are there already: alone, such an operation is not interrupted
        let mut solo = plan.clone();
        let drop_cancel = !plan.warm;
        if drop_cancel {
            for o in solo.sessions[si].ops.iter_mut() {
                let plain = match o {
                    Op::MetaCancel(r, _) => Op::Meta(*r),
                    Op::ParseCancel(r, _) => Op::Parse(*r),
                    _ => continue,
                };
                *o = plain;
            }
        }
        let e = in_child(shm, secs, || {
            simrt::seed_getrandom(1000 + si as u64);
            let out = real::run_plan(&solo, Some(si));
            let j = json::arr(&out.res[si], |r| json::s(r.show()));
            shm.put(j.dump().as_bytes());
        });
        if let Some(x) = ended(&e, &format!("session {si} alone")) {
            match x {
                Ok(x) => v.push(x),
                Err(h) => m.harness = Some(h),
            }
            break;
        }
        let j = J::parse(&shm.get_str()).unwrap_or(J::Null);
        let one: Vec<String> = j.arr().iter().map(|x| x.str().to_string()).collect();
        if drop_cancel {
            // up to the first interrupted operation that leaves a session half-way
            let mut upto = s.ops.len();
            let mut a = all[si].clone();
            for (k, o) in s.ops.iter().enumerate() {
                if o.cancels() && a[k] == Res::Cancelled.show() {
                    a[k] = one[k].clone();
                    if matches!(o, Op::ParseCancel(..)) {
                        upto = k;
                        break;
                    }
                }
            }
            if upto < s.ops.len() {
                // tables and verdicts are still the same afterwards
                for k in upto..s.ops.len() {
                    if matches!(s.ops[k], Op::Meta(_) | Op::Assert(_) | Op::Once(_) | Op::TermMeta(_)) && a[k] != one[k] {
                        v.push(viol("DIFFER", format!("session {si} operation {k} {:?}: {} but alone {}", s.ops[k], a[k], one[k])));
                        break;
                    }
                }
            }
            v.extend(same(si, &s.ops, &a[..upto], &one[..upto]));
        } else {
            v.extend(same(si, &s.ops, &all[si], &one));
        }
    }
    let mut log: Vec<String> = all.into_iter().flatten().collect();
    log.push(format!("{:x}", m.sched_hash));
    m.seen.hash = log_hash(&log);
    m.seen.nontrivial = plan.sessions.len() > 1;
    m.seen.viols = keep(id, v);
    m
}

/// A list of cases in one fresh process; the violations are those of the last one.
pub struct Ran {
    pub viols: Viols,
    pub hash: u64,
    pub trace: Option<Sched>,
    pub harness: Option<String>,
}
pub fn run_list(id: &str, cases: &[Case], shm: &Shm, secs: u32) -> Ran {
    if let ([Case::Sim(p)], true) = (cases, alone(id)) {
        let m = run_multi(id, p, shm, secs);
        return Ran { viols: m.seen.viols, hash: m.seen.hash, trace: m.trace, harness: m.harness };
    }
    let first = run_list_once(id, cases, shm, secs, 5);
    if id == "S13" && first.viols.is_empty() && first.harness.is_none() {
        // nothing may depend on how hash tables are seeded
        let mut second = run_list_once(id, cases, shm, secs, 77);
        if second.viols.is_empty() && second.hash != first.hash {
            second.viols.push(viol("ORDER", "verdict or tables differ from one process to the next"));
        }
        return second;
    }
    first
}
fn run_list_once(id: &str, cases: &[Case], shm: &Shm, secs: u32, hash_seed: u64) -> Ran {
    let e = in_child(shm, secs, || {
        simrt::seed_getrandom(hash_seed);
        let mut j = J::Null;
        let n = cases.len();
        for (i, c) in cases.iter().enumerate() {
            let mut f = Facts::default();
            shm.mark().store(i as u32, std::sync::atomic::Ordering::Relaxed);
            let s = run_caught(id, c, &None, &mut f);
            if i + 1 == n {
                j = json::obj(vec![
                    ("viols", json::arr(&s.viols, |v| J::A(vec![json::s(v.class.clone()), json::s(v.msg.clone())]))),
                    ("hash", json::s(format!("{:x}", s.hash))),
                ]);
            }
        }
        shm.put(j.dump().as_bytes());
    });
    let mut r = Ran { viols: vec![], hash: 0, trace: None, harness: None };
    match ended(&e, "the run") {
        Some(Ok(v)) => r.viols.push(v),
        Some(Err(h)) => r.harness = Some(h),
        None => match J::parse(&shm.get_str()) {
            Err(e) => r.harness = Some(format!("report: {e}")),
            Ok(j) => {
                r.viols = j.get("viols").arr().iter().map(|x| viol(x.arr()[0].str(), x.arr()[1].str())).collect();
                r.hash = u64::from_str_radix(j.get("hash").str(), 16).unwrap_or(0);
            }
        },
    }
    r
}

// ---------------------------------------------------------------- shrinking
/// Lists with a stretch left out, long stretches first.
fn cuts(n: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut w = n;
    // of something long only large pieces: all candidates are held at once
    let least = if n > 400 { n / 64 } else { 1 };
    while w >= least && w > 0 {
        let mut i = 0;
        while i < n {
            v.push((i, (i + w).min(n)));
            i += w;
        }
        w /= 2;
    }
    v
}
fn without<T: Clone>(v: &[T], (a, b): (usize, usize)) -> Vec<T> {
    v[..a].iter().chain(&v[b..]).cloned().collect()
}
fn drop_session(p: &Plan, s: usize) -> Plan {
    let mut q = p.clone();
    q.sessions.remove(s);
    q.order = p
        .order
        .iter()
        .filter(|x| x.0 as usize != s)
        .map(|(a, t)| (if *a as usize > s { a - 1 } else { *a }, *t))
        .collect();
    q
}
fn drop_ops(p: &Plan, s: usize, cut: (usize, usize)) -> Plan {
    let mut q = p.clone();
    q.sessions[s].ops = without(&p.sessions[s].ops, cut);
    let mut k = 0;
    q.order = p
        .order
        .iter()
        .filter(|x| {
            if x.0 as usize != s {
                return true;
            }
            let keep = k < cut.0 || k >= cut.1;
            k += 1;
            keep
        })
        .copied()
        .collect();
    q
}
fn roots_used(p: &Plan) -> Vec<usize> {
    let mut v: Vec<usize> = p
        .sessions
        .iter()
        .flat_map(|s| s.ops.iter())
        .filter_map(|o| match o {
            Op::Parse(r) | Op::ParseCancel(r, _) | Op::ParseAll(r) | Op::Once(r) | Op::Meta(r) | Op::MetaCancel(r, _) | Op::Assert(r) => Some(*r),
            _ => None,
        })
        .collect();
    v.sort();
    v.dedup();
    v
}
fn smaller_grammars(g: &Grammar, need: &[usize], must: &dyn Fn(&Grammar) -> bool) -> Vec<Grammar> {
    let mut out = vec![];
    for r in g.used_roots() {
        if !need.contains(&r) {
            let mut h = g.clone();
            h.roots[r] = vec![];
            if !h.used_roots().is_empty() {
                out.push(compact(&h));
            }
        }
    }
    // put a child in place of a node, or a token in place of a part
    let subst = |g: &Grammar, from: Sym, to: Sym| {
        let mut h = g.clone();
        let f = |s: &mut Sym| {
            if *s == from {
                *s = to
            }
        };
        h.nodes.iter_mut().flat_map(|n| n.ch.iter_mut()).for_each(f);
        h.roots.iter_mut().flat_map(|r| r.iter_mut()).for_each(f);
        h
    };
    for (i, n) in g.nodes.iter().enumerate() {
        for c in &n.ch {
            if *c != Sym::N(i as u8) {
                let h = subst(g, Sym::N(i as u8), *c);
                if well_formed(&h) {
                    out.push(compact(&h));
                }
            }
        }
        for k in 0..n.ch.len() {
            if let Sym::N(_) = n.ch[k] {
                for t in [5u8, 16, 0, 8] {
                    let mut h = g.clone();
                    h.nodes[i].ch[k] = Sym::T(t);
                    out.push(compact(&h));
                }
            }
        }
        // fewer parts
        let f = n.form();
        if matches!(f, F::Seq | F::Alt) && n.ch.len() > 1 {
            for k in 0..n.ch.len() {
                let m = n.ch.len() - 1;
                let kind = match (f, m) {
                    (F::Seq, 1) => "ts1",
                    (F::Seq, 2) => "tup2",
                    (F::Seq, 3) => "tup3",
                    (F::Seq, 4) => "tup4",
                    (F::Alt, 2) => "en2",
                    (F::Alt, 3) => "en3",
                    (F::Alt, 4) => "en4",
                    _ => continue,
                };
                let mut h = g.clone();
                h.nodes[i].ch.remove(k);
                h.nodes[i].kind = kind_by_name(kind);
                out.push(compact(&h));
            }
        }
    }
    for (r, v) in g.roots.iter().enumerate() {
        for k in 0..v.len() {
            if let Sym::N(_) = v[k] {
                for t in [5u8, 16] {
                    let mut h = g.clone();
                    h.roots[r][k] = Sym::T(t);
                    out.push(compact(&h));
                }
            }
        }
    }
    out.retain(|h| h != g && well_formed(h) && must(h));
    out
}
fn shorter(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    cuts(c.len()).into_iter().map(|x| without(&c, x).into_iter().collect()).collect()
}
/// Candidates for something smaller, likely ones first.
pub fn smaller(id: &str, c: &Case, stage: usize) -> Vec<Case> {
    match c {
        Case::Sim(p) => smaller_plans(id, p, stage).into_iter().map(Case::Sim).collect(),
        Case::Script(s) => {
            if stage == 0 {
                cuts(s.ops.len()).into_iter().map(|x| Case::Script(Script { src: s.src.clone(), ops: without(&s.ops, x) })).collect()
            } else {
                shorter(&s.src).into_iter().map(|src| Case::Script(Script { src, ops: s.ops.clone() })).collect()
            }
        }
        Case::Lex(l, s) => shorter(s).into_iter().map(|s| Case::Lex(*l, s)).collect(),
        Case::Sized(s) => cuts(s.ops.len())
            .into_iter()
            .map(|x| Case::Sized(Sized_ { ops: without(&s.ops, x), ..s.clone() }))
            .chain((0..s.tokens).map(|t| Case::Sized(Sized_ { tokens: t, ..s.clone() })))
            .collect(),
        Case::Sets(t) => cuts(t.ops.len()).into_iter().map(|x| Case::Sets(Sets { ops: without(&t.ops, x) })).collect(),
        Case::Tab(t) => {
            let mut v = vec![];
            if !t.early.is_empty() {
                v.push(Tab { early: vec![], ..t.clone() });
            }
            for x in cuts(t.early.len()) {
                v.push(Tab { early: without(&t.early, x), ..t.clone() });
            }
            for g in smaller_grammars(&t.grammar, &[t.root], &|_| true) {
                v.push(Tab { grammar: g.clone(), early: vec![], ..t.clone() });
                let reach = g.reachable(t.root);
                let early = (0..g.nodes.len()).rev().filter(|i| reach[*i]).map(|i| Sym::N(i as u8)).collect();
                v.push(Tab { grammar: g, early, ..t.clone() });
            }
            v.into_iter().map(Case::Tab).collect()
        }
    }
}
fn smaller_plans(id: &str, p: &Plan, stage: usize) -> Vec<Plan> {
    let mut v = vec![];
    match stage {
        0 => {
            // no threads at all, fewer threads
            if p.threads > 1 {
                let mut q = p.clone();
                q.threads = 1;
                q.order.iter_mut().for_each(|x| x.1 = 0);
                q.sched = Sched::Trace { sw: vec![], spurious: vec![] };
                v.push(q);
            }
            for s in 0..p.sessions.len() {
                if p.sessions.len() > 1 {
                    v.push(drop_session(p, s));
                }
            }
            for s in 0..p.sessions.len() {
                for x in cuts(p.sessions[s].ops.len()) {
                    v.push(drop_ops(p, s, x));
                }
            }
        }
        1 => {
            if let Sched::Trace { sw, spurious } = &p.sched {
                for x in cuts(sw.len()) {
                    let mut q = p.clone();
                    q.sched = Sched::Trace { sw: without(sw, x), spurious: spurious.clone() };
                    v.push(q);
                }
                for x in cuts(spurious.len()) {
                    let mut q = p.clone();
                    q.sched = Sched::Trace { sw: sw.clone(), spurious: without(spurious, x) };
                    v.push(q);
                }
            }
        }
        2 => {
            for s in 0..p.sessions.len() {
                for x in cuts(p.sessions[s].edits.len()) {
                    let mut q = p.clone();
                    q.sessions[s].edits = without(&p.sessions[s].edits, x);
                    v.push(q);
                }
                for (k, e) in p.sessions[s].edits.iter().enumerate() {
                    for f in [8, 4, 2] {
                        if e.ins.len() >= 64 {
                            let mut q = p.clone();
                            q.sessions[s].edits[k].ins.truncate(e.ins.len() - e.ins.len() / f);
                            v.push(q);
                        }
                    }
                }
            }
        }
        3 => {
            for s in 0..p.sessions.len() {
                // damage becomes part of the text once the text itself is cut
                let src = p.sessions[s].src();
                for t in shorter(&src) {
                    let mut q = p.clone();
                    q.sessions[s].clean = t;
                    q.sessions[s].edits = vec![];
                    v.push(q);
                }
            }
        }
        4 => {
            let need = roots_used(p);
            let must = |g: &Grammar| id == "S01" && !usable(&p.grammar) || usable(g);
            for g in smaller_grammars(&p.grammar, &need, &must) {
                let mut q = p.clone();
                q.grammar = g;
                v.push(q);
            }
        }
        _ => {
            for s in 0..p.sessions.len() {
                for k in 0..p.sessions[s].ops.len() {
                    let mut alt = vec![];
                    match &p.sessions[s].ops[k] {
                        Op::Query(qs) if qs.len() > 1 => {
                            alt.extend(qs.iter().map(|q| Op::Query(vec![q.clone()])));
                        }
                        Op::ParseCancel(r, n) if *n > 0 => alt.extend([Op::ParseCancel(*r, 0), Op::ParseCancel(*r, n / 2), Op::ParseCancel(*r, n - 1)]),
                        Op::MetaCancel(r, n) if *n > 0 => alt.extend([Op::MetaCancel(*r, 0), Op::MetaCancel(*r, n / 2)]),
                        Op::ParseAll(r) => alt.push(Op::Parse(*r)),
                        _ => {}
                    }
                    for o in alt {
                        let mut q = p.clone();
                        q.sessions[s].ops[k] = o;
                        v.push(q);
                    }
                }
            }
        }
    }
    v
}
