//! A plan is everything one simulated run is decided by: the grammar, the sessions
//! (source, damage, operations), how they are spread over threads, and the schedule.
use simcore::gram::Grammar;
use simcore::json::{self, J};
use simrt::Sched;

/// Replace bytes lo..hi of the source by `ins`: one fault of the input medium.
#[derive(Clone, Debug, PartialEq)]
pub struct Edit {
    pub kind: u8,
    pub lo: usize,
    pub hi: usize,
    pub ins: Vec<u8>,
}
pub const EDITS: [&str; 18] = [
    "bit_flip",
    "byte_change",
    "truncate",
    "lost_range",
    "duplicated_range",
    "moved_range",
    "token_lost",
    "token_inserted",
    "token_replaced",
    "garbage",
    "torn_write",
    "stale_overwrite",
    "comment_start",
    "blank_lost",
    "literal_lost",
    "block_overwritten",
    "long_run",
    "token_run",
];
pub fn apply(clean: &str, edits: &[Edit]) -> String {
    let mut b = clean.as_bytes().to_vec();
    for e in edits {
        let hi = e.hi.min(b.len());
        let lo = e.lo.min(hi);
        b.splice(lo..hi, e.ins.iter().copied());
    }
    String::from_utf8_lossy(&b).into_owned()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Q {
    At(usize),
    AtSpan(usize, usize),
    Overlap(usize, usize),
    Inside(usize, usize),
    /// position, predicate mask
    Ends(usize, u16),
    Begins(usize, u16),
    Lo(usize),
    Hi(usize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Parse(usize),
    ParseCancel(usize, u32),
    ParseAll(usize),
    Term(u8),
    TermCancel(u8, u32),
    Once(usize),
    Consume,
    Peek,
    TryTok(u8),
    TryLit(u8, u32),
    Span,
    EmptySpan,
    Remaining,
    Drain,
    Mark(usize, usize, u16),
    Query(Vec<Q>),
    QMark(Q, u16),
    Snap,
    Log,
    Close,
    Meta(usize),
    MetaCancel(usize, u32),
    TermMeta(u8),
    Assert(usize),
    Msgs,
}
impl Op {
    pub fn cancels(&self) -> bool {
        matches!(self, Op::ParseCancel(..) | Op::MetaCancel(..) | Op::TermCancel(..))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Session {
    pub clean: String,
    pub edits: Vec<Edit>,
    pub ops: Vec<Op>,
}
impl Session {
    pub fn src(&self) -> String {
        apply(&self.clean, &self.edits)
    }
    /// bytes of long runs of one thing in it
    pub fn run_len(&self) -> usize {
        self.edits.iter().filter(|e| EDITS[e.kind as usize] == "long_run").map(|e| e.ins.len()).sum()
    }
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub grammar: Grammar,
    /// build all tables before the sessions start
    pub warm: bool,
    pub sessions: Vec<Session>,
    /// (session, thread): whose next operation comes, on which thread
    pub order: Vec<(u8, u8)>,
    pub threads: usize,
    pub sched: Sched,
}

// ---------------------------------------------------------------- json
fn q_json(q: &Q) -> J {
    let v: Vec<J> = match q {
        Q::At(a) => vec![json::s("at"), json::n(*a)],
        Q::AtSpan(a, b) => vec![json::s("at_span"), json::n(*a), json::n(*b)],
        Q::Overlap(a, b) => vec![json::s("overlap"), json::n(*a), json::n(*b)],
        Q::Inside(a, b) => vec![json::s("inside"), json::n(*a), json::n(*b)],
        Q::Ends(a, b) => vec![json::s("ends"), json::n(*a), json::n(*b)],
        Q::Begins(a, b) => vec![json::s("begins"), json::n(*a), json::n(*b)],
        Q::Lo(a) => vec![json::s("lo"), json::n(*a)],
        Q::Hi(a) => vec![json::s("hi"), json::n(*a)],
    };
    J::A(v)
}
fn q_from(j: &J) -> Q {
    let a = j.arr();
    let u = |i: usize| a[i].us();
    match a[0].str() {
        "at" => Q::At(u(1)),
        "at_span" => Q::AtSpan(u(1), u(2)),
        "overlap" => Q::Overlap(u(1), u(2)),
        "inside" => Q::Inside(u(1), u(2)),
        "ends" => Q::Ends(u(1), u(2) as u16),
        "begins" => Q::Begins(u(1), u(2) as u16),
        "lo" => Q::Lo(u(1)),
        _ => Q::Hi(u(1)),
    }
}
pub fn op_json(o: &Op) -> J {
    let s = json::s;
    let n = |x: usize| json::n(x);
    J::A(match o {
        Op::Parse(r) => vec![s("parse"), n(*r)],
        Op::ParseCancel(r, k) => vec![s("parse_cancel"), n(*r), json::n(*k)],
        Op::ParseAll(r) => vec![s("parse_all"), n(*r)],
        Op::Term(t) => vec![s("term"), json::n(*t)],
        Op::TermCancel(t, k) => vec![s("term_cancel"), json::n(*t), json::n(*k)],
        Op::Once(r) => vec![s("once"), n(*r)],
        Op::Consume => vec![s("consume")],
        Op::Peek => vec![s("peek")],
        Op::TryTok(t) => vec![s("try_tok"), json::n(*t)],
        Op::TryLit(t, m) => vec![s("try_lit"), json::n(*t), json::n(*m)],
        Op::Span => vec![s("span")],
        Op::EmptySpan => vec![s("empty_span")],
        Op::Remaining => vec![s("remaining")],
        Op::Drain => vec![s("drain")],
        Op::Mark(a, b, m) => vec![s("mark"), n(*a), n(*b), json::n(*m)],
        Op::Query(v) => vec![s("query"), json::arr(v, q_json)],
        Op::QMark(q, m) => vec![s("qmark"), q_json(q), json::n(*m)],
        Op::Snap => vec![s("snap")],
        Op::Log => vec![s("log")],
        Op::Close => vec![s("close")],
        Op::Meta(r) => vec![s("meta"), n(*r)],
        Op::MetaCancel(r, k) => vec![s("meta_cancel"), n(*r), json::n(*k)],
        Op::TermMeta(t) => vec![s("term_meta"), json::n(*t)],
        Op::Assert(r) => vec![s("assert"), n(*r)],
        Op::Msgs => vec![s("msgs")],
    })
}
fn op_from(j: &J) -> Op {
    let a = j.arr();
    let u = |i: usize| a[i].us();
    match a[0].str() {
        "parse" => Op::Parse(u(1)),
        "parse_cancel" => Op::ParseCancel(u(1), u(2) as u32),
        "parse_all" => Op::ParseAll(u(1)),
        "term" => Op::Term(u(1) as u8),
        "term_cancel" => Op::TermCancel(u(1) as u8, u(2) as u32),
        "once" => Op::Once(u(1)),
        "consume" => Op::Consume,
        "peek" => Op::Peek,
        "try_tok" => Op::TryTok(u(1) as u8),
        "try_lit" => Op::TryLit(u(1) as u8, u(2) as u32),
        "span" => Op::Span,
        "empty_span" => Op::EmptySpan,
        "remaining" => Op::Remaining,
        "drain" => Op::Drain,
        "mark" => Op::Mark(u(1), u(2), u(3) as u16),
        "query" => Op::Query(a[1].arr().iter().map(q_from).collect()),
        "qmark" => Op::QMark(q_from(&a[1]), u(2) as u16),
        "snap" => Op::Snap,
        "log" => Op::Log,
        "close" => Op::Close,
        "meta" => Op::Meta(u(1)),
        "meta_cancel" => Op::MetaCancel(u(1), u(2) as u32),
        "term_meta" => Op::TermMeta(u(1) as u8),
        "assert" => Op::Assert(u(1)),
        "msgs" => Op::Msgs,
        x => panic!("op {x}"),
    }
}
pub fn sched_json(s: &Sched) -> J {
    match s {
        Sched::Random { seed, mean, grain, spurious } => json::obj(vec![
            ("seed", json::s(format!("{seed:x}"))),
            ("mean", json::n(*mean)),
            ("grain", json::n(*grain)),
            ("spurious", json::n(*spurious)),
        ]),
        Sched::Trace { sw, spurious } => json::obj(vec![
            ("switches", json::arr(sw, |(a, b)| J::A(vec![json::n(*a as i64), json::n(*b)]))),
            ("spurious_waits", json::arr(spurious, |a| json::n(*a as i64))),
        ]),
    }
}
fn sched_from(j: &J) -> Sched {
    if j.has("switches") {
        Sched::Trace {
            sw: j.get("switches")
                .arr()
                .iter()
                .map(|x| (x.arr()[0].int() as u64, x.arr()[1].int() as u32))
                .collect(),
            spurious: j.get("spurious_waits").arr().iter().map(|x| x.int() as u64).collect(),
        }
    } else {
        Sched::Random {
            seed: u64::from_str_radix(j.get("seed").str(), 16).unwrap_or(0),
            mean: j.get("mean").int() as u32,
            grain: j.get("grain").int() as u8,
            spurious: j.get("spurious").int() as u32,
        }
    }
}
pub fn edit_json(e: &Edit) -> J {
    let ins = match std::str::from_utf8(&e.ins) {
        Ok(s) => json::s(s),
        Err(_) => json::arr(&e.ins, |b| json::n(*b)),
    };
    J::A(vec![json::s(EDITS[e.kind as usize]), json::n(e.lo), json::n(e.hi), ins])
}
fn edit_from(j: &J) -> Edit {
    let a = j.arr();
    Edit {
        kind: EDITS.iter().position(|x| *x == a[0].str()).unwrap_or(0) as u8,
        lo: a[1].us(),
        hi: a[2].us(),
        ins: match &a[3] {
            J::S(s) => s.as_bytes().to_vec(),
            v => v.arr().iter().map(|x| x.int() as u8).collect(),
        },
    }
}
impl Plan {
    pub fn to_json(&self) -> J {
        json::obj(vec![
            ("grammar", self.grammar.to_json()),
            ("warm", J::Bool(self.warm)),
            (
                "sessions",
                json::arr(&self.sessions, |s| {
                    json::obj(vec![
                        ("source", json::s(s.clean.clone())),
                        ("damage", json::arr(&s.edits, edit_json)),
                        ("ops", json::arr(&s.ops, op_json)),
                    ])
                }),
            ),
            (
                "order",
                json::arr(&self.order, |(s, t)| J::A(vec![json::n(*s), json::n(*t)])),
            ),
            ("threads", json::n(self.threads)),
            ("schedule", sched_json(&self.sched)),
        ])
    }
    pub fn from_json(j: &J) -> Plan {
        Plan {
            grammar: Grammar::from_json(j.get("grammar")),
            warm: j.get("warm").bool(),
            sessions: j
                .get("sessions")
                .arr()
                .iter()
                .map(|s| Session {
                    clean: s.get("source").str().to_string(),
                    edits: s.get("damage").arr().iter().map(edit_from).collect(),
                    ops: s.get("ops").arr().iter().map(op_from).collect(),
                })
                .collect(),
            order: j
                .get("order")
                .arr()
                .iter()
                .map(|x| (x.arr()[0].us() as u8, x.arr()[1].us() as u8))
                .collect(),
            threads: j.get("threads").us(),
            sched: sched_from(j.get("schedule")),
        }
    }
    /// one session, one thread
    pub fn single(grammar: Grammar, s: Session) -> Plan {
        let order = s.ops.iter().map(|_| (0, 0)).collect();
        Plan {
            grammar,
            warm: true,
            sessions: vec![s],
            order,
            threads: 1,
            sched: Sched::Trace { sw: vec![], spurious: vec![] },
        }
    }
}
