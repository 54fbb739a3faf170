//! The state behind the tables: random histories of insertions and unions over sets of
//! terminals and choice tables, in any order, against plain sets (S13).
use crate::judge::{viol, Facts, Viols};
use crate::real::guard;
use simcore::json::{self, J};
use simcore::lx::l9::L9 as L;
use simcore::rng::*;
use std::collections::{BTreeMap, BTreeSet};
use teleparse::lex::TokenSrc;
use teleparse::syntax::{FirstSet, FollowSet, JumpTable, LitSet, TerminalSet};
use teleparse::Lexicon;

const LITS: [&str; 16] = ["a", "aa", "ab", "abc", "A", "b", "ba", "=", "==", "==>", "<", "<=", "é", "ééé", "~", "if"];
/// not one of them
const OTHER: &str = "zzz";
const NTY: usize = 9;
/// FIRST sets, then FOLLOW sets, then terminal sets, then literal sets of one type
const NF: usize = 4;
const NW: usize = 3;
const NT: usize = 3;
const NL: usize = 3;
const ANY: u32 = 1 << 16;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct AOp {
    pub kind: u8,
    pub a: u8,
    pub b: u8,
    pub ty: u8,
    /// a literal, or 16 for any text of the type
    pub lit: u8,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Sets {
    pub ops: Vec<AOp>,
}
const NAMES: [&str; 9] = ["insert", "insert_empty", "remove_empty", "clear", "union", "union_all", "compare", "table", "start_over"];

/// a set: a mask of literals (or ANY) per type, and the empty word
#[derive(Clone, Default, PartialEq)]
struct M {
    t: [u32; NTY],
    e: bool,
}
impl M {
    fn add(&mut self, ty: usize, m: u32) -> bool {
        let was = self.t[ty];
        self.t[ty] = norm(was | m);
        was != self.t[ty]
    }
    fn union(&mut self, o: &M, e: bool) -> bool {
        let mut c = e && o.e && !self.e;
        self.e |= e && o.e;
        for i in 0..NTY {
            c |= self.add(i, o.t[i]);
        }
        c
    }
    fn has(&self, ty: usize, lit: usize) -> bool {
        self.t[ty] & (ANY | if lit < 16 { 1 << lit } else { 0 }) != 0
    }
    fn common(&self, o: &M, e: bool) -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        if e && self.e && o.e {
            s.insert("<empty>".into());
        }
        for i in 0..NTY {
            let (a, b) = (self.t[i], o.t[i]);
            let c = if a & ANY != 0 {
                b
            } else if b & ANY != 0 {
                a
            } else {
                a & b
            };
            if c & ANY != 0 {
                s.insert(format!("{:?}", L::from_id_unchecked(i)));
            }
            for (k, l) in LITS.iter().enumerate() {
                if c & 1 << k != 0 {
                    s.insert(format!("\"{l}\""));
                }
            }
        }
        s
    }
    fn show(&self) -> String {
        let mut s = self.common(self, true).into_iter().collect::<Vec<_>>().join(", ");
        if s.len() > 300 {
            s.truncate(300);
        }
        format!("{{{s}}}")
    }
}
fn norm(m: u32) -> u32 {
    if m & ANY != 0 {
        ANY
    } else {
        m
    }
}
fn ask(f: impl Fn(Option<TokenSrc<'static, L>>) -> bool) -> M {
    let mut m = M { e: f(None), ..M::default() };
    for i in 0..NTY {
        let q = |s| f(Some(TokenSrc { ty: L::from_id_unchecked(i), src: s }));
        if q(OTHER) {
            m.t[i] = ANY;
            if LITS.iter().any(|l| !q(l)) {
                // in no set that can be
                m.t[i] = !0;
            }
        } else {
            m.t[i] = LITS.iter().enumerate().filter(|(_, l)| q(l)).fold(0, |a, (k, _)| a | 1 << k);
        }
    }
    m
}
fn ask_lit(s: &LitSet) -> u32 {
    if s.contains(OTHER) {
        return if LITS.iter().all(|l| s.contains(l)) { ANY } else { !0 };
    }
    LITS.iter().enumerate().filter(|(_, l)| s.contains(l)).fold(0, |a, (k, _)| a | 1 << k)
}

impl Sets {
    pub fn to_json(&self) -> J {
        json::obj(vec![(
            "ops",
            json::arr(&self.ops, |o| {
                J::A(vec![json::s(NAMES[o.kind as usize]), json::n(o.a), json::n(o.b), json::n(o.ty), json::n(o.lit)])
            }),
        )])
    }
    pub fn from_json(j: &J) -> Sets {
        Sets {
            ops: j
                .get("ops")
                .arr()
                .iter()
                .map(|o| {
                    let a = o.arr();
                    let u = |i: usize| a[i].us() as u8;
                    let kind = NAMES.iter().position(|n| *n == a[0].str()).unwrap_or(0) as u8;
                    AOp { kind, a: u(1), b: u(2), ty: u(3), lit: u(4) }
                })
                .collect(),
        }
    }
    pub fn random(r: &mut Rng) -> Sets {
        let any = *r.pick(&[0, 1, 8]);
        let types = *r.pick(&[1, 2, 9]);
        let lits = *r.pick(&[3, 6, 16]);
        let from = r.below(17 - lits);
        let ops = (0..r.range(2, 60))
            .map(|_| AOp {
                kind: match r.below(20) {
                    0..=8 => 0,
                    9 => 1,
                    10 => 2,
                    11 => *r.pick(&[3, 3, 8]),
                    12 | 13 => 4,
                    14..=16 => 5,
                    17 => 7,
                    _ => 6,
                },
                a: r.below(NF + NW + NT + NL) as u8,
                b: r.below(NF + NW + NT + NL) as u8,
                ty: r.below(types) as u8,
                lit: if r.chance(any, 16) { 16 } else { (from + r.below(lits)) as u8 },
            })
            .collect();
        Sets { ops }
    }
    pub fn run(&self, facts: &mut Facts) -> (Viols, Vec<String>) {
        let mut v: Viols = vec![];
        let mut log = vec![];
        facts.hit("set_histories");
        simrt::account(50_000_000);
        let mut at = String::new();
        let r = guard(|| self.go(&mut at, &mut log));
        simrt::account_end();
        match r {
            Ok(None) => {}
            Ok(Some((c, m))) => v.push(viol(c, format!("{at}: {m}"))),
            Err(e) => v.push(viol("PANIC", format!("{at}: {}", e.show()))),
        }
        (v, log)
    }
    fn go(&self, at: &mut String, log: &mut Vec<String>) -> Option<(&'static str, String)> {
        let mut f: Vec<FirstSet<L>> = (0..NF).map(|_| FirstSet::new()).collect();
        let mut w: Vec<FollowSet<L>> = (0..NW).map(|_| FollowSet::new()).collect();
        let mut t: Vec<TerminalSet<L>> = (0..NT).map(|_| TerminalSet::new()).collect();
        let mut l: Vec<LitSet> = (0..NL).map(|_| LitSet::new()).collect();
        let mut m: Vec<M> = vec![M::default(); NF + NW + NT + NL];
        let mut table = JumpTable::<L>::default();
        let mut choices: BTreeMap<usize, M> = BTreeMap::new();
        let (wf, tf, lf) = (NF, NF + NW, NF + NW + NT);
        for (k, o) in self.ops.iter().enumerate() {
            let (a, b) = (o.a as usize, o.b as usize);
            *at = format!("operation {k} {}({a}, {b}, {}, {})", NAMES[o.kind as usize], o.ty, o.lit);
            let ty = L::from_id_unchecked(o.ty as usize);
            let tyi = if a >= lf { 0 } else { o.ty as usize };
            let lit = LITS.get(o.lit as usize).copied();
            let mask = if o.lit < 16 { 1 << o.lit } else { ANY };
            // what the code answers and what it should
            let mut said: Option<bool> = None;
            let mut should = None;
            match o.kind {
                0 => {
                    should = Some(m[a].add(tyi, mask));
                    said = Some(if a < wf {
                        f[a].insert(ty, lit)
                    } else if a < tf {
                        w[a - wf].insert(ty, lit)
                    } else if a < lf {
                        t[a - tf].insert(ty, lit)
                    } else {
                        match lit {
                            Some(x) => l[a - lf].insert(x),
                            None => l[a - lf].union_universe(),
                        }
                    });
                }
                1 if a < lf => {
                    should = Some(!m[a].e);
                    m[a].e = true;
                    if a < wf {
                        said = Some(f[a].insert_epsilon());
                    } else if a < tf {
                        w[a - wf].insert_eof();
                    } else {
                        said = Some(t[a - tf].insert_e());
                    }
                }
                2 if (tf..lf).contains(&a) => {
                    should = Some(m[a].e);
                    m[a].e = false;
                    said = Some(t[a - tf].remove_e());
                }
                3 => {
                    if a < wf {
                        f[a].clear();
                        m[a] = M::default();
                    } else if (tf..lf).contains(&a) {
                        t[a - tf].clear();
                        m[a] = M::default();
                    } else if a >= lf {
                        l[a - lf].clear();
                        m[a] = M::default();
                    }
                }
                4 | 5 => {
                    let all = o.kind == 5;
                    let y = m[b].clone();
                    if a < wf && b < wf {
                        should = Some(m[a].union(&y, all));
                        let y = f[b].clone();
                        said = Some(if all { f[a].union(&y) } else { f[a].union_minus_epsilon(&y) });
                    } else if (wf..tf).contains(&a) && b < wf {
                        should = Some(m[a].union(&y, false));
                        said = Some(w[a - wf].union_first(&f[b]));
                    } else if (wf..tf).contains(&a) && (wf..tf).contains(&b) {
                        should = Some(m[a].union(&y, true));
                        let y = w[b - wf].clone();
                        said = Some(w[a - wf].union_follow(&y));
                    } else if (tf..lf).contains(&a) && (tf..lf).contains(&b) {
                        should = Some(m[a].union(&y, all));
                        let y = t[b - tf].clone();
                        said = Some(t[a - tf].union(&y, all));
                    } else if a >= lf && b >= lf {
                        should = Some(m[a].union(&y, false));
                        let y = l[b - lf].clone();
                        said = Some(l[a - lf].union(&y));
                    } else if a < wf && (tf..lf).contains(&b) {
                        // a set made from another one
                        m[a] = y;
                        f[a] = FirstSet::from(t[b - tf].clone());
                    } else if (wf..tf).contains(&a) && (tf..lf).contains(&b) {
                        m[a] = y;
                        w[a - wf] = FollowSet::from(t[b - tf].clone());
                    }
                }
                6 => {
                    let got = if a < wf && b < wf {
                        let (x, y) = (&f[a], &f[b]);
                        Some((x == y, [x.intersects(y), x.intersects_minus_epsilon(y)], [x.intersection_repr(y), x.intersection_repr_minus_epsilon(y)]))
                    } else if (wf..tf).contains(&a) && b < wf {
                        let (x, y) = (&w[a - wf], &f[b]);
                        let (i, s) = (x.intersects_first(y), x.intersection_repr_first(y));
                        let e = m[a].e && m[b].e;
                        let mut all = s.clone();
                        if e {
                            all.insert("<empty>".into());
                        }
                        Some((m[a] == m[b], [i | e, i], [all, s]))
                    } else if (tf..lf).contains(&a) && (tf..lf).contains(&b) {
                        let (x, y) = (&t[a - tf], &t[b - tf]);
                        Some((x == y, [x.intersects(y, true), x.intersects(y, false)], [x.intersection_repr(y, true), x.intersection_repr(y, false)]))
                    } else if a >= lf && b >= lf {
                        let (x, y) = (&l[a - lf], &l[b - lf]);
                        let c = x.intersection(y);
                        let want = {
                            let (p, q) = (m[a].t[0], m[b].t[0]);
                            match (p & ANY != 0, q & ANY != 0) {
                                (true, _) => q,
                                (_, true) => p,
                                _ => p & q,
                            }
                        };
                        if ask_lit(&c) != want || x.intersects(y) != (want != 0) || c.is_empty() != (want == 0) || (x == y) != (m[a] == m[b]) {
                            return Some(("ORDER", format!("{x:?} and {y:?} have {c:?} in common, {}", x.intersects(y))));
                        }
                        let listed = x.iter().map(|i| i.copied().collect::<Vec<_>>());
                        let right = match m[a].t[0] {
                            ANY => listed.is_none() && x.is_universe(),
                            k => !x.is_universe() && listed.map(|v| (v.len(), v.iter().collect::<BTreeSet<_>>().len(), ask_lit(&LitSet::from(v)))) == Some((k.count_ones() as usize, k.count_ones() as usize, k)),
                        };
                        if !right {
                            return Some(("ORDER", format!("{x:?} does not list what is in it")));
                        }
                        None
                    } else {
                        None
                    };
                    if let Some((eq, i, s)) = got {
                        let (x, y) = (&m[a], &m[b]);
                        let want = [x.common(y, true), x.common(y, false)];
                        let wi = [!want[0].is_empty(), !want[1].is_empty()];
                        if s != want || i != wi || eq != (x == y) {
                            return Some((
                                "ORDER",
                                format!("{} and {} are said to have {:?} in common ({}, equal: {eq})", x.show(), y.show(), s[0], i[0]),
                            ));
                        }
                    }
                }
                7 if a < wf => {
                    // alternatives of a choice have nothing in common
                    if choices.values().all(|c| c.common(&m[a], true).is_empty()) {
                        let n = choices.len();
                        f[a].add_to_jump_table(&mut table, n);
                        choices.insert(n, m[a].clone());
                    }
                }
                8 => {
                    table = JumpTable::default();
                    choices.clear();
                }
                _ => {}
            }
            if let (Some(x), Some(y)) = (said, should) {
                if x != y {
                    return Some(("ORDER", format!("it says {}changed: {}", if x { "" } else { "un" }, m[a].show())));
                }
            }
            for (i, want) in m.iter().enumerate() {
                let got = if i < wf {
                    let mut g = ask(|x| f[i].contains(x));
                    g.e &= f[i].contains_epsilon();
                    g
                } else if i < tf {
                    let mut g = ask(|x| w[i - wf].contains(x));
                    g.e &= w[i - wf].contains_eof();
                    g
                } else if i < lf {
                    let mut g = ask(|x| t[i - tf].contains(x));
                    g.e &= t[i - tf].contains_e();
                    g
                } else {
                    let x = &l[i - lf];
                    let mut g = M::default();
                    g.t[0] = ask_lit(x);
                    if x.is_empty() != (g.t[0] == 0) {
                        return Some(("ORDER", format!("{x:?} is empty: {}", x.is_empty())));
                    }
                    g
                };
                if got != *want {
                    return Some(("ORDER", format!("set {i} is {} instead of {}", got.show(), want.show())));
                }
            }
            if o.kind >= 7 {
                let empty = choices.iter().find(|(_, c)| c.e).map(|(k, _)| *k);
                for ty in 0..NTY {
                    for k in 0..17 {
                        let src = LITS.get(k).copied().unwrap_or(OTHER);
                        let want = choices.iter().find(|(_, c)| c.has(ty, k)).map(|(k, _)| *k).or(empty);
                        let got = table.look_up(Some(TokenSrc { ty: L::from_id_unchecked(ty), src }));
                        if got != want {
                            return Some(("JUMP", format!("on {src:?} of type {ty}: alternative {got:?} instead of {want:?}")));
                        }
                    }
                }
                let got = table.look_up(None);
                if got != empty {
                    return Some(("JUMP", format!("at the end: alternative {got:?} instead of {empty:?}")));
                }
            }
        }
        for x in &m {
            log.push(x.show());
        }
        None
    }
}
