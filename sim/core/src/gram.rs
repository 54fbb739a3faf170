//! Grammars as data: what the simulated system is configured with.
//!
//! A grammar is a small graph of nodes, every node being one of the real syntax
//! forms of the library (see KINDS). This module also holds the *reference*
//! definition of such a grammar: its productions, FIRST/FOLLOW, the LL(1) verdict,
//! a recogniser and a sentence generator. Nothing here uses the code under test.
use crate::json::{self, J};
use crate::lx::{EPS, NT, TERMS};
use crate::rng::Rng;

pub const NPOS: usize = 12;
pub const NROOT: usize = 4;
/// positions NPOS.. are the root types
pub const ROOTPOS: usize = NPOS;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sym {
    T(u8),
    N(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum F {
    Seq,
    Alt,
    Opt,
    Exists,
    Star,
    Plus,
    Loop,
    Split,
    Punct,
    Recover,
    Boxed,
    Quote,
    Parse,
}

/// name, form, number of children
pub const KINDS: [(&str, F, usize); 35] = [
    ("tup2", F::Seq, 2),
    ("tup3", F::Seq, 3),
    ("tup4", F::Seq, 4),
    ("tup5", F::Seq, 5),
    ("ts1", F::Seq, 1),
    ("ts2", F::Seq, 2),
    ("ts3", F::Seq, 3),
    ("ts5", F::Seq, 5),
    ("ns1", F::Seq, 1),
    ("ns2", F::Seq, 2),
    ("ns4", F::Seq, 4),
    ("en2", F::Alt, 2),
    ("en3", F::Alt, 3),
    ("en4", F::Alt, 4),
    ("en6", F::Alt, 6),
    ("opt", F::Opt, 1),
    ("exists", F::Exists, 1),
    ("star_vec", F::Star, 1),
    ("star_deque", F::Star, 1),
    ("star_sim", F::Star, 1),
    ("plus_vec", F::Plus, 1),
    ("plus_deque", F::Plus, 1),
    ("plus_sim", F::Plus, 1),
    ("loop", F::Loop, 1),
    ("split", F::Split, 2),
    ("punct", F::Punct, 2),
    ("recover", F::Recover, 2),
    ("box", F::Boxed, 1),
    ("quote", F::Quote, 1),
    ("parse_u32", F::Parse, 1),
    ("parse_sim", F::Parse, 1),
    ("ts8", F::Seq, 8),
    ("ns7", F::Seq, 7),
    ("en8", F::Alt, 8),
    ("en11", F::Alt, 11),
];
/// the largest number of children
pub const WIDE: usize = 11;
pub fn kind_by_name(n: &str) -> u8 {
    KINDS.iter().position(|k| k.0 == n).unwrap_or_else(|| panic!("kind {n}")) as u8
}

/// Root types: 0 `struct R0(Slot)`, 1 `struct R1 { #[semantic] a }`,
/// 2 `enum R2 { A(Slot), B(Slot) }`, 3 `struct R3 { a, b }` with marks.
pub const ROOT_ARITY: [usize; NROOT] = [1, 1, 2, 2];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub kind: u8,
    pub pos: u8,
    pub ch: Vec<Sym>,
}
impl Node {
    pub fn form(&self) -> F {
        KINDS[self.kind as usize].1
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Grammar {
    pub nodes: Vec<Node>,
    /// children of each root type; empty if the root type is not used
    pub roots: [Vec<Sym>; NROOT],
}

impl Grammar {
    pub fn resolve(&self, mut s: Sym) -> Sym {
        for _ in 0..=self.nodes.len() {
            match s {
                Sym::N(i) => match self.nodes[i as usize].form() {
                    F::Boxed | F::Quote | F::Parse => s = self.nodes[i as usize].ch[0],
                    _ => return s,
                },
                _ => return s,
            }
        }
        panic!("passthrough cycle")
    }
    pub fn has_passthrough_cycle(&self) -> bool {
        (0..self.nodes.len()).any(|i| {
            let mut s = Sym::N(i as u8);
            for _ in 0..=self.nodes.len() {
                match s {
                    Sym::N(i)
                        if matches!(
                            self.nodes[i as usize].form(),
                            F::Boxed | F::Quote | F::Parse
                        ) =>
                    {
                        s = self.nodes[i as usize].ch[0]
                    }
                    _ => return false,
                }
            }
            true
        })
    }
    pub fn used_roots(&self) -> Vec<usize> {
        (0..NROOT).filter(|r| !self.roots[*r].is_empty()).collect()
    }
    /// The third root may be a type every grammar check must refuse: two equal alternatives
    /// (for sessions that try it among others).
    pub fn barred(&self, r: usize) -> bool {
        r == 2 && self.roots[2].len() == 2 && self.roots[2][0] == self.roots[2][1]
    }
    pub fn good_roots(&self) -> Vec<usize> {
        self.used_roots().into_iter().filter(|r| !self.barred(*r)).collect()
    }
    pub fn reachable(&self, root: usize) -> Vec<bool> {
        let mut seen = vec![false; self.nodes.len()];
        let mut work: Vec<Sym> = self.roots[root].clone();
        while let Some(s) = work.pop() {
            if let Sym::N(i) = s {
                if !std::mem::replace(&mut seen[i as usize], true) {
                    work.extend(self.nodes[i as usize].ch.iter().copied());
                }
            }
        }
        seen
    }
    pub fn to_json(&self) -> J {
        let sym = |s: &Sym| match s {
            Sym::T(t) => json::s(format!("'{}", TERMS[*t as usize].name)),
            Sym::N(i) => json::s(format!("n{i}")),
        };
        json::obj(vec![
            (
                "nodes",
                json::arr(&self.nodes, |n| {
                    json::obj(vec![
                        ("kind", json::s(KINDS[n.kind as usize].0)),
                        ("pos", json::n(n.pos)),
                        ("ch", json::arr(&n.ch, sym)),
                    ])
                }),
            ),
            ("roots", json::arr(&self.roots, |r| json::arr(r, sym))),
        ])
    }
    pub fn from_json(j: &J) -> Grammar {
        let sym = |s: &J| {
            let t = s.str();
            if let Some(t) = t.strip_prefix('\'') {
                Sym::T(TERMS.iter().position(|x| x.name == t).expect("terminal") as u8)
            } else {
                Sym::N(t[1..].parse().expect("node"))
            }
        };
        let mut roots: [Vec<Sym>; NROOT] = Default::default();
        for (i, r) in j.get("roots").arr().iter().enumerate() {
            roots[i] = r.arr().iter().map(sym).collect();
        }
        Grammar {
            nodes: j
                .get("nodes")
                .arr()
                .iter()
                .map(|n| Node {
                    kind: kind_by_name(n.get("kind").str()),
                    pos: n.get("pos").int() as u8,
                    ch: n.get("ch").arr().iter().map(sym).collect(),
                })
                .collect(),
            roots,
        }
    }
}

// ---------------------------------------------------------------- productions

#[derive(Clone, Debug)]
pub enum Prod {
    Term(u8),
    Eps,
    Seq(Vec<usize>),
    Alt(Vec<usize>),
}

/// The productions of one root of a grammar with the reference tables.
#[derive(Clone, Debug)]
pub struct Bnf {
    pub prods: Vec<Prod>,
    /// symbol of each node (passthrough nodes share the symbol of their child)
    pub node_sym: Vec<usize>,
    /// for split/punct/star..: symbol of the node's outermost production
    pub root: usize,
    pub first: Vec<u32>,
    pub follow: Vec<u32>,
    pub reach: Vec<bool>,
    /// choices that may be empty only before what can follow (after a list's delimiter)
    pub strict: Vec<usize>,
}
pub const EPS_SYM: usize = NT;

impl Bnf {
    pub fn of(g: &Grammar, root: usize) -> Bnf {
        let mut strict = vec![];
        let mut prods: Vec<Prod> = (0..NT).map(|t| Prod::Term(t as u8)).collect();
        prods.push(Prod::Eps);
        let base = prods.len();
        for _ in &g.nodes {
            prods.push(Prod::Eps);
        }
        let sym = |s: Sym| match g.resolve(s) {
            Sym::T(t) => t as usize,
            Sym::N(i) => base + i as usize,
        };
        for (i, n) in g.nodes.iter().enumerate() {
            let me = base + i;
            let ch: Vec<usize> = n.ch.iter().map(|s| sym(*s)).collect();
            let mut add = |p: Prod| {
                prods.push(p);
                prods.len() - 1
            };
            let p = match n.form() {
                F::Seq | F::Recover => Prod::Seq(ch),
                F::Alt => Prod::Alt(ch),
                F::Opt | F::Exists => Prod::Alt(vec![ch[0], EPS_SYM]),
                F::Plus | F::Loop => {
                    let o = add(Prod::Alt(vec![me, EPS_SYM]));
                    Prod::Seq(vec![ch[0], o])
                }
                F::Star => {
                    let p = add(Prod::Seq(vec![ch[0], me]));
                    Prod::Alt(vec![p, EPS_SYM])
                }
                F::Split => {
                    // T O; O = PP | e; PP = Pair O; Pair = P T
                    let pair = add(Prod::Seq(vec![ch[1], ch[0]]));
                    let pp = add(Prod::Eps);
                    let o = add(Prod::Alt(vec![pp, EPS_SYM]));
                    prods[pp] = Prod::Seq(vec![pair, o]);
                    Prod::Seq(vec![ch[0], o])
                }
                F::Punct => {
                    // T Q; Q = R | e; R = P W; W = me | e
                    let w = add(Prod::Alt(vec![me, EPS_SYM]));
                    strict.push(w);
                    let r = add(Prod::Seq(vec![ch[1], w]));
                    let q = add(Prod::Alt(vec![r, EPS_SYM]));
                    Prod::Seq(vec![ch[0], q])
                }
                F::Boxed | F::Quote | F::Parse => Prod::Eps, // never referenced
            };
            prods[me] = p;
        }
        let rch: Vec<usize> = g.roots[root].iter().map(|s| sym(*s)).collect();
        prods.push(if root == 2 { Prod::Alt(rch) } else { Prod::Seq(rch) });
        let r = prods.len() - 1;
        let node_sym = (0..g.nodes.len()).map(|i| sym(Sym::N(i as u8))).collect();
        let mut b = Bnf { prods, node_sym, root: r, first: vec![], follow: vec![], reach: vec![], strict };
        b.tables();
        b
    }

    /// From raw productions (terminal i = symbol i, epsilon = symbol NT).
    pub fn raw(prods: Vec<Prod>, root: usize) -> Bnf {
        let mut b =
            Bnf { prods, node_sym: vec![], root, first: vec![], follow: vec![], reach: vec![], strict: vec![] };
        b.tables();
        b
    }

    fn tables(&mut self) {
        let n = self.prods.len();
        let mut reach = vec![false; n];
        let mut work = vec![self.root];
        while let Some(s) = work.pop() {
            if std::mem::replace(&mut reach[s], true) {
                continue;
            }
            if let Prod::Seq(v) | Prod::Alt(v) = &self.prods[s] {
                work.extend(v);
            }
        }
        let mut first = vec![0u32; n];
        loop {
            let mut changed = false;
            for s in 0..n {
                let f = match &self.prods[s] {
                    Prod::Term(t) => TERMS[*t as usize].mask,
                    Prod::Eps => EPS,
                    Prod::Alt(v) => v.iter().fold(0, |a, x| a | first[*x]),
                    Prod::Seq(v) => {
                        let mut a = 0;
                        let mut nullable = true;
                        for x in v {
                            a |= first[*x] & !EPS;
                            if first[*x] & EPS == 0 {
                                nullable = false;
                                break;
                            }
                        }
                        a | if nullable { EPS } else { 0 }
                    }
                };
                if f | first[s] != first[s] {
                    first[s] |= f;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let mut follow = vec![0u32; n];
        follow[self.root] = EPS;
        loop {
            let mut changed = false;
            for s in 0..n {
                if !reach[s] {
                    continue;
                }
                match &self.prods[s] {
                    Prod::Alt(v) => {
                        for x in v {
                            let f = follow[s];
                            if f | follow[*x] != follow[*x] {
                                follow[*x] |= f;
                                changed = true;
                            }
                        }
                    }
                    Prod::Seq(v) => {
                        let mut tail = follow[s];
                        for x in v.iter().rev() {
                            if tail | follow[*x] != follow[*x] {
                                follow[*x] |= tail;
                                changed = true;
                            }
                            tail = if first[*x] & EPS != 0 {
                                tail | (first[*x] & !EPS)
                            } else {
                                first[*x]
                            };
                        }
                    }
                    _ => {}
                }
            }
            if !changed {
                break;
            }
        }
        self.first = first;
        self.follow = follow;
        self.reach = reach;
    }

    /// LL(1): alternatives disjoint, at most one of them nullable, and what a nullable
    /// choice can start with disjoint from what can follow it.
    pub fn conflict(&self) -> bool {
        for s in 0..self.prods.len() {
            if !self.reach[s] {
                continue;
            }
            if let Prod::Alt(v) = &self.prods[s] {
                let mut acc = 0;
                for x in v {
                    if acc & self.first[*x] != 0 {
                        return true;
                    }
                    acc |= self.first[*x];
                }
                if acc & EPS != 0 && acc & !EPS & self.follow[s] != 0 {
                    return true;
                }
            }
        }
        false
    }

    pub fn left_edges(&self, s: usize) -> Vec<usize> {
        match &self.prods[s] {
            Prod::Alt(v) => v.clone(),
            Prod::Seq(v) => {
                let mut out = vec![];
                for x in v {
                    out.push(*x);
                    if self.first[*x] & EPS == 0 {
                        break;
                    }
                }
                out
            }
            _ => vec![],
        }
    }

    pub fn left_recursive(&self) -> bool {
        (0..self.prods.len()).any(|s| {
            if !self.reach[s] {
                return false;
            }
            let mut seen = vec![false; self.prods.len()];
            let mut work = self.left_edges(s);
            while let Some(x) = work.pop() {
                if x == s {
                    return true;
                }
                if !std::mem::replace(&mut seen[x], true) {
                    work.extend(self.left_edges(x));
                }
            }
            false
        })
    }

    pub fn accepted(&self) -> bool {
        !self.conflict() && !self.left_recursive()
    }

    /// least number of tokens of a sentence of each symbol (usize::MAX: none)
    pub fn min_len(&self) -> Vec<usize> {
        let n = self.prods.len();
        let mut m = vec![usize::MAX; n];
        loop {
            let mut changed = false;
            for s in 0..n {
                let v = match &self.prods[s] {
                    Prod::Term(_) => 1,
                    Prod::Eps => 0,
                    Prod::Alt(v) => v.iter().map(|x| m[*x]).min().unwrap_or(usize::MAX),
                    Prod::Seq(v) => {
                        v.iter().fold(0usize, |a, x| a.saturating_add(m[*x]))
                    }
                };
                if v < m[s] {
                    m[s] = v;
                    changed = true;
                }
            }
            if !changed {
                return m;
            }
        }
    }

    /// Predictive recogniser: number of tokens of the sentence read from `i`, or None.
    /// `toks[i]` is the probe mask of token i.
    pub fn recognise(&self, s: usize, toks: &[u32], i: usize) -> Option<usize> {
        let (mut s, mut i) = (s, i);
        // the last part is not a recursion: lists are long
        loop {
            match &self.prods[s] {
                Prod::Term(t) => {
                    return if i < toks.len() && toks[i] & TERMS[*t as usize].mask != 0 { Some(i + 1) } else { None };
                }
                Prod::Eps => return Some(i),
                Prod::Seq(v) => {
                    let Some((last, head)) = v.split_last() else { return Some(i) };
                    for x in head {
                        i = self.recognise(*x, toks, i)?;
                    }
                    s = *last;
                }
                Prod::Alt(v) => {
                    let look = toks.get(i).copied().unwrap_or(0);
                    let sel = v
                        .iter()
                        .find(|x| look & self.first[**x] != 0)
                        .or_else(|| v.iter().find(|x| self.first[**x] & EPS != 0))?;
                    if *sel == EPS_SYM && look != 0 && self.strict.contains(&s) && look & self.follow[s] == 0 {
                        return None;
                    }
                    s = *sel;
                }
            }
        }
    }
}

// ---------------------------------------------------------------- random grammars

/// Which forms a workload favours.
#[derive(Clone, Debug)]
pub struct Profile {
    pub min_nodes: usize,
    pub max_nodes: usize,
    /// weight per form
    pub w: Vec<(F, u32)>,
    /// percent of terminals with fixed text
    pub lit_pct: usize,
    /// percent chance of a back reference (recursion)
    pub rec_pct: usize,
    /// percent chance that a root child is wrapped in a loop
    pub loop_pct: usize,
}
pub fn base_weights() -> Vec<(F, u32)> {
    vec![
        (F::Seq, 10),
        (F::Alt, 7),
        (F::Opt, 4),
        (F::Exists, 2),
        (F::Star, 3),
        (F::Plus, 3),
        (F::Split, 3),
        (F::Punct, 3),
        (F::Recover, 3),
        (F::Boxed, 1),
        (F::Quote, 1),
        (F::Parse, 1),
    ]
}
impl Default for Profile {
    fn default() -> Self {
        Profile {
            min_nodes: 2,
            max_nodes: 9,
            w: base_weights(),
            lit_pct: 75,
            rec_pct: 12,
            loop_pct: 15,
        }
    }
}

fn kinds_of(f: F) -> Vec<u8> {
    (0..KINDS.len() as u8).filter(|k| KINDS[*k as usize].1 == f).collect()
}

pub fn random_term(r: &mut Rng, lit_pct: usize) -> u8 {
    if r.below(100) < lit_pct {
        loop {
            let t = r.below(NT);
            if TERMS[t].lit.is_some() {
                return t as u8;
            }
        }
    } else {
        *r.pick(&[0u8, 4, 18])
    }
}

fn random_raw(r: &mut Rng, p: &Profile, nroots: usize) -> Grammar {
    let n = r.range(p.min_nodes, p.max_nodes.min(NPOS));
    let mut pos: Vec<u8> = (0..NPOS as u8).collect();
    r.shuffle(&mut pos);
    // swarm: a random subset of forms is switched off in each grammar
    let mut w: Vec<(F, u32)> = p.w.clone();
    for x in w.iter_mut() {
        if r.chance(1, 4) && x.0 != F::Seq {
            x.1 = 0;
        }
    }
    let term_pct = r.range(30, 60);
    let ws: Vec<u32> = w.iter().map(|x| x.1).collect();
    let mut nodes: Vec<Node> = vec![];
    for i in 0..n {
        let f = w[r.weighted(&ws)].0;
        let ks = kinds_of(f);
        let mut kind = *r.pick(&ks);
        if KINDS[kind as usize].2 > 6 && !r.chance(1, 3) {
            kind = *r.pick(&ks);
        }
        let arity = KINDS[kind as usize].2;
        let mut ch: Vec<Sym> = vec![];
        for k in 0..arity {
            let later = n - i - 1;
            let s = if i > 0 && r.below(100) < p.rec_pct && (k > 0 || f == F::Alt) {
                Sym::N(r.below(i + 1) as u8)
            } else if later == 0 || r.below(100) < term_pct {
                let mut s = Sym::T(random_term(r, p.lit_pct));
                // many alternatives that all start differently
                for _ in 0..6 {
                    if arity > 6 && f == F::Alt && ch.contains(&s) {
                        s = Sym::T(random_term(r, p.lit_pct));
                    }
                }
                s
            } else {
                // prefer near successors so that most nodes are reachable
                let d = 1 + r.below(later.min(3));
                Sym::N((i + d) as u8)
            };
            ch.push(s);
        }
        // a delimiter is usually a terminal
        if matches!(f, F::Split | F::Punct | F::Recover) && r.chance(3, 4) {
            ch[1] = Sym::T(random_term(r, 95));
        }
        nodes.push(Node { kind, pos: pos[i], ch });
    }
    let mut roots: [Vec<Sym>; NROOT] = Default::default();
    let mut order: Vec<usize> = (0..NROOT).collect();
    r.shuffle(&mut order);
    for (j, ri) in order.iter().take(nroots).enumerate() {
        let mut v = vec![];
        for k in 0..ROOT_ARITY[*ri] {
            v.push(if j == 0 && k == 0 {
                Sym::N(0)
            } else if r.chance(1, 3) {
                Sym::T(random_term(r, p.lit_pct))
            } else {
                Sym::N(r.below(n) as u8)
            });
        }
        roots[*ri] = v;
    }
    // maybe a whole-input loop as the last part of the first root
    if n < NPOS && r.below(100) < p.loop_pct {
        let ri = order[0];
        let k = if ri == 2 { 0 } else { ROOT_ARITY[ri] - 1 };
        let inner = roots[ri][k];
        nodes.push(Node { kind: kind_by_name("loop"), pos: pos[n], ch: vec![inner] });
        roots[ri][k] = Sym::N(n as u8);
    }
    Grammar { nodes, roots }
}

/// A loop may only be the last thing of a root (it runs to the end of the input).
fn loops_ok(g: &Grammar) -> bool {
    let is_loop = |s: &Sym| matches!(s, Sym::N(i) if g.nodes[*i as usize].form() == F::Loop);
    if g.nodes.iter().any(|n| n.ch.iter().any(is_loop)) {
        return false;
    }
    for (r, v) in g.roots.iter().enumerate() {
        if r != 2 && v.len() == 2 && is_loop(&v[0]) {
            return false;
        }
    }
    true
}

/// Drop the nodes no root reaches and renumber.
pub fn compact(g: &Grammar) -> Grammar {
    let mut keep = vec![false; g.nodes.len()];
    for r in g.used_roots() {
        for (k, x) in g.reachable(r).iter().enumerate() {
            keep[k] |= x;
        }
    }
    let mut map = vec![0u8; g.nodes.len()];
    let mut c = 0;
    for i in 0..g.nodes.len() {
        if keep[i] {
            map[i] = c;
            c += 1;
        }
    }
    let m = |s: &Sym| match s {
        Sym::T(t) => Sym::T(*t),
        Sym::N(i) => Sym::N(map[*i as usize]),
    };
    let mut roots: [Vec<Sym>; NROOT] = Default::default();
    for r in 0..NROOT {
        roots[r] = g.roots[r].iter().map(m).collect();
    }
    Grammar {
        nodes: g
            .nodes
            .iter()
            .enumerate()
            .filter(|(i, _)| keep[*i])
            .map(|(_, n)| Node { kind: n.kind, pos: n.pos, ch: n.ch.iter().map(m).collect() })
            .collect(),
        roots,
    }
}

/// Structurally valid (no passthrough cycle, loops only at the end of a root).
pub fn well_formed(g: &Grammar) -> bool {
    !g.used_roots().is_empty() && !g.has_passthrough_cycle() && loops_ok(g)
}

/// Every root accepted by the reference and every reachable symbol productive.
pub fn usable(g: &Grammar) -> bool {
    well_formed(g)
        && !g.good_roots().is_empty()
        && (!g.barred(2) || !Bnf::of(g, 2).accepted())
        && g.good_roots().iter().all(|r| {
            let b = Bnf::of(g, *r);
            if !b.accepted() {
                return false;
            }
            let m = b.min_len();
            (0..b.prods.len()).all(|s| !b.reach[s] || m[s] <= 25)
        })
}

/// A random grammar all roots of which are accepted; `nroots` root types are used.
pub fn random_usable(r: &mut Rng, p: &Profile, nroots: usize) -> Grammar {
    let mut p = p.clone();
    for tries in 0.. {
        let g = random_raw(r, &p, nroots);
        if usable(&g) {
            return compact(&g);
        }
        if tries % 400 == 399 && p.max_nodes > p.min_nodes {
            p.max_nodes -= 1;
        }
    }
    unreachable!()
}

/// Any well-formed grammar, accepted or not.
pub fn random_any(r: &mut Rng, p: &Profile, nroots: usize) -> Grammar {
    loop {
        let g = random_raw(r, p, nroots);
        if well_formed(&g) {
            return compact(&g);
        }
    }
}

// ---------------------------------------------------------------- sentences

/// A derivation; tokens are numbered in the order they are written.
#[derive(Clone, Debug)]
pub enum D {
    Tok(u8),
    Seq(Vec<D>),
    Alt(u8, Box<D>),
    /// opt / exists
    Maybe(Option<Box<D>>),
    List(Vec<D>),
    Sep(Vec<D>, Vec<D>),
    Pair(Box<D>, Box<D>),
    /// box / quote / parse
    Pass(Box<D>),
}

pub struct Deriver<'a> {
    pub g: &'a Grammar,
    b: &'a Bnf,
    min: Vec<usize>,
    pub toks: Vec<(u8, String)>,
    budget: isize,
    rep: usize,
    /// the first list that is met gets this many items (each a small one)
    pub long: usize,
}

pub fn token_text(r: &mut Rng, t: u8) -> String {
    match TERMS[t as usize].lit {
        Some(l) => l.to_string(),
        None => match t {
            0 => r.pick(&["a", "b", "x1", "foo_bar", "k", "zz9", "if", "fn", "i", "letx", "LET", "If"]).to_string(),
            4 => r.pick(&["0", "1", "42", "3.14", "007", "9", "10.5", "4294967296"]).to_string(),
            _ => r.pick(&["α", "λ", "λλ", "βγ", "ο"]).to_string(),
        },
    }
}

impl<'a> Deriver<'a> {
    pub fn new(g: &'a Grammar, b: &'a Bnf, budget: usize, rep: usize) -> Self {
        Deriver { g, b, min: b.min_len(), toks: vec![], budget: budget as isize, rep, long: 0 }
    }
    fn sym(&self, s: Sym) -> usize {
        match s {
            Sym::T(t) => t as usize,
            Sym::N(i) => self.b.node_sym[i as usize],
        }
    }
    fn min_of(&self, s: Sym) -> usize {
        self.min[self.sym(s)]
    }
    /// How many items the list now met must have, if it is to be a long one.
    fn take_long(&mut self, r: &mut Rng) -> usize {
        if self.long > 0 && r.chance(2, 3) {
            std::mem::take(&mut self.long)
        } else {
            0
        }
    }
    fn item(&mut self, r: &mut Rng, have: usize, long: usize, cost: usize) -> bool {
        if have < long {
            self.budget = r.below(4) as isize;
            return cost != usize::MAX;
        }
        self.more(r, cost)
    }
    fn more(&mut self, r: &mut Rng, cost: usize) -> bool {
        self.budget > cost as isize && r.chance(self.rep, self.rep + 1)
    }
    pub fn root(&mut self, r: &mut Rng, root: usize) -> D {
        let v = self.g.roots[root].clone();
        if root == 2 {
            self.alt(r, &v)
        } else {
            D::Seq(v.iter().map(|s| self.go(r, *s)).collect())
        }
    }
    fn alt(&mut self, r: &mut Rng, v: &[Sym]) -> D {
        let best = v.iter().map(|s| self.min_of(*s)).min().unwrap();
        let ok: Vec<usize> = (0..v.len())
            .filter(|i| {
                let m = self.min_of(v[*i]);
                m == best || (m != usize::MAX && (m as isize) <= self.budget)
            })
            .collect();
        let i = *r.pick(&ok);
        D::Alt(i as u8, Box::new(self.go(r, v[i])))
    }
    /// Derive something that is not empty (used for optional parts). None if it came out empty.
    fn go_nonempty(&mut self, r: &mut Rng, s: Sym) -> Option<D> {
        let before = self.toks.len();
        let d = self.go(r, s);
        if self.toks.len() == before {
            None
        } else {
            Some(d)
        }
    }
    pub fn go(&mut self, r: &mut Rng, s: Sym) -> D {
        let i = match s {
            Sym::T(t) => {
                let text = token_text(r, t);
                self.toks.push((t, text));
                self.budget -= 1;
                return D::Tok(t);
            }
            Sym::N(i) => i,
        };
        let n = self.g.nodes[i as usize].clone();
        match n.form() {
            F::Seq => D::Seq(n.ch.iter().map(|s| self.go(r, *s)).collect()),
            F::Alt => self.alt(r, &n.ch),
            F::Opt | F::Exists => {
                let m = self.min_of(n.ch[0]);
                if self.more(r, m) {
                    D::Maybe(self.go_nonempty(r, n.ch[0]).map(Box::new))
                } else {
                    D::Maybe(None)
                }
            }
            F::Star | F::Plus | F::Loop => {
                let m = self.min_of(n.ch[0]);
                let long = self.take_long(r);
                let mut v = vec![];
                if n.form() == F::Plus || (n.form() == F::Loop && r.chance(9, 10)) {
                    v.push(self.go(r, n.ch[0]));
                }
                while self.item(r, v.len(), long, m) {
                    match self.go_nonempty(r, n.ch[0]) {
                        Some(d) => v.push(d),
                        None => break,
                    }
                }
                D::List(v)
            }
            F::Split => {
                let m = self.min_of(n.ch[0]).saturating_add(self.min_of(n.ch[1]));
                let long = self.take_long(r);
                let mut e = vec![self.go(r, n.ch[0])];
                let mut p = vec![];
                while self.item(r, e.len(), long, m) {
                    let before = self.toks.len();
                    let x = self.go(r, n.ch[1]);
                    let y = self.go(r, n.ch[0]);
                    if self.toks.len() == before {
                        break;
                    }
                    p.push(x);
                    e.push(y);
                }
                D::Sep(e, p)
            }
            F::Punct => {
                let m = self.min_of(n.ch[0]).saturating_add(self.min_of(n.ch[1]));
                let long = self.take_long(r);
                let mut e = vec![self.go(r, n.ch[0])];
                let mut p = vec![];
                while self.item(r, e.len(), long, m) {
                    // an empty delimiter cannot be told from its absence
                    match self.go_nonempty(r, n.ch[1]) {
                        Some(d) => p.push(d),
                        None => break,
                    }
                    if e.len() >= long && r.chance(1, 6) {
                        break;
                    }
                    match self.go_nonempty(r, n.ch[0]) {
                        Some(d) => e.push(d),
                        None => break,
                    }
                }
                D::Sep(e, p)
            }
            F::Recover => {
                let a = self.go(r, n.ch[0]);
                let b = self.go(r, n.ch[1]);
                D::Pair(Box::new(a), Box::new(b))
            }
            F::Boxed | F::Quote | F::Parse => D::Pass(Box::new(self.go(r, n.ch[0]))),
        }
    }
}
