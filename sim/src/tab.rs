//! The tables of a grammar and the verdict on it, against the definitions (S13).
use crate::judge::{viol, Facts, Viols};
use crate::raw::Raw;
use crate::real::{first_mask, follow_mask, guard, norm_mask, src_of};
use simcore::gram::*;
use simcore::json::{self, J};
use simcore::lx::*;
use simcore::rng::*;
use simgen as g;
use std::any::TypeId;
use teleparse::syntax::{Metadata, MetadataBuilder};
use teleparse::GrammarError;

#[derive(Clone, Debug)]
pub struct Tab {
    pub grammar: Grammar,
    pub root: usize,
    /// what is registered before the root, in this order
    pub early: Vec<Sym>,
    /// seed of a renaming of all symbols and of the order they are added in
    pub rename: u64,
}
/// The same grammar with one to three parts near the front of a node replaced by another
/// node (often one that leads here): most of these are left-recursive.
fn leftward(r: &mut Rng, g: &Grammar) -> Grammar {
    for _ in 0..10 {
        let mut h = g.clone();
        for _ in 0..r.range(1, 3) {
            let n = h.nodes.len();
            let i = r.below(n);
            let to = if r.chance(1, 2) { r.below(i + 1) } else { r.below(n) };
            let m = h.nodes[i].ch.len();
            let k = if h.nodes[i].form() == F::Alt { r.below(m) } else { r.below(m.min(3)) };
            h.nodes[i].ch[k] = Sym::N(to as u8);
        }
        if well_formed(&h) {
            return compact(&h);
        }
    }
    g.clone()
}

impl Tab {
    pub fn to_json(&self) -> J {
        json::obj(vec![
            ("grammar", self.grammar.to_json()),
            ("root", json::n(self.root)),
            (
                "registered_early",
                json::arr(&self.early, |s| match s {
                    Sym::T(t) => json::s(format!("'{}", TERMS[*t as usize].name)),
                    Sym::N(i) => json::s(format!("n{i}")),
                }),
            ),
            ("rename", json::s(format!("{:x}", self.rename))),
        ])
    }
    pub fn from_json(j: &J) -> Tab {
        Tab {
            grammar: Grammar::from_json(j.get("grammar")),
            root: j.get("root").us(),
            early: j
                .get("registered_early")
                .arr()
                .iter()
                .map(|s| {
                    let s = s.str();
                    match s.strip_prefix('\'') {
                        Some(t) => Sym::T(TERMS.iter().position(|x| x.name == t).unwrap_or(0) as u8),
                        None => Sym::N(s[1..].parse().unwrap_or(0)),
                    }
                })
                .collect(),
            rename: u64::from_str_radix(j.get("rename").str(), 16).unwrap_or(0),
        }
    }
    pub fn random(r: &mut Rng, p: &Profile) -> Tab {
        let mut p = p.clone();
        p.rec_pct = *r.pick(&[0, 15, 30, 45]);
        p.min_nodes = 1;
        p.max_nodes = *r.pick(&[3, 6, 9, 12]);
        let mut grammar = if r.chance(1, 3) { random_usable(r, &p, 1) } else { random_any(r, &p, 1) };
        if r.chance(1, 4) {
            grammar = leftward(r, &grammar);
        }
        let root = grammar.used_roots()[0];
        let reach = grammar.reachable(root);
        let mut early: Vec<Sym> = (0..grammar.nodes.len()).filter(|i| reach[*i]).map(|i| Sym::N(i as u8)).collect();
        r.shuffle(&mut early);
        early.truncate(r.below(early.len() + 1));
        Tab { grammar, root, early, rename: r.next() }
    }

    pub fn run(&self, facts: &mut Facts) -> (Viols, Vec<String>) {
        let mut v: Viols = vec![];
        let mut log = vec![];
        let gr = &self.grammar;
        g::set_grammar(gr);
        simrt::account(200_000_000);
        // 1. registered from the root alone
        let a = guard(|| {
            let mut b = MetadataBuilder::new();
            g::root_register(self.root, &mut b);
            b
        });
        let a = match a {
            Ok(b) => b,
            Err(e) => return (vec![viol("PANIC", e.show())], log),
        };
        let root = g::root_id(self.root);
        let raw = Raw::of(&a, root, self.ids());
        let real = match guard(|| a.build(root)) {
            Ok(m) => m,
            Err(e) => return (vec![viol("PANIC", e.show())], log),
        };
        facts.hit(if real.is_ok() { "grammar_accepted" } else { "grammar_rejected" });
        let bnf = Bnf::of(gr, self.root);
        log.push(dump(&real, &raw));
        match &real {
            Ok(m) => {
                if !bnf.accepted() {
                    v.push(viol("VERDICT", format!("accepted, but it has {}", what(&bnf))));
                } else {
                    self.tables(m, &bnf, &mut v);
                    raw.tables(m, &mut v);
                }
            }
            Err(e) => {
                facts.hit(match e {
                    GrammarError::LeftRecursion(_) => "reject_left_recursion",
                    GrammarError::FirstFirstConflict(..) => "reject_first_first",
                    GrammarError::FirstFollowConflict(..) => "reject_first_follow",
                    GrammarError::FirstFollowSeqConflict(..) => "reject_first_follow_seq",
                    _ => "reject_other",
                });
                if bnf.accepted() {
                    v.push(viol("VERDICT", format!("rejected ({e}), but it is LL(1) and has no left recursion")));
                } else if let Some(m) = raw.claim(e) {
                    v.push(viol("CLAIM", format!("rejected with \"{e}\", but {m}")));
                }
            }
        }
        // 2. the same grammar met in another order
        if v.is_empty() && !self.early.is_empty() {
            let b = guard(|| {
                let mut b = MetadataBuilder::new();
                for s in &self.early {
                    match s {
                        Sym::T(t) => g::term_register(*t, &mut b),
                        Sym::N(i) => {
                            if let Some(n) = gr.nodes.get(*i as usize) {
                                g::node_register(n.pos, n.kind, &mut b)
                            }
                        }
                    }
                }
                g::root_register(self.root, &mut b);
                b.build(root)
            });
            match b {
                Ok(b) => {
                    let d = dump(&b, &raw);
                    if d != log[0] {
                        v.push(viol("ORDER", format!("registered in another order the tables are {d}, not {}", log[0])));
                    }
                }
                Err(e) => v.push(viol("PANIC", e.show())),
            }
        }
        // 3. the same grammar with other type numbers, added in another order
        if v.is_empty() && raw.can_rename() {
            match guard(|| raw.renamed(self.rename)) {
                Ok((ok, d)) => {
                    let same = match &real {
                        Ok(_) => ok && d == raw.dump_all(real.as_ref().ok()),
                        Err(_) => !ok,
                    };
                    if !same {
                        v.push(viol("ORDER", format!("with other type numbers: {d}, not {}", raw.dump_all(real.as_ref().ok()))));
                    }
                    facts.hit("renamed");
                }
                Err(e) => v.push(viol("PANIC", e.show())),
            }
        }
        simrt::account_end();
        (v, log)
    }
    /// the ids of what the grammar names
    fn ids(&self) -> Vec<TypeId> {
        let reach = self.grammar.reachable(self.root);
        let mut v = vec![g::root_id(self.root)];
        v.extend(self.grammar.nodes.iter().enumerate().filter(|(i, _)| reach[*i]).map(|(_, n)| g::node_id(n.pos, n.kind)));
        v.extend((0..NT).map(|t| g::term_id(t as u8)));
        v
    }
    fn tables(&self, m: &Metadata<Lx>, b: &Bnf, v: &mut Viols) {
        let gr = &self.grammar;
        let reach = gr.reachable(self.root);
        let mut check = |name: String, id: TypeId, sym: usize, alt: bool| {
            let (f, w) = (first_mask(m.first.get(&id)), follow_mask(m.follow.get(&id)));
            if f != norm_mask(b.first[sym]) {
                v.push(viol("FIRST", format!("FIRST({name}) = {f:#x} instead of {:#x}", b.first[sym])));
            }
            if w != norm_mask(b.follow[sym]) {
                v.push(viol("FOLLOW", format!("FOLLOW({name}) = {w:#x} instead of {:#x}", b.follow[sym])));
            }
            if alt {
                jumps(&name, m, id, sym, b, v);
            }
        };
        for (i, n) in gr.nodes.iter().enumerate() {
            if reach[i] {
                let s = b.node_sym[i];
                check(format!("n{i} {}", KINDS[n.kind as usize].0), g::node_id(n.pos, n.kind), s, n.form() == F::Alt);
            }
        }
        for t in 0..NT {
            if b.reach[t] {
                check(TERMS[t].name.to_string(), g::term_id(t as u8), t, false);
            }
        }
        check("root".into(), g::root_id(self.root), b.root, self.root == 2);
    }
}
pub fn jumps(name: &str, m: &Metadata<Lx>, id: TypeId, sym: usize, b: &Bnf, v: &mut Viols) {
    let Prod::Alt(alts) = &b.prods[sym] else { return };
    for k in 0..=20 {
        let probe = if k < 20 { 1u32 << k } else { EPS };
        let nullable = alts.iter().position(|x| b.first[*x] & EPS != 0);
        let want = if k < 20 {
            alts.iter().position(|x| norm_mask(b.first[*x]) & probe != 0).or(nullable)
        } else {
            nullable
        };
        let got = m.jump.look_up(&id, if k < 20 { Some(src_of(k)) } else { None });
        if got != want {
            v.push(viol("JUMP", format!("{name} on {}: alternative {got:?} instead of {want:?}", if k < 20 { probe_text(k) } else { "the end" })));
            return;
        }
    }
}
fn what(b: &Bnf) -> &'static str {
    match (b.conflict(), b.left_recursive()) {
        (true, _) => "a conflict",
        _ => "left recursion",
    }
}
fn dump(m: &Result<Metadata<Lx>, GrammarError>, raw: &Raw) -> String {
    match m {
        // which of several errors is found first may depend on the order
        Err(_) => "rejected".into(),
        Ok(m) => raw.dump_all(Some(m)),
    }
}
