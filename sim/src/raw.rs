//! The grammar as the library registered it, down to its internal symbols (S13).
use crate::judge::{viol, Viols};
use crate::real::{first_mask, follow_mask, norm_mask, src_of};
use crate::tab::jumps;
use simcore::gram::*;
use simcore::lx::*;
use simcore::rng::*;
use simgen as g;
use std::any::TypeId;
use std::collections::BTreeMap;
use teleparse::syntax::{Metadata, MetadataBuilder, ProductionEntry};
use teleparse::GrammarError;

fn copy(p: &ProductionEntry) -> ProductionEntry {
    match p {
        ProductionEntry::Terminal => ProductionEntry::Terminal,
        ProductionEntry::Sequence(v) => ProductionEntry::Sequence(v.clone()),
        ProductionEntry::Union(v) => ProductionEntry::Union(v.clone()),
    }
}
pub struct Raw {
    /// symbol of each id: terminals, epsilon, then the rest
    sym: BTreeMap<TypeId, usize>,
    ids: Vec<TypeId>,
    names: BTreeMap<TypeId, String>,
    prods: BTreeMap<TypeId, ProductionEntry>,
    b: Bnf,
    root: TypeId,
}
impl Raw {
    pub fn of(a: &MetadataBuilder<Lx>, root: TypeId, _ids: Vec<TypeId>) -> Raw {
        let names = a.names.clone();
        let prods: BTreeMap<TypeId, ProductionEntry> = a.productions.iter().map(|(k, p)| (*k, copy(p))).collect();
        let mut sym = BTreeMap::new();
        for t in 0..NT {
            sym.insert(g::term_id(t as u8), t);
        }
        let mut list: Vec<Prod> = (0..NT).map(|t| Prod::Term(t as u8)).collect();
        list.push(Prod::Eps);
        let ids: Vec<TypeId> = prods.keys().copied().collect();
        for (k, p) in &prods {
            if !sym.contains_key(k) {
                if matches!(p, ProductionEntry::Terminal) {
                    sym.insert(*k, EPS_SYM);
                } else {
                    list.push(Prod::Eps);
                    sym.insert(*k, list.len() - 1);
                }
            }
        }
        let of = |v: &Vec<TypeId>| v.iter().map(|t| sym.get(t).copied().unwrap_or(EPS_SYM)).collect();
        for (k, p) in &prods {
            let i = sym[k];
            match p {
                ProductionEntry::Sequence(v) => list[i] = Prod::Seq(of(v)),
                ProductionEntry::Union(v) => list[i] = Prod::Alt(of(v)),
                _ => {}
            }
        }
        let r = sym.get(&root).copied().unwrap_or(EPS_SYM);
        let b = Bnf::raw(list, r);
        Raw { sym, ids, names, prods, b, root }
    }
    pub fn dump_all(&self, m: Option<&Metadata<Lx>>) -> String {
        use std::fmt::Write;
        let Some(m) = m else { return "rejected".into() };
        let mut lines: Vec<String> = vec![];
        for id in &self.ids {
            let mut s = format!("{}:{:x}/{:x}", self.sym[id], first_mask(m.first.get(id)), follow_mask(m.follow.get(id)));
            for k in 0..=20 {
                let _ = match m.jump.look_up(id, if k < 20 { Some(src_of(k)) } else { None }) {
                    Some(i) => write!(s, "{i}"),
                    None => write!(s, "-"),
                };
            }
            lines.push(s);
        }
        lines.sort();
        lines.join(" ")
    }
    /// every internal symbol too: FIRST, FOLLOW and choices by the definitions
    pub fn tables(&self, m: &Metadata<Lx>, v: &mut Viols) {
        for id in &self.ids {
            let s = self.sym[id];
            let name = self.names.get(id).map_or("?", |x| x.as_str());
            if s == EPS_SYM {
                continue;
            }
            let f = first_mask(m.first.get(id));
            if f != norm_mask(self.b.first[s]) {
                v.push(viol("FIRST", format!("FIRST({name}) = {f:#x} instead of {:#x}", self.b.first[s])));
            }
            let w = follow_mask(m.follow.get(id));
            if self.b.reach[s] && w != norm_mask(self.b.follow[s]) {
                v.push(viol("FOLLOW", format!("FOLLOW({name}) = {w:#x} instead of {:#x}", self.b.follow[s])));
            }
            if self.b.reach[s] {
                jumps(name, m, *id, s, &self.b, v);
            }
        }
    }
    pub fn can_rename(&self) -> bool {
        self.ids.len() <= g::NTAG
    }
    pub fn renamed(&self, seed: u64) -> (bool, String) {
        let mut r = Rng::new(seed);
        let mut tags: Vec<usize> = (0..g::NTAG).collect();
        r.shuffle(&mut tags);
        let map: BTreeMap<TypeId, TypeId> = self.ids.iter().enumerate().map(|(i, id)| (*id, g::tag(tags[i]))).collect();
        let to = |t: &TypeId| map.get(t).copied().unwrap_or(*t);
        let mut order = self.ids.clone();
        r.shuffle(&mut order);
        let mut b = MetadataBuilder::<Lx>::new();
        for id in &order {
            let t = to(id);
            let name = self.names.get(id).cloned().unwrap_or_default();
            if !b.visit(t, || name) {
                continue;
            }
            match &self.prods[id] {
                ProductionEntry::Terminal => match self.sym[id] {
                    EPS_SYM => b.add_epsilon(t),
                    k => b.add_terminal(t, TERMS[k].ty, TERMS[k].lit),
                },
                ProductionEntry::Sequence(v) => b.add_sequence(t, &v.iter().map(to).collect::<Vec<_>>()),
                ProductionEntry::Union(v) => b.add_union(t, &v.iter().map(to).collect::<Vec<_>>()),
            }
        }
        match b.build(to(&self.root)) {
            Err(_) => (false, "rejected".into()),
            Ok(m) => {
                let back = Raw {
                    sym: self.sym.iter().map(|(k, s)| (to(k), *s)).collect(),
                    ids: self.ids.iter().map(to).collect(),
                    names: BTreeMap::new(),
                    prods: BTreeMap::new(),
                    b: Bnf { prods: vec![], node_sym: vec![], root: 0, first: vec![], follow: vec![], reach: vec![], strict: vec![] },
                    root: to(&self.root),
                };
                (true, back.dump_all(Some(&m)))
            }
        }
    }

    // ------------------------------------------------------------ claims
    fn named(&self, n: &str) -> Vec<usize> {
        let mut v: Vec<usize> =
            self.ids.iter().filter(|i| self.names.get(i).is_some_and(|x| x == n)).map(|i| self.sym[i]).collect();
        v.sort();
        v.dedup();
        v
    }
    /// Is there really what the rejection says? Some(why not).
    pub fn claim(&self, e: &GrammarError) -> Option<String> {
        let b = &self.b;
        match e {
            GrammarError::LeftRecursion(path) => {
                let p: Vec<&str> = path.split(" -> ").collect();
                // sets of symbols reachable along the named path by leftmost steps
                let last = p[p.len() - 1];
                for (i, n) in p[..p.len() - 1].iter().enumerate() {
                    if *n != last {
                        continue;
                    }
                    for start in self.named(n) {
                        let mut cur = vec![start];
                        for step in &p[i + 1..] {
                            let want = self.named(step);
                            cur = cur
                                .iter()
                                .flat_map(|s| b.left_edges(*s))
                                .filter(|s| want.contains(s))
                                .collect();
                            cur.sort();
                            cur.dedup();
                        }
                        if cur.contains(&start) {
                            return None;
                        }
                    }
                }
                Some("there is no such leftmost cycle".into())
            }
            GrammarError::FirstFirstConflict(me, x, y, terms) => {
                let (xs, ys) = (self.named(x), self.named(y));
                for s in self.named(me) {
                    if let Prod::Alt(v) = &b.prods[s] {
                        for (i, p) in v.iter().enumerate() {
                            for (j, q) in v.iter().enumerate() {
                                if i != j && xs.contains(p) && ys.contains(q) {
                                    let m = norm_mask(b.first[*p]) & norm_mask(b.first[*q]);
                                    if m != 0 && terms_match(terms, m) {
                                        return None;
                                    }
                                }
                            }
                        }
                    }
                }
                Some("no such alternatives share these tokens".into())
            }
            GrammarError::FirstFollowSeqConflict(me, x, y, terms) => {
                let (xs, ys) = (self.named(x), self.named(y));
                for s in self.named(me) {
                    if let Prod::Seq(v) = &b.prods[s] {
                        for i in 0..v.len() {
                            for j in i + 1..v.len() {
                                let run = v[i..j].iter().all(|k| b.first[*k] & EPS != 0);
                                if run && xs.contains(&v[i]) && ys.contains(&v[j]) {
                                    let m = norm_mask(b.first[v[i]]) & norm_mask(b.first[v[j]]) & !EPS;
                                    if m != 0 && terms_match(terms, m) {
                                        return None;
                                    }
                                }
                            }
                        }
                    }
                }
                Some("no such parts share these tokens".into())
            }
            GrammarError::FirstFollowConflict(me, terms) => {
                for s in self.named(me) {
                    let m = norm_mask(b.first[s]) & norm_mask(b.follow[s]) & !EPS;
                    if b.reach[s] && b.first[s] & EPS != 0 && m != 0 && terms_match(terms, m) {
                        return None;
                    }
                }
                Some("nothing of that name that may be empty starts with what follows it".into())
            }
            _ => Some("that is not a fault of the grammar".into()),
        }
    }
}
/// Does the text name exactly the tokens of the mask?
fn terms_match(text: &str, mask: u32) -> bool {
    let mut want: Vec<String> = vec![];
    for (i, (ty, lit)) in PROBES.iter().enumerate() {
        if mask & (1 << i) == 0 {
            continue;
        }
        match lit {
            None => want.push(format!("{ty:?}")),
            Some(l) => {
                let any = PROBES.iter().position(|p| p.0 == *ty && p.1.is_none()).is_some_and(|k| mask & (1 << k) != 0);
                if !any {
                    want.push(format!("\"{l}\""));
                }
            }
        }
    }
    if mask & EPS != 0 {
        want.push("<empty>".into());
    }
    // commas are tokens too: take the expected names out one by one
    let mut rest = text.to_string();
    for w in &want {
        match rest.find(w.as_str()) {
            Some(i) => rest.replace_range(i..i + w.len(), ""),
            None => return false,
        }
    }
    rest.chars().all(|c| c == ',' || c == ' ')
}
