//! The reference side of a session: what each operation must give.
use crate::plan::*;
use crate::real::norm_mask;
use simcore::gram::*;
use simcore::lx::*;
use simcore::model::*;
use simcore::tree::*;

pub struct Ref<'a> {
    pub g: &'a Grammar,
    pub bnf: Vec<Option<Bnf>>,
    pub m: MSess<'a>,
    src: &'a str,
}
/// reference tables per root (None: not used)
pub fn tables(g: &Grammar) -> Vec<Option<Bnf>> {
    (0..NROOT)
        .map(|r| if g.roots[r].is_empty() { None } else { Some(Bnf::of(g, r)) })
        .collect()
}
impl<'a> Ref<'a> {
    pub fn new(g: &'a Grammar, bnf: Vec<Option<Bnf>>, src: &'a str) -> Self {
        Ref { g, bnf, m: MSess::new(g, src), src }
    }
    fn b(&self, r: usize) -> Bnf {
        self.bnf[r].clone().unwrap()
    }
    fn query(&self, q: &Q) -> Vec<usize> {
        let t = &self.m.snap.toks;
        let all = 0..t.len();
        let types = |i: usize| (1u16 << t[i].0.ty) | t[i].1;
        let two = |v: Vec<usize>| {
            let mut a = v.clone();
            a.push(usize::MAX - 1);
            a.extend(v);
            a
        };
        match q {
            Q::At(i) => all.filter(|k| k == i).collect(),
            Q::AtSpan(a, b) => {
                let v: Vec<usize> = all.filter(|k| t[*k].0.lo >= *a && t[*k].0.hi <= *b).collect();
                if v.len() == 1 {
                    v
                } else {
                    vec![]
                }
            }
            Q::Overlap(a, b) => {
                two(all.filter(|k| t[*k].0.lo.max(*a) < t[*k].0.hi.min(*b)).collect())
            }
            Q::Inside(a, b) => two(all.filter(|k| t[*k].0.lo >= *a && t[*k].0.hi <= *b).collect()),
            Q::Ends(p, m) => two(match all.clone().find(|k| t[*k].0.hi == *p) {
                None => vec![],
                Some(k) => {
                    let lo = (0..=k).rev().take_while(|i| types(*i) & m != 0).last();
                    lo.map_or(vec![], |lo| (lo..=k).collect())
                }
            }),
            Q::Begins(p, m) => two(match all.clone().find(|k| t[*k].0.lo == *p) {
                None => vec![],
                Some(k) => (k..t.len()).take_while(|i| types(*i) & m != 0).collect(),
            }),
            Q::Lo(p) => vec![
                t.iter().any(|x| x.0.lo == *p) as usize,
                t.iter().filter(|x| x.0.lo < *p).count(),
            ],
            Q::Hi(p) => vec![
                t.iter().any(|x| x.0.hi == *p) as usize,
                t.iter().filter(|x| x.0.hi < *p).count(),
            ],
        }
    }
    fn term(&mut self, t: u8) -> Option<Tree> {
        let ti = TERMS[t as usize];
        let ty = ty_index(ti.ty);
        let (k, tok, e) = match ti.lit {
            None => self.m.token(ty),
            Some(l) => self.m.token_lit(ty, l, EPS),
        };
        self.m.snap.errs.extend(e);
        if k == 2 {
            None
        } else {
            tok.map(|x| Tree::new(x.lo, x.hi, V::Tok(t)))
        }
    }
    /// None: the operation is outside the model.
    pub fn op(&mut self, op: &Op) -> Option<Res> {
        Some(match op {
            Op::Parse(r) | Op::Once(r) | Op::ParseAll(r) if !self.b(*r).accepted() => {
                // refused; a session left as it was (parse_all looks at the next token)
                if matches!(op, Op::ParseAll(_)) {
                    self.m.peek();
                }
                Res::GramErr(String::new())
            }
            Op::Parse(r) => {
                let b = self.b(*r);
                Res::Parsed(self.m.root(&b, *r))
            }
            Op::Term(t) => Res::Parsed(self.term(*t)),
            Op::ParseAll(r) => {
                let b = self.b(*r);
                let mut v = vec![];
                loop {
                    let n0 = self.m.snap.toks.len();
                    v.push(self.m.root(&b, *r));
                    if self.m.snap.toks.len() == n0 || self.m.peek().is_none() {
                        break;
                    }
                }
                Res::Many(v)
            }
            Op::Once(r) => {
                let b = self.b(*r);
                let mut m = MSess::new(self.g, self.src);
                Res::Parsed(m.root(&b, *r))
            }
            Op::Consume => Res::Tok(self.m.consume()),
            Op::Peek => Res::Tok(self.m.peek()),
            Op::TryTok(t) => {
                let (k, t, e) = self.m.token(*t);
                Res::TokRes(k, t, e)
            }
            Op::TryLit(t, m) => {
                let ti = TERMS[*t as usize];
                let (k, t, e) =
                    self.m.token_lit(ty_index(ti.ty), ti.lit.unwrap_or("if"), norm_mask(*m));
                Res::TokRes(k, t, e)
            }
            Op::Span => {
                let (a, b) = self.m.cur_span();
                Res::Span(a, b)
            }
            Op::EmptySpan => {
                let (a, b) = self.m.empty_span();
                Res::Span(a, b)
            }
            Op::Remaining => {
                let lo = self.m.cur_span().0;
                Res::Str(self.src[lo..].to_string())
            }
            Op::Drain => {
                let mut v = vec![];
                while let Some(t) = self.m.consume() {
                    v.push(tok_show(&Some(t)));
                }
                Res::Strs(v)
            }
            Op::Mark(lo, hi, m) => {
                self.m.mark(*lo, *hi, *m);
                Res::Unit
            }
            Op::Query(v) => Res::Idx(v.iter().map(|q| self.query(q)).collect()),
            Op::QMark(q, m) => {
                let v = match q {
                    Q::At(_) | Q::Overlap(..) | Q::Inside(..) | Q::Ends(..) | Q::Begins(..) => self.query(q),
                    _ => vec![],
                };
                for i in v.into_iter().take_while(|i| *i != usize::MAX - 1) {
                    self.m.snap.toks[i].1 |= m;
                }
                Res::Unit
            }
            Op::Snap => Res::Snap(Box::new(self.m.take_snap())),
            Op::Log => {
                let mut s = self.m.snap.clone();
                s.errs.sort();
                Res::Snap(Box::new(s))
            }
            Op::Close => {
                self.m = MSess::new(self.g, self.src);
                Res::Unit
            }
            Op::Msgs => Res::Strs(vec![]),
            Op::Meta(_) | Op::TermMeta(_) => return None,
            Op::Assert(r) => {
                if self.b(*r).accepted() {
                    Res::Str("is LL(1)".into())
                } else {
                    Res::Str("panics: true".into())
                }
            }
            Op::ParseCancel(..) | Op::MetaCancel(..) | Op::TermCancel(..) => return None,
        })
    }
}
