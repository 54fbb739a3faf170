//! The simulated grammars as real types. A grammar is chosen at run time: every child
//! of every syntax form is a `Slot`, whose production is the one the current grammar
//! says. One process uses one grammar (the library keeps its tables per type for the
//! life of the process).
#![allow(static_mut_refs)]
use std::any::TypeId;
use std::borrow::Cow;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use simcore::gram::{Grammar, Sym, NPOS, NROOT, WIDE};
use simcore::tree::{Tree, V};
pub use simlx::*;
use simrt::seam;
use teleparse::parser::Produce;
use teleparse::prelude::*;
use teleparse::syntax::{Metadata, MetadataBuilder, Production, Result as SR_};
use teleparse::{GrammarError, Parser, ToSpan};

pub type SR<T> = SR_<T, Lx>;
mod gen;
pub use gen::*;

#[derive(Clone, Copy)]
enum C {
    No,
    T(u8),
    N(u8, u8),
}
static mut CUR: [[C; WIDE]; NPOS + NROOT] = [[C::No; WIDE]; NPOS + NROOT];
/// how often each root's first slot was registered (the table was begun to be built)
pub static ROOT_REG: [AtomicU64; NROOT] = [const { AtomicU64::new(0) }; NROOT];

pub fn set_grammar(g: &Grammar) {
    let c = |s: &Sym| match s {
        Sym::T(t) => C::T(*t),
        Sym::N(i) => {
            let n = &g.nodes[*i as usize];
            C::N(n.pos, n.kind)
        }
    };
    unsafe {
        for n in &g.nodes {
            for (k, s) in n.ch.iter().enumerate() {
                CUR[n.pos as usize][k] = c(s);
            }
        }
        for (r, v) in g.roots.iter().enumerate() {
            for (k, s) in v.iter().enumerate() {
                CUR[NPOS + r][k] = c(s);
            }
        }
    }
}
fn child(i: usize, k: usize) -> C {
    unsafe { CUR[i][k] }
}
fn sym_id(c: C) -> TypeId {
    match c {
        C::T(t) => term_id(t),
        C::N(p, k) => node_id(p, k),
        C::No => panic!("harness: unused slot"),
    }
}
pub fn id_of(g: &Grammar, s: Sym) -> TypeId {
    match s {
        Sym::T(t) => term_id(t),
        Sym::N(i) => node_id(g.nodes[i as usize].pos, g.nodes[i as usize].kind),
    }
}

pub struct SlotProd<const I: usize, const K: usize>;
impl<const I: usize, const K: usize> Production for SlotProd<I, K> {
    type L = Lx;
    fn id() -> TypeId {
        seam();
        sym_id(child(I, K))
    }
    fn debug() -> Cow<'static, str> {
        seam();
        Cow::Owned(format!("s{I}_{K}"))
    }
    fn register(b: &mut MetadataBuilder<Lx>) {
        if I >= NPOS && K == 0 {
            ROOT_REG[I - NPOS].fetch_add(1, Relaxed);
        }
        seam();
        match child(I, K) {
            C::T(t) => term_register(t, b),
            C::N(p, k) => node_register(p, k, b),
            C::No => panic!("harness: unused slot"),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Slot<const I: usize, const K: usize>(pub Tree);
impl<const I: usize, const K: usize> ToSpan for Slot<I, K> {
    fn lo(&self) -> Pos {
        self.0.lo
    }
    fn hi(&self) -> Pos {
        self.0.hi
    }
}
impl<const I: usize, const K: usize> Produce for Slot<I, K> {
    type Prod = SlotProd<I, K>;
    fn produce(p: &mut Parser<'_, Lx>, m: &Metadata<Lx>) -> SR<Self> {
        seam();
        match child(I, K) {
            C::T(t) => term_produce(t, p, m),
            C::N(pos, k) => node_produce(pos, k, p, m),
            C::No => panic!("harness: unused slot"),
        }
        .map(Slot)
    }
}

// ---------------------------------------------------------------- observation
pub(crate) fn sp<T: ToSpan>(x: &T) -> (usize, usize, bool) {
    let (lo, hi) = (x.lo(), x.hi());
    let r = &x;
    (lo, hi, x.span() != Span { lo, hi } || r.span() != Span { lo, hi })
}
fn mk(p: (usize, usize, bool), v: V) -> Tree {
    Tree { lo: p.0, hi: p.1, odd: p.2, v }
}
pub(crate) fn term<T: ToSpan>(t: u8, x: &T, tok: Token<Lx>) -> Tree {
    let mut p = sp(x);
    p.2 |= tok.ty != TERMS[t as usize].ty || tok.span != Span { lo: p.0, hi: p.1 };
    mk(p, V::Tok(t))
}
pub(crate) fn seq<T: ToSpan>(x: &T, v: Vec<Tree>) -> Tree {
    mk(sp(x), V::Seq(v))
}
pub(crate) fn alt(lo: usize, hi: usize, odd: bool, i: u8, t: Tree) -> Tree {
    mk((lo, hi, odd), V::Alt(i, Box::new(t)))
}
pub(crate) trait Has {
    fn tree(self) -> Tree;
}
impl<const I: usize, const K: usize> Has for Slot<I, K> {
    fn tree(self) -> Tree {
        self.0
    }
}
pub(crate) fn opt<T: Has + Produce>(x: tp::Option<T>) -> Tree {
    let mut p = sp(&x);
    let some = x.is_some();
    p.2 |= x.0.span != Span { lo: p.0, hi: p.1 };
    let inner = x.into_inner();
    p.2 |= inner.is_some() != some;
    mk(p, V::Opt(inner.map(|t| Box::new(t.tree()))))
}
pub(crate) fn exists<T: Produce>(x: tp::Exists<T>) -> Tree {
    let mut p = sp(&x);
    let b = *x;
    p.2 |= x.into_inner() != b;
    mk(p, V::Exists(b))
}
fn items<T: Has>(mut p: (usize, usize, bool), n: usize, it: impl IntoIterator<Item = T>) -> Tree {
    let v: Vec<Tree> = it.into_iter().map(|t| t.tree()).collect();
    p.2 |= v.len() != n;
    mk(p, V::List(v))
}
pub(crate) trait Len {
    fn n(&self) -> usize;
}
impl<T> Len for Vec<T> {
    fn n(&self) -> usize {
        self.len()
    }
}
impl<T> Len for std::collections::VecDeque<T> {
    fn n(&self) -> usize {
        self.len()
    }
}
impl<T> Len for SimVec<T> {
    fn n(&self) -> usize {
        self.0.len()
    }
}
pub(crate) fn list_star<C, T>(x: tp::Star<C, T>) -> Tree
where
    C: FromIterator<T> + Default + Len + IntoIterator<Item = T>,
    T: Produce + Has,
{
    let p = sp(&x);
    let n = x.n();
    items(p, n, x.into_inner())
}
pub(crate) fn list_plus<C, T>(x: tp::Plus<C, T>) -> Tree
where
    C: FromIterator<T> + Len + IntoIterator<Item = T>,
    T: Produce + Has,
{
    let p = sp(&x);
    let n = x.n();
    items(p, n, x.into_inner())
}
pub(crate) fn list_loop<T: Produce + Has>(x: tp::Loop<T>) -> Tree {
    let p = sp(&x);
    let n = x.n();
    items(p, n, x.into_inner())
}
pub(crate) fn split<T, P>(x: tp::Split<T, P>) -> Tree
where
    T: Produce + Has,
    P: Produce + Has,
    P::Prod: Production<L = <T::Prod as Production>::L>,
{
    let mut p = sp(&x);
    p.2 |= x.elems.span != Span { lo: p.0, hi: p.1 } || x.len() != x.elems.value.len();
    p.2 |= (&x).into_iter().count() != x.len();
    let tp::Split { elems, puncts } = x;
    let e = elems.into_inner().into_iter().map(|t| t.tree()).collect();
    let d = puncts.into_iter().map(|t| t.tree()).collect();
    mk(p, V::Split(e, d))
}
pub(crate) fn punct<T, P>(x: tp::Punct<T, P>) -> Tree
where
    T: Produce + Has,
    P: Produce + Has,
    P::Prod: Production<L = <T::Prod as Production>::L>,
{
    let mut p = sp(&x);
    p.2 |= x.span != Span { lo: p.0, hi: p.1 } || x.len() != x.elems.len();
    p.2 |= (&x).into_iter().count() != x.len();
    let tp::Punct { elems, puncts, .. } = x;
    let e = elems.into_iter().map(|t| t.tree()).collect();
    let d = puncts.into_iter().map(|t| t.tree()).collect();
    mk(p, V::Punct(e, d))
}
pub(crate) fn recover<T, P>(x: tp::Recover<T, P>) -> Tree
where
    T: Produce + Has,
    P: Produce + Has,
    P::Prod: Production<L = <T::Prod as Production>::L>,
{
    let p = sp(&x);
    let (lo, hi) = (x.head.span.lo, x.head.span.hi);
    let h = x.head.into_inner().map(|t| Box::new(t.tree()));
    mk(p, V::Rec(h, lo, hi, Box::new(x.tail.tree())))
}
pub(crate) fn boxed<T: Has + ToSpan>(x: Box<T>) -> Tree {
    let p = sp(&x);
    mk(p, V::Boxed(Box::new((*x).tree())))
}
pub(crate) fn quote<T: Produce>(x: tp::String<T>) -> Tree {
    let mut p = sp(&x);
    let s: String = (*x).clone();
    p.2 |= x.into_inner() != s;
    mk(p, V::Text(s))
}
pub(crate) fn parse_u32<T: Produce>(x: tp::Parse<u32, T>) -> Tree {
    let p = sp(&x);
    mk(p, V::Val(format!("{:?}", *x)))
}
pub(crate) fn parse_sim<T: Produce>(x: tp::Parse<SimVal, T>) -> Tree {
    let p = sp(&x);
    mk(
        p,
        V::Val(match &*x {
            Ok(v) => v.0.clone(),
            Err(e) => e.0.clone(),
        }),
    )
}

/// A collection whose building calls back into the harness.
#[derive(Clone, Debug, PartialEq)]
pub struct SimVec<T>(pub Vec<T>);
impl<T> Default for SimVec<T> {
    fn default() -> Self {
        seam();
        SimVec(vec![])
    }
}
impl<T> FromIterator<T> for SimVec<T> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        seam();
        let mut v = vec![];
        let mut it = it.into_iter();
        loop {
            seam();
            let _ = it.size_hint();
            match it.next() {
                Some(x) => v.push(x),
                None => return SimVec(v),
            }
        }
    }
}
impl<T> IntoIterator for SimVec<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
/// A value whose parsing calls back into the harness.
#[derive(Clone, Debug, PartialEq)]
pub struct SimVal(pub String);
#[derive(Clone, Debug, PartialEq)]
pub struct SimErr(pub String);
impl std::str::FromStr for SimVal {
    type Err = SimErr;
    fn from_str(s: &str) -> Result<Self, SimErr> {
        seam();
        let v = simcore::sem::sim_val(s);
        if v.starts_with("Ok") {
            Ok(SimVal(v))
        } else {
            Err(SimErr(v))
        }
    }
}
