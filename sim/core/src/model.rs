//! The reference model: an independent interpreter of grammars-as-data that reads a
//! source the way the documentation says a session does, damage included.
use crate::gram::*;
use crate::lx::*;
use crate::tree::*;

pub struct MSess<'a> {
    pub g: &'a Grammar,
    pub src: &'a str,
    ev: Vec<REvent>,
    evi: usize,
    peeked: Option<RTok>,
    pub snap: Snap,
}
pub enum R {
    Ok(Tree, Vec<Er>),
    Panic(Vec<Er>),
}
type Errs = Vec<Er>;

impl<'a> MSess<'a> {
    pub fn new(g: &'a Grammar, src: &'a str) -> Self {
        MSess { g, src, ev: ref_lex(src), evi: 0, peeked: None, snap: Snap::default() }
    }
    pub fn eof(&self) -> (usize, usize) {
        (self.src.len(), self.src.len())
    }
    pub fn text(&self, t: &RTok) -> &'a str {
        &self.src[t.lo..t.hi]
    }
    fn fill(&mut self) {
        while self.peeked.is_none() {
            let e = if self.evi < self.ev.len() {
                self.evi += 1;
                self.ev[self.evi - 1]
            } else {
                REvent { invalid: None, tok: None }
            };
            if let Some((lo, hi)) = e.invalid {
                self.snap.inv.push((lo, hi));
                self.snap.errs.push(Er { lo, hi, k: EK::Chars });
            }
            match e.tok {
                None => return,
                Some(t) if t.extract() => self.snap.ext.push(t),
                Some(t) => self.peeked = Some(t),
            }
        }
    }
    pub fn peek(&mut self) -> Option<RTok> {
        self.fill();
        self.peeked
    }
    pub fn consume(&mut self) -> Option<RTok> {
        self.fill();
        let t = self.peeked.take()?;
        self.snap.toks.push((t, 0));
        Some(t)
    }
    pub fn cur_span(&mut self) -> (usize, usize) {
        self.peek().map_or(self.eof(), |t| (t.lo, t.hi))
    }
    pub fn empty_span(&self) -> (usize, usize) {
        let h = self.snap.toks.last().map_or(0, |t| t.0.hi);
        (h, h)
    }
    /// probe bit of the next token; EPS at the end
    pub fn look(&mut self) -> u32 {
        match self.peek() {
            None => EPS,
            Some(t) => probe_of(t.ty, self.text(&t)),
        }
    }
    pub fn expecting(&mut self, m: u32) -> Er {
        let (lo, hi) = self.cur_span();
        Er { lo, hi, k: EK::Expect(m) }
    }
    pub fn take_snap(&mut self) -> Snap {
        self.fill();
        let mut s = self.snap.clone();
        s.peek = self.peeked;
        s.errs.sort();
        s
    }

    // ------------------------------------------------------------ tokens
    pub fn token(&mut self, ty: u8) -> (u8, Option<RTok>, Errs) {
        match self.peek() {
            Some(t) if t.ty == ty => {
                self.consume();
                (0, Some(t), vec![])
            }
            _ => {
                let m = (0..20)
                    .filter(|i| ty_index(PROBES[*i].0) == ty)
                    .fold(0, |a, i| a | 1 << i);
                (2, None, vec![self.expecting(m)])
            }
        }
    }
    pub fn token_lit(&mut self, ty: u8, lit: &str, follow: u32) -> (u8, Option<RTok>, Errs) {
        let want = probe_of(ty, lit);
        let look = self.look();
        match self.peek() {
            Some(t) if t.ty == ty && self.text(&t) == lit => {
                self.consume();
                return (0, Some(t), vec![]);
            }
            Some(_) => {
                let e = self.expecting(want);
                if look & follow != 0 {
                    let (lo, hi) = self.empty_span();
                    (1, Some(RTok { ty, lo, hi }), vec![e])
                } else {
                    (2, None, vec![e])
                }
            }
            None => {
                if follow & EPS != 0 {
                    let (lo, hi) = self.empty_span();
                    let e = self.expecting(want);
                    (1, Some(RTok { ty, lo, hi }), vec![e])
                } else {
                    let (lo, hi) = self.eof();
                    (2, None, vec![Er { lo, hi, k: EK::Eof }])
                }
            }
        }
    }

    // ------------------------------------------------------------ nodes
    pub fn root(&mut self, b: &Bnf, root: usize) -> Option<Tree> {
        let ch = self.g.roots[root].clone();
        let sem = crate::sem::root_sem(root);
        let r = if root == 2 { self.alt(b, &ch, b.root, sem) } else { self.seq(b, &ch, sem) };
        match r {
            R::Ok(t, e) => {
                self.snap.errs.extend(e);
                Some(t)
            }
            R::Panic(e) => {
                self.snap.errs.extend(e);
                None
            }
        }
    }
    pub fn mark(&mut self, lo: usize, hi: usize, sem: u16) {
        if sem == 0 {
            return;
        }
        // tokens are consumed, and so recorded, in the order of the source
        let from = self.snap.toks.partition_point(|(t, _)| t.lo < lo);
        for (t, m) in self.snap.toks[from..].iter_mut() {
            if t.hi > hi {
                break;
            }
            *m |= sem;
        }
    }
    fn seq(&mut self, b: &Bnf, ch: &[Sym], sem: &[u16]) -> R {
        let mut errs = vec![];
        let mut v = vec![];
        for s in ch {
            match self.produce(b, *s) {
                R::Ok(t, e) => {
                    errs.extend(e);
                    v.push(t);
                }
                R::Panic(e) => {
                    errs.extend(e);
                    return R::Panic(errs);
                }
            }
        }
        for (t, m) in v.iter().zip(sem) {
            self.mark(t.lo, t.hi, *m);
        }
        let (lo, hi) = (v[0].lo, v[v.len() - 1].hi);
        R::Ok(Tree::new(lo, hi, V::Seq(v)), errs)
    }
    fn alt(&mut self, b: &Bnf, ch: &[Sym], me: usize, sem: &[u16]) -> R {
        let look = self.look();
        let sel = ch
            .iter()
            .position(|s| look & b.first[self.sym(b, *s)] != 0)
            .or_else(|| ch.iter().position(|s| b.first[self.sym(b, *s)] & EPS != 0));
        match sel {
            None => {
                let e = self.expecting(b.first[me]);
                R::Panic(vec![e])
            }
            Some(i) => match self.produce(b, ch[i]) {
                R::Ok(t, e) => {
                    self.mark(t.lo, t.hi, sem.get(i).copied().unwrap_or(0));
                    R::Ok(Tree::new(t.lo, t.hi, V::Alt(i as u8, Box::new(t))), e)
                }
                p => p,
            },
        }
    }
    fn sym(&self, b: &Bnf, s: Sym) -> usize {
        match s {
            Sym::T(t) => t as usize,
            Sym::N(i) => b.node_sym[i as usize],
        }
    }
    fn opt(&mut self, b: &Bnf, s: Sym) -> (Option<Tree>, Errs, (usize, usize)) {
        let look = self.look();
        if look == EPS || look & b.first[self.sym(b, s)] == 0 {
            return (None, vec![], self.empty_span());
        }
        match self.produce(b, s) {
            R::Ok(t, e) => {
                let sp = (t.lo, t.hi);
                (Some(t), e, sp)
            }
            R::Panic(e) => (None, e, self.empty_span()),
        }
    }
    fn plus(&mut self, b: &Bnf, s: Sym, n: usize) -> R {
        let (t, mut errs) = match self.produce(b, s) {
            R::Ok(t, e) => (t, e),
            p => return p,
        };
        let lo = t.lo;
        let mut v = vec![t];
        let first = b.first[b.node_sym[n]] & !EPS;
        loop {
            let look = self.look();
            if look == EPS || look & first == 0 {
                break;
            }
            match self.produce(b, s) {
                R::Ok(t, e) => {
                    errs.extend(e);
                    v.push(t);
                }
                R::Panic(e) => {
                    errs.extend(e);
                    break;
                }
            }
        }
        let hi = v[v.len() - 1].hi;
        R::Ok(Tree::new(lo, hi, V::List(v)), errs)
    }
    fn merge(panic: &mut Option<Er>, e: Er) {
        match panic {
            Some(p) => p.hi = e.hi,
            None => *panic = Some(e),
        }
    }

    pub fn produce(&mut self, b: &Bnf, s: Sym) -> R {
        let i = match s {
            Sym::T(t) => {
                let ti = TERMS[t as usize];
                let ty = ty_index(ti.ty);
                let (k, tok, e) = match ti.lit {
                    None => self.token(ty),
                    Some(l) => self.token_lit(ty, l, b.follow[t as usize]),
                };
                return match k {
                    2 => R::Panic(e),
                    _ => {
                        let x = tok.unwrap();
                        R::Ok(Tree::new(x.lo, x.hi, V::Tok(t)), e)
                    }
                };
            }
            Sym::N(i) => i as usize,
        };
        let node = &self.g.nodes[i];
        let (pos, kind, ch) = (node.pos, node.kind, node.ch.clone());
        let me = b.node_sym[i];
        match node.form() {
            F::Seq => {
                let sem = crate::sem::sem(pos, kind);
                self.seq(b, &ch, sem)
            }
            F::Alt => {
                let sem = crate::sem::sem(pos, kind);
                self.alt(b, &ch, me, sem)
            }
            F::Opt => {
                let (t, e, (lo, hi)) = self.opt(b, ch[0]);
                R::Ok(Tree::new(lo, hi, V::Opt(t.map(Box::new))), e)
            }
            F::Exists => {
                let (t, e, (lo, hi)) = self.opt(b, ch[0]);
                R::Ok(Tree::new(lo, hi, V::Exists(t.is_some())), e)
            }
            F::Plus => self.plus(b, ch[0], i),
            F::Star => {
                let look = self.look();
                if look != EPS && look & b.first[self.sym(b, ch[0])] != 0 {
                    match self.plus(b, ch[0], i) {
                        R::Panic(e) => {
                            let (lo, hi) = self.empty_span();
                            R::Ok(Tree::new(lo, hi, V::List(vec![])), e)
                        }
                        ok => ok,
                    }
                } else {
                    let (lo, hi) = self.empty_span();
                    R::Ok(Tree::new(lo, hi, V::List(vec![])), vec![])
                }
            }
            F::Loop => {
                let mut errs = vec![];
                let mut v: Vec<Tree> = vec![];
                let first = b.first[me];
                while let Some(_) = self.peek() {
                    if self.look() & first == 0 {
                        let (lo, mut hi) = self.cur_span();
                        while self.peek().is_some() && self.look() & first == 0 {
                            hi = self.cur_span().1;
                            self.consume();
                        }
                        errs.push(Er { lo, hi, k: EK::Tokens });
                        continue;
                    }
                    let before = self.cur_span().0;
                    match self.produce(b, ch[0]) {
                        R::Ok(t, e) => {
                            errs.extend(e);
                            v.push(t);
                        }
                        R::Panic(e) => errs.extend(e),
                    }
                    let (lo, hi) = self.cur_span();
                    if lo == before {
                        errs.push(Er { lo, hi, k: EK::NoAdvance });
                        break;
                    }
                }
                let (lo, hi) = match (v.first(), v.last()) {
                    (Some(a), Some(z)) => (a.lo, z.hi),
                    _ => self.empty_span(),
                };
                R::Ok(Tree::new(lo, hi, V::List(v)), errs)
            }
            F::Split => self.split(b, ch[0], ch[1], me),
            F::Punct => self.punct(b, ch[0], ch[1], me),
            F::Recover => self.recover(b, ch[0], ch[1]),
            F::Boxed => match self.produce(b, ch[0]) {
                R::Ok(t, e) => R::Ok(Tree::new(t.lo, t.hi, V::Boxed(Box::new(t))), e),
                p => p,
            },
            F::Quote => match self.produce(b, ch[0]) {
                R::Ok(t, e) => {
                    let s = if t.lo < t.hi { &self.src[t.lo..t.hi] } else { "" };
                    R::Ok(Tree::new(t.lo, t.hi, V::Text(s.to_string())), e)
                }
                p => p,
            },
            F::Parse => match self.produce(b, ch[0]) {
                R::Ok(t, e) => {
                    let s = if t.lo < t.hi { &self.src[t.lo..t.hi] } else { "" };
                    let val = crate::sem::parse_expect(kind, s);
                    R::Ok(Tree::new(t.lo, t.hi, V::Val(val)), e)
                }
                p => p,
            },
        }
    }

    /// T (P T)*; a damaged item is dropped with its delimiter and reported once.
    fn split(&mut self, b: &Bnf, ts: Sym, ps: Sym, me: usize) -> R {
        let (t, mut errs) = match self.produce(b, ts) {
            R::Ok(t, e) => (t, e),
            p => return p,
        };
        let tf = b.first[self.sym(b, ts)];
        let pf = b.first[self.sym(b, ps)];
        let follow = b.follow[me];
        let lo = t.lo;
        let mut elems = vec![t];
        let mut puncts = vec![];
        'next: loop {
            let look = self.look();
            let go = look != EPS
                && (look & pf != 0 || (pf & EPS != 0 && look & tf != 0));
            if !go {
                break;
            }
            let p = match self.produce(b, ps) {
                R::Ok(p, e) => {
                    errs.extend(e);
                    p
                }
                R::Panic(e) => {
                    errs.extend(e);
                    break;
                }
            };
            let mut dropped: Option<Er> = None;
            loop {
                let before = self.cur_span().0;
                if self.look() & tf & !EPS != 0 || tf & EPS != 0 {
                    match self.produce(b, ts) {
                        R::Ok(t, e) => {
                            elems.push(t);
                            puncts.push(p);
                            errs.extend(e);
                            errs.extend(dropped);
                            continue 'next;
                        }
                        R::Panic(e) => {
                            if let Some(e) = e.into_iter().next_back() {
                                Self::merge(&mut dropped, e);
                            }
                        }
                    }
                } else {
                    let e = self.expecting(tf);
                    Self::merge(&mut dropped, e);
                }
                let look = self.look();
                if look != EPS && look & pf != 0 {
                    errs.extend(dropped);
                    continue 'next;
                }
                if look == EPS || look & follow != 0 {
                    errs.extend(dropped);
                    break 'next;
                }
                if look & tf != 0 && self.cur_span().0 != before {
                    continue;
                }
                self.consume();
            }
        }
        let hi = elems[elems.len() - 1].hi;
        R::Ok(Tree::new(lo, hi, V::Split(elems, puncts)), errs)
    }

    /// T (P (Punct)?)?; delimiters are kept even when their item is dropped.
    fn punct(&mut self, b: &Bnf, ts: Sym, ps: Sym, me: usize) -> R {
        let (t, mut errs) = match self.produce(b, ts) {
            R::Ok(t, e) => (t, e),
            p => return p,
        };
        let tf = b.first[self.sym(b, ts)];
        let pf = b.first[self.sym(b, ps)];
        let follow = b.follow[me];
        let lo = t.lo;
        let mut elems = vec![t];
        let mut puncts: Vec<Tree> = vec![];
        'next: loop {
            let look = self.look();
            if look == EPS || look & pf == 0 {
                break;
            }
            match self.produce(b, ps) {
                R::Ok(p, e) => {
                    errs.extend(e);
                    puncts.push(p);
                }
                R::Panic(e) => {
                    errs.extend(e);
                    break;
                }
            }
            let mut dropped: Option<Er> = None;
            loop {
                let before = self.cur_span().0;
                let look = self.look();
                if look == EPS {
                    errs.extend(dropped);
                    break 'next;
                }
                if look & tf == 0 {
                    if look & follow != 0 {
                        errs.extend(dropped);
                        break 'next;
                    }
                    let e = self.expecting((follow | tf) & !EPS);
                    Self::merge(&mut dropped, e);
                } else {
                    match self.produce(b, ts) {
                        R::Ok(t, e) => {
                            elems.push(t);
                            errs.extend(dropped);
                            errs.extend(e);
                            continue 'next;
                        }
                        R::Panic(e) => {
                            if let Some(e) = e.into_iter().next_back() {
                                Self::merge(&mut dropped, e);
                            }
                        }
                    }
                }
                let look = self.look();
                if look != EPS && look & pf != 0 {
                    errs.extend(dropped);
                    continue 'next;
                }
                if look == EPS || look & follow != 0 {
                    errs.extend(dropped);
                    break 'next;
                }
                if look & tf != 0 && self.cur_span().0 != before {
                    continue;
                }
                self.consume();
            }
        }
        let hi = elems[elems.len() - 1].hi.max(puncts.last().map_or(lo, |p| p.hi));
        R::Ok(Tree::new(lo, hi, V::Punct(elems, puncts)), errs)
    }

    fn recover(&mut self, b: &Bnf, ts: Sym, rs: Sym) -> R {
        let mut errs = vec![];
        let tf = b.first[self.sym(b, ts)];
        let rf = b.first[self.sym(b, rs)];
        let look = self.look();
        let mut dropped: Option<Er> = None;
        let (head, hs) = if look & tf != 0 || tf & EPS != 0 {
            match self.produce(b, ts) {
                R::Ok(t, e) => {
                    errs.extend(e);
                    let s = (t.lo, t.hi);
                    (Some(t), s)
                }
                R::Panic(e) => {
                    dropped = e.into_iter().next_back();
                    (None, self.empty_span())
                }
            }
        } else {
            dropped = Some(self.expecting(tf));
            (None, self.empty_span())
        };
        let tail = loop {
            let look = self.look();
            if look == EPS {
                if rf & EPS != 0 {
                    break match self.produce(b, rs) {
                        R::Ok(t, e) => {
                            errs.extend(e);
                            Some(t)
                        }
                        R::Panic(e) => {
                            if let Some(e) = e.into_iter().next_back() {
                                Self::merge(&mut dropped, e);
                            }
                            None
                        }
                    };
                }
                if dropped.is_none() {
                    dropped = Some(self.expecting(rf));
                }
                break None;
            }
            if look & rf != 0 || rf & EPS != 0 {
                let before = self.cur_span().0;
                match self.produce(b, rs) {
                    R::Ok(t, e) => {
                        errs.extend(e);
                        break Some(t);
                    }
                    R::Panic(e) => {
                        if let Some(e) = e.into_iter().next_back() {
                            Self::merge(&mut dropped, e);
                        }
                    }
                }
                if self.cur_span().0 != before {
                    continue;
                }
            }
            let e = self.expecting(rf);
            Self::merge(&mut dropped, e);
            self.consume();
        };
        errs.extend(dropped);
        match tail {
            Some(t) => {
                let (lo, hi) = (hs.0, t.hi);
                R::Ok(Tree::new(lo, hi, V::Rec(head.map(Box::new), hs.0, hs.1, Box::new(t))), errs)
            }
            None => R::Panic(errs),
        }
    }
}
